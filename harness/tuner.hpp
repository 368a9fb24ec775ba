// Stateful model of the three random tuners: everything successful that was
// told, in order, and the naive Pareto archive of it.
#pragma once
#include "bind.hpp"

namespace tuner {
struct Ob {
	ccs_binding_t  h = nullptr;
	std::vector<D> v;
	size_t         feat = 0; // content class of the features
	ccs_object_t   conf = nullptr;
	bool           ours = true; // of the tuner's objective space
};
enum Rel { BETTER, WORSE, EQUIV, NC, FAIL };
static Rel
relation(const BCtx &c, const Ob &a, const Ob &b)
{
	if (a.h == b.h)
		return EQUIV;
	if (a.ours != b.ours)
		return FAIL;
	if (a.feat != b.feat)
		return NC;
	bool ab = false, bb = false, un = false, err = false;
	for (auto &o : c.objs) {
		Ev x = ref_eval(o.e, c.ps, a.v), y = ref_eval(o.e, c.ps, b.v);
		if (x.err || y.err) {
			err = true;
			continue;
		}
		if (!x.v.is_num() || x.v.t != y.v.t ||
		    (x.v.t == CCS_DATA_TYPE_FLOAT && (std::isnan(x.v.f) || std::isnan(y.v.f)))) {
			un = true;
			continue;
		}
		bool lt = x.v.t == CCS_DATA_TYPE_INT ? x.v.i < y.v.i : x.v.f < y.v.f;
		bool gt = x.v.t == CCS_DATA_TYPE_INT ? x.v.i > y.v.i : x.v.f > y.v.f;
		if (o.t == CCS_OBJECTIVE_TYPE_MAXIMIZE)
			std::swap(lt, gt);
		ab |= lt;
		bb |= gt;
	}
	if (err)
		return FAIL;
	if (un || (ab && bb))
		return NC;
	return ab ? BETTER : bb ? WORSE : EQUIV;
}
// tree shapes for tree spaces
struct Node {
	size_t            arity = 0;
	std::vector<Node> kids; // empty slots are arity-0 with made == false
	bool              made = true;
};
static ccs_result_t
dyn_del(ccs_tree_space_t)
{
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
dyn_child(ccs_tree_space_t, ccs_tree_t parent, size_t index, ccs_tree_t *out)
{
	size_t depth = 0;
	OK(ccs_tree_get_position(parent, 0, nullptr, &depth));
	size_t arity = depth + 1 >= 3 ? 0 : (index + depth) % 3;
	return ccs_create_tree(arity, ccs_int((int64_t)index), out);
}
static ccs_tree_t
build_tree(Src &s, Pool &pool, Node &n, int depth)
{
	n.arity = depth ? s.draw(4) : 0;
	ccs_tree_t t = nullptr;
	OK(ccs_create_tree(n.arity, ccs_int((int64_t)s.draw(5)), &t));
	pool.add(t);
	if (s.chance(1, 4))
		OK(ccs_tree_set_weight(t, (double)s.draw(4)));
	n.kids.resize(n.arity);
	for (size_t i = 0; i < n.arity; i++) {
		n.kids[i].made = s.chance(2, 3);
		if (n.kids[i].made) {
			ccs_tree_t c = build_tree(s, pool, n.kids[i], depth - 1);
			OK(ccs_tree_set_child(t, i, c));
		}
	}
	return t;
}
static bool
valid_position(const Node &root, bool dynamic, const std::vector<size_t> &p)
{
	const Node *n     = &root;
	size_t      arity = root.arity;
	for (size_t i = 0; i < p.size(); i++) {
		if (p[i] >= arity)
			return false;
		const Node *k = n && p[i] < n->kids.size() ? &n->kids[p[i]] : nullptr;
		if (k && k->made) {
			n     = k;
			arity = k->arity;
		} else if (!dynamic)
			return i + 1 == p.size(); // an empty slot can only come last
		else {
			n     = nullptr;
			arity = i + 1 >= 3 ? 0 : (p[i] + i) % 3;
		}
	}
	return true;
}

struct World {
	BK                   kind;
	Pool                *pool;
	BCtx                 oc; // the objective space
	ccs_context_t        other = nullptr; // another objective space
	CSpace               cs;
	ccs_tree_space_t     ts = nullptr;
	Node                 root;
	bool                 dynamic = false;
	ccs_features_space_t fs = nullptr;
	std::vector<ccs_features_t> feats; // two handles for each class
	std::vector<Ob>      history;
	std::set<ccs_binding_t> optima; // as last seen
	bool                 front = false; // objectives that pull apart
	size_t               nf = 3; // classes of features
	bool                 tainted = false; // an evaluation that cannot be compared was told
	ccs_object_t         t = nullptr;
	std::vector<ccs_object_t> asked;
};
#define T_CALL(r, fn, ...)                                                                              \
	switch (w.kind) {                                                                               \
	case B_EVAL: r = ccs_tuner_##fn((ccs_tuner_t)w.t, __VA_ARGS__); break;                           \
	default: r = ccs_tree_tuner_##fn((ccs_tree_tuner_t)w.t, __VA_ARGS__);                            \
	}
static ccs_result_t
t_history(World &w, ccs_features_t f, size_t n, ccs_binding_t *a, size_t *r)
{
	switch (w.kind) {
	case B_EVAL: return ccs_tuner_get_history((ccs_tuner_t)w.t, n, (ccs_evaluation_t *)a, r);
	case B_FEVAL: return ccs_features_tuner_get_history((ccs_features_tuner_t)w.t, f, n, (ccs_features_evaluation_t *)a, r);
	default: return ccs_tree_tuner_get_history((ccs_tree_tuner_t)w.t, n, (ccs_tree_evaluation_t *)a, r);
	}
}
static ccs_result_t
t_optima(World &w, ccs_features_t f, size_t n, ccs_binding_t *a, size_t *r)
{
	switch (w.kind) {
	case B_EVAL: return ccs_tuner_get_optima((ccs_tuner_t)w.t, n, (ccs_evaluation_t *)a, r);
	case B_FEVAL: return ccs_features_tuner_get_optima((ccs_features_tuner_t)w.t, f, n, (ccs_features_evaluation_t *)a, r);
	default: return ccs_tree_tuner_get_optima((ccs_tree_tuner_t)w.t, n, (ccs_tree_evaluation_t *)a, r);
	}
}
static ccs_result_t
t_tell(World &w, size_t n, ccs_binding_t *a)
{
	switch (w.kind) {
	case B_EVAL: return ccs_tuner_tell((ccs_tuner_t)w.t, n, (ccs_evaluation_t *)a);
	case B_FEVAL: return ccs_features_tuner_tell((ccs_features_tuner_t)w.t, n, (ccs_features_evaluation_t *)a);
	default: return ccs_tree_tuner_tell((ccs_tree_tuner_t)w.t, n, (ccs_tree_evaluation_t *)a);
	}
}
static ccs_result_t
t_ask(World &w, ccs_features_t f, size_t n, ccs_object_t *a, size_t *r)
{
	switch (w.kind) {
	case B_EVAL: return ccs_tuner_ask((ccs_tuner_t)w.t, n, (ccs_configuration_t *)a, r);
	case B_FEVAL: return ccs_features_tuner_ask((ccs_features_tuner_t)w.t, f, n, (ccs_configuration_t *)a, r);
	default: return ccs_tree_tuner_ask((ccs_tree_tuner_t)w.t, n, (ccs_tree_configuration_t *)a, r);
	}
}
static ccs_result_t
t_suggest(World &w, ccs_features_t f, ccs_object_t *a)
{
	switch (w.kind) {
	case B_EVAL: return ccs_tuner_suggest((ccs_tuner_t)w.t, (ccs_configuration_t *)a);
	case B_FEVAL: return ccs_features_tuner_suggest((ccs_features_tuner_t)w.t, f, (ccs_configuration_t *)a);
	default: return ccs_tree_tuner_suggest((ccs_tree_tuner_t)w.t, (ccs_tree_configuration_t *)a);
	}
}
// a configuration handed out by the tuner is one of the space
static void
check_handed(World &w, ccs_object_t c)
{
	if (w.kind == B_TEVAL) {
		ccs_tree_space_t ts = nullptr;
		OK(ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)c, &ts));
		CHECK(ts == w.ts, "tree space of the configuration");
		size_t n = 77;
		OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, 0, nullptr, &n));
		std::vector<size_t> p(n + 1);
		OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, n + 1, p.data(), &n));
		p.resize(n);
		CHECK(valid_position(w.root, w.dynamic, p), "position handed out is not in the tree");
		ccs_bool_t ok = (ccs_bool_t)77;
		OK(ccs_tree_configuration_check((ccs_tree_configuration_t)c, &ok));
		CHECK(ok == CCS_TRUE, "tree configuration handed out is reported invalid");
	} else {
		ccs_configuration_space_t cs = nullptr;
		OK(ccs_configuration_get_configuration_space((ccs_configuration_t)c, &cs));
		CHECK(cs == w.cs.h, "space of the configuration");
		std::vector<D> v = config_values((ccs_configuration_t)c, w.cs.ps.size());
		std::string    why;
		CHECK(w.cs.check(v, &why) != CSpace::INVALID, "configuration %s handed out: %s", strv(v).c_str(), why.c_str());
	}
}
static void
audit(Src &s, World &w)
{
	size_t nclass = w.kind == B_FEVAL ? w.nf : 1;
	std::set<ccs_binding_t> now;
	size_t total = 0;
	for (size_t f = 0; f <= (nclass > 1 ? nclass : 0); f++) {
		// f == nclass (or the only one): everything
		bool all = f == nclass || nclass == 1;
		ccs_features_t fh = all ? nullptr : w.feats[f + (s.coin() ? w.nf : 0)];
		std::vector<const Ob *> want;
		for (auto &o : w.history)
			if (all || o.feat == f)
				want.push_back(&o);
		size_t n = 77, room = want.size() + s.draw(3);
		OK(t_history(w, fh, 0, nullptr, &n));
		CHECK(n == want.size(), "history of %zu evaluations instead of %zu", n, want.size());
		std::vector<ccs_binding_t> a(room + 1, (ccs_binding_t)0x5a5a);
		if (room) {
			OK(t_history(w, fh, room, a.data(), s.coin() ? &n : nullptr));
			CHECK(n == want.size(), "%zu evaluations announced with room for %zu, there are %zu", n, room, want.size());
			CHECK(a[room] == (ccs_binding_t)0x5a5a, "written past the end");
			for (size_t i = 0; i < room; i++)
				CHECK(a[i] == (i < want.size() ? want[i]->h : nullptr), "history entry %zu", i);
		}
		if (want.size() > 1)
			ERR(t_history(w, fh, want.size() - 1, a.data(), &n), CCS_RESULT_ERROR_INVALID_VALUE);
		// optima
		OK(t_optima(w, fh, 0, nullptr, &n));
		CHECK(n <= want.size(), "%zu optima out of %zu evaluations", n, want.size());
		room = n + s.draw(3);
		std::vector<ccs_binding_t> b(room + 1, (ccs_binding_t)0x5a5a);
		size_t m = 77;
		if (room)
			OK(t_optima(w, fh, room, b.data(), &m));
		CHECK(!room || m == n, "%zu optima announced with room for %zu, there are %zu", m, room, n);
		if (n > 1)
			ERR(t_optima(w, fh, n - 1, a.data(), &m), CCS_RESULT_ERROR_INVALID_VALUE);
		CHECK(b[room] == (ccs_binding_t)0x5a5a, "written past the end");
		std::vector<const Ob *> opt;
		for (size_t i = 0; i < room; i++) {
			if (i >= n) {
				CHECK(!b[i], "unused optimum entry");
				continue;
			}
			const Ob *o = nullptr;
			for (auto *x : want)
				if (x->h == b[i])
					o = x;
			CHECK(o, "an optimum is not in the history");
			for (auto *x : opt)
				CHECK(x->h != o->h, "an optimum is listed twice");
			opt.push_back(o);
			if (all)
				now.insert(o->h);
			else
				total++;
		}
		for (auto *o : opt)
			for (auto *x : opt)
				if (x != o) {
					Rel r = relation(w.oc, *x, *o);
					CHECK(r == NC || r == FAIL, "two optima are %s", r == EQUIV ? "equivalent" : "ordered");
				}
		if (!w.tainted) {
			for (auto *h : want) {
				bool dominated = false, represented = false;
				for (auto *x : want)
					dominated |= relation(w.oc, *x, *h) == BETTER;
				for (auto *o : opt)
					represented |= relation(w.oc, *o, *h) == EQUIV;
				CHECK(!dominated || !represented, "a dominated evaluation %s is an optimum", strv(h->v).c_str());
				CHECK(dominated || represented, "the non dominated evaluation %s is missing from the optima", strv(h->v).c_str());
			}
		}
	}
	if (w.kind == B_FEVAL)
		CHECK(total == now.size(), "%zu optima over all features instead of %zu", now.size(), total);
	// an optimum only goes away because a better evaluation came
	for (auto o : w.optima)
		if (!now.count(o)) {
			const Ob *x = nullptr;
			for (auto &h : w.history)
				if (h.h == o)
					x = &h;
			bool beaten = false;
			for (auto &h : w.history)
				beaten |= relation(w.oc, h, *x) == BETTER;
			CHECK(beaten, "the optimum %s went away although nothing beats it", strv(x->v).c_str());
		}
	w.optima = now;
}
static Ob
make_eval(Src &s, World &w, bool *ok_result)
{
	Ob     o;
	size_t n  = w.oc.ps.size();
	bool   odd = !w.front && s.chance(1, 14);
	int64_t at = 0;
	for (size_t i = 0; i < n; i++) {
		D v = w.oc.ps[i].kind == Param::INT ? D::I((int64_t)s.draw(4)) : D::F((double)s.draw(4) / 2);
		if (w.front) { // many that do not dominate each other
			at = i ? 99 - at : (int64_t)s.draw(100);
			if (i > 1)
				at = (int64_t)s.draw(100);
			v = w.oc.ps[i].kind == Param::INT ? D::I(at) : D::F((double)at / 2);
		}
		if (odd && s.coin())
			v = s.coin() ? D::F(NAN) : s.coin() ? D::S("text") : D::I(1);
		o.v.push_back(v);
	}
	if (!w.history.empty() && s.chance(1, w.front ? 12 : 3)) {
		o.v = w.history[s.draw(w.history.size())].v;
		if (s.coin()) {
			size_t i = s.draw(n);
			o.v[i]   = w.oc.ps[i].kind == Param::INT ? D::I((int64_t)s.draw(4)) : D::F((double)s.draw(4) / 2);
		}
	}
	ccs_evaluation_result_t r = s.chance(1, 6) ? (ccs_evaluation_result_t)s.range(-3, 3) : CCS_RESULT_SUCCESS;
	*ok_result = r == CCS_RESULT_SUCCESS;
	std::vector<ccs_datum_t> a = stables(o.v);
	o.ours = !s.chance(1, 40);
	auto os = (ccs_objective_space_t)(o.ours ? w.oc.h : w.other);
	if (!w.asked.empty() && s.chance(2, 3))
		o.conf = w.asked[s.draw(w.asked.size())];
	else if (w.kind == B_TEVAL) {
		ccs_tree_configuration_t c = nullptr;
		OK(ccs_create_tree_configuration(w.ts, 0, nullptr, &c));
		o.conf = (ccs_object_t)w.pool->add(c);
	} else {
		ccs_configuration_t c = nullptr;
		OK(ccs_configuration_space_get_default_configuration(w.cs.h, &c));
		o.conf = (ccs_object_t)w.pool->add(c);
	}
	switch (w.kind) {
	case B_EVAL:
		OK(ccs_create_evaluation(os, (ccs_configuration_t)o.conf, r, n, a.data(), (ccs_evaluation_t *)&o.h));
		break;
	case B_FEVAL: {
		size_t f = s.draw(2 * w.nf);
		o.feat   = f % w.nf;
		OK(ccs_create_features_evaluation(os, (ccs_configuration_t)o.conf, w.feats[f], r, n, a.data(),
						  (ccs_features_evaluation_t *)&o.h));
		break;
	}
	default:
		OK(ccs_create_tree_evaluation(os, (ccs_tree_configuration_t)o.conf, r, n, a.data(), (ccs_tree_evaluation_t *)&o.h));
	}
	s.log("  %s feat %zu result %d%s\n", strv(o.v).c_str(), o.feat, (int)r, o.ours ? "" : " foreign");
	return o;
}
static void
tell(Src &s, World &w)
{
	size_t                     n = w.front && s.chance(1, 3) ? 10 + s.draw(40) : s.draw(5);
	std::vector<ccs_binding_t> a;
	std::vector<Ob>            ok;
	std::vector<ccs_binding_t> mine;
	bool                       taint = w.tainted;
	s.log("tell\n");
	for (size_t i = 0; i < n; i++) {
		if (!w.history.empty() && s.chance(1, 12)) { // once more
			Ob o = w.history[s.draw(w.history.size())];
			a.push_back(o.h);
			ok.push_back(o);
			s.label("told twice");
			continue;
		}
		bool good;
		Ob   o = make_eval(s, w, &good);
		a.push_back(o.h);
		mine.push_back(o.h);
		if (good) {
			ok.push_back(o);
			for (auto &h : w.history)
				taint |= relation(w.oc, o, h) == FAIL;
			for (auto &h : ok)
				taint |= relation(w.oc, o, h) == FAIL;
			if (!o.ours)
				taint = true;
		} else
			s.label("failed evaluation");
	}
	bool         bad = n && s.chance(1, 10);
	ccs_result_t r;
	if (bad) {
		a.insert(a.begin() + (long)s.draw(n + 1), s.coin() ? nullptr : (ccs_binding_t)w.oc.h);
		r = t_tell(w, a.size(), a.data());
		CHECK(r < 0, "a tell with an invalid evaluation was accepted");
		ccs_clear_thread_error();
		s.label("tell refused");
	} else {
		r = t_tell(w, a.size(), a.empty() ? nullptr : a.data());
		if (taint && r < 0) {
			// refusing what cannot be compared is fine, and must change nothing
			ccs_clear_thread_error();
			bad = true;
		} else {
			OK(r);
			ccs_clear_thread_error();
		}
	}
	if (!bad) {
		w.tainted = taint;
		for (auto &o : ok)
			w.history.push_back(o);
	}
	// the tuner keeps what it needs
	for (auto h : mine)
		OK(ccs_release_object(h));
}
static void
body(Src &s, BK kind)
{
	Pool  pool;
	World w;
	w.kind = kind;
	w.pool = &pool;
	if (kind == B_TEVAL) {
		ccs_tree_t r = build_tree(s, pool, w.root, 3);
		w.dynamic    = s.coin();
		// a tree that can never stop anywhere cannot be sampled
		if (w.dynamic) {
			ccs_dynamic_tree_space_vector_t v = {dyn_del, dyn_child, nullptr, nullptr};
			OK(ccs_create_dynamic_tree_space("dynamic", r, &v, nullptr, &w.ts));
		} else
			OK(ccs_create_static_tree_space("static", r, &w.ts));
		pool.add(w.ts);
		ccs_rng_t rng = make_rng(pool, s.draw(1 << 20));
		OK(ccs_tree_space_set_rng(w.ts, rng));
	} else {
		CSOpts o;
		o.max_p = 4;
		o.max_forb = 1;
		w.cs = gen_cspace(s, pool, o);
	}
	w.oc = make_ctx(s, pool, kind);
	size_t n = s.size(1, 3);
	for (size_t i = 0; i < n; i++) {
		Param p;
		p.kind = s.coin() ? Param::FLOAT : Param::INT;
		p.ui   = 100;
		p.uf   = 100;
		p.name = sfmt("o%zu", i);
		build_param(p, pool);
		OK(ctx_add(w.oc, p.h));
		w.oc.ps.push_back(p);
	}
	OK(ccs_create_objective_space("other", (ccs_objective_space_t *)&w.other));
	pool.add(w.other);
	for (auto &p : w.oc.ps)
		OK(ccs_objective_space_add_parameter((ccs_objective_space_t)w.other, p.h));
	size_t m = s.size(0, 3);
	w.front  = n > 1 && m > 1 && s.chance(1, 12);
	ccs_objective_type_t same = s.coin() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
	for (size_t i = 0; i < m; i++) {
		Objective o;
		o.e = E::V(w.front ? (int)i % (int)n : (int)s.draw(n));
		if (!w.front && s.chance(1, 5))
			o.e = E::N(CCS_EXPRESSION_TYPE_ADD, {o.e, E::V((int)s.draw(n))});
		o.t = w.front ? same : s.coin() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
		o.h = build_expr(o.e, w.oc.ps, pool);
		OK(ccs_objective_space_add_objective((ccs_objective_space_t)w.oc.h, o.h, o.t));
		OK(ccs_objective_space_add_objective((ccs_objective_space_t)w.other, o.h, o.t));
		w.oc.objs.push_back(o);
		s.log("%s %s\n", o.t == CCS_OBJECTIVE_TYPE_MAXIMIZE ? "max" : "min", o.e.str(w.oc.ps).c_str());
	}
	std::string name = s.text();
	TmpStr      nm(name);
	const char *nr = nullptr;
	ccs_objective_space_t osr = nullptr;
	if (kind == B_EVAL) {
		ccs_tuner_t               t = nullptr;
		ccs_tuner_type_t          ty;
		ccs_configuration_space_t cs = nullptr;
		OK(ccs_create_random_tuner(nm, w.cs.h, (ccs_objective_space_t)w.oc.h, &t));
		w.t = (ccs_object_t)pool.add(t);
		OK(ccs_tuner_get_type(t, &ty));
		OK(ccs_tuner_get_name(t, &nr));
		OK(ccs_tuner_get_configuration_space(t, &cs));
		OK(ccs_tuner_get_objective_space(t, &osr));
		CHECK(ty == CCS_TUNER_TYPE_RANDOM && cs == w.cs.h, "tuner accessors");
	} else if (kind == B_FEVAL) {
		ccs_parameter_t p = nullptr;
		OK(ccs_create_features_space("features", &w.fs));
		pool.add(w.fs);
		OK(ccs_create_string_parameter("f", &p));
		pool.add(p);
		OK(ccs_features_space_add_parameter(w.fs, p));
		static const char *const txt[] = {"a", "b", "ab"};
		if (s.chance(1, 10))
			w.nf = 10 + s.draw(20);
		for (size_t i = 0; i < 2 * w.nf; i++) {
			ccs_features_t f = nullptr;
			TmpStr         t(i % w.nf < 3 ? std::string(txt[i % w.nf]) : sfmt("f%zu", i % w.nf));
			ccs_datum_t    v = ccs_string(t);
			v.flags          = CCS_DATUM_FLAG_TRANSIENT;
			OK(ccs_create_features(w.fs, 1, &v, &f));
			w.feats.push_back(pool.add(f));
		}
		ccs_features_tuner_t      t = nullptr;
		ccs_features_tuner_type_t ty;
		ccs_configuration_space_t cs = nullptr;
		ccs_features_space_t      fs = nullptr;
		OK(ccs_create_random_features_tuner(nm, w.cs.h, w.fs, (ccs_objective_space_t)w.oc.h, &t));
		w.t = (ccs_object_t)pool.add(t);
		OK(ccs_features_tuner_get_type(t, &ty));
		OK(ccs_features_tuner_get_name(t, &nr));
		OK(ccs_features_tuner_get_configuration_space(t, &cs));
		OK(ccs_features_tuner_get_objective_space(t, &osr));
		OK(ccs_features_tuner_get_features_space(t, &fs));
		CHECK(ty == CCS_FEATURES_TUNER_TYPE_RANDOM && cs == w.cs.h && fs == w.fs, "tuner accessors");
	} else {
		ccs_tree_tuner_t      t = nullptr;
		ccs_tree_tuner_type_t ty;
		ccs_tree_space_t      ts = nullptr;
		OK(ccs_create_random_tree_tuner(nm, w.ts, (ccs_objective_space_t)w.oc.h, &t));
		w.t = (ccs_object_t)pool.add(t);
		OK(ccs_tree_tuner_get_type(t, &ty));
		OK(ccs_tree_tuner_get_name(t, &nr));
		OK(ccs_tree_tuner_get_tree_space(t, &ts));
		OK(ccs_tree_tuner_get_objective_space(t, &osr));
		CHECK(ty == CCS_TREE_TUNER_TYPE_RANDOM && ts == w.ts, "tuner accessors");
	}
	CHECK(nr && name == nr && (ccs_context_t)osr == w.oc.h, "tuner accessors");
	audit(s, w);
	size_t   steps = s.size(1, 12), tells = 0, suggests = 0;
	uint64_t shape = m;
	for (size_t st = 0; st < steps; st++) {
		size_t op = s.weighted({4, 2, 2});
		size_t f  = w.kind == B_FEVAL ? s.draw(2 * w.nf) : 0;
		ccs_features_t fh = w.kind == B_FEVAL ? w.feats[f] : nullptr;
		switch (op) {
		case 0:
			tell(s, w);
			tells++;
			break;
		case 1: {
			size_t                    k = s.draw(4), r = 77;
			std::vector<ccs_object_t> a(k + 1, (ccs_object_t)0x5a5a);
			s.log("ask %zu\n", k);
			if (!k) {
				OK(t_ask(w, fh, 0, nullptr, &r));
				CHECK(r != 77 && r >= 1, "number of configurations the tuner would give");
				break;
			}
			ccs_result_t rc = t_ask(w, fh, k, a.data(), s.coin() ? &r : nullptr);
			CHECK(a[k] == (ccs_object_t)0x5a5a, "written past the end");
			if (rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL ||
			    (w.kind == B_TEVAL && rc == CCS_RESULT_ERROR_INVALID_DISTRIBUTION)) {
				ccs_clear_thread_error();
				s.label("ask unsuccessful");
				break;
			}
			OK(rc);
			CHECK(r == 77 || r == k, "%zu configurations asked, %zu announced", k, r);
			for (size_t i = 0; i < k; i++) {
				w.asked.push_back((ccs_object_t)pool.add(a[i]));
				check_handed(w, a[i]);
			}
			s.label("asked");
			break;
		}
		default: {
			ccs_object_t c = nullptr;
			bool         some = false, found = false;
			ccs_result_t rc = t_suggest(w, fh, &c);
			for (auto &h : w.history)
				some |= w.optima.count(h.h) && h.feat == f % w.nf;
			if (!some) {
				if (rc < 0) {
					CHECK(rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL ||
						      (w.kind == B_TEVAL && rc == CCS_RESULT_ERROR_INVALID_DISTRIBUTION),
					      "suggest failed: %s", rname(rc));
					ccs_clear_thread_error();
					break;
				}
				pool.add(c);
				check_handed(w, c);
				s.label("suggested without optima");
				break;
			}
			OK(rc);
			for (auto &h : w.history)
				found |= w.optima.count(h.h) && h.feat == f % w.nf && h.conf == c;
			CHECK(found, "the configuration suggested is not the one of an optimum");
			pool.add(c); // a reference of our own
			suggests++;
			s.label("suggested an optimum");
		}
		}
		audit(s, w);
		shape = pbt::hcomb(shape, op);
	}
	if (w.optima.size() > 1 && s.chance(1, 4)) {
		// each optimum is suggested sooner or later
		ccs_rng_t rng = make_rng(pool, s.draw(1 << 20));
		if (w.kind == B_TEVAL)
			OK(ccs_tree_space_set_rng(w.ts, rng));
		else
			OK(ccs_configuration_space_set_rng(w.cs.h, rng));
		for (size_t f = 0; f < (w.kind == B_FEVAL ? w.nf : 1); f++) {
			std::set<ccs_object_t> todo;
			std::set<ccs_binding_t> mine;
			for (auto &h : w.history)
				if (w.optima.count(h.h) && (w.kind != B_FEVAL || h.feat == f)) {
					todo.insert(h.conf);
					mine.insert(h.h);
				}
			if (mine.size() < 2)
				continue;
			size_t all = todo.size();
			for (size_t i = 0; i < 60 * mine.size() && !todo.empty(); i++) {
				ccs_object_t c = nullptr;
				OK(t_suggest(w, w.kind == B_FEVAL ? w.feats[f] : nullptr, &c));
				todo.erase(c);
				OK(ccs_release_object(c));
			}
			CHECK(todo.empty(), "%zu of the %zu configurations of optima are never suggested", todo.size(), all);
			s.label("all optima suggested");
		}
	}
	for (auto &h : w.history)
		shape = pbt::hcomb(shape, pbt::hstr(strv(h.v)));
	s.feature(shape);
	s.nontrivial(w.history.size() >= 3 && m >= 1);
	s.label_if(w.tainted, "told something that cannot be compared");
	s.label_if(w.optima.size() >= 2, "several optima");
	s.label_if(w.optima.size() >= 25, "25 optima or more");
	s.label_if(w.optima.size() < w.history.size(), "something dominated");
	// the evaluations outlive the caller's references
	for (auto &h : w.history)
		CHECK(config_values(h.h, n).size() == n, "values");
}
} // namespace tuner
