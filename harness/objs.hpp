// Objects of every kind, with everything they refer to, and a canonical text
// of all that can be observed of an object.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include "bind.hpp"
#include "tuner.hpp"
#include <gsl/gsl_rng.h>
#include <list>

namespace objs {
enum K {
	K_RNG, K_DIST, K_PARAM, K_EXPR, K_FS, K_CS, K_OS, K_CONF, K_FEAT, K_EVAL, K_FEVAL, K_TREE, K_SSPACE, K_DSPACE,
	K_TCONF, K_TEVAL, K_TUNER, K_FTUNER, K_TTUNER, K_UTUNER, K_UFTUNER, K_UTTUNER, K_MAP, K_KINDS
};
static const char *const k_names[] = {
	"rng", "distribution", "parameter", "expression", "features space", "configuration space", "objective space",
	"configuration", "features", "evaluation", "features evaluation", "tree", "static tree space", "dynamic tree space",
	"tree configuration", "tree evaluation", "random tuner", "random features tuner", "random tree tuner",
	"user tuner", "user features tuner", "user tree tuner", "map"};
static const ccs_object_type_t k_types[] = {
	CCS_OBJECT_TYPE_RNG, CCS_OBJECT_TYPE_DISTRIBUTION, CCS_OBJECT_TYPE_PARAMETER, CCS_OBJECT_TYPE_EXPRESSION,
	CCS_OBJECT_TYPE_FEATURES_SPACE, CCS_OBJECT_TYPE_CONFIGURATION_SPACE, CCS_OBJECT_TYPE_OBJECTIVE_SPACE,
	CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_EVALUATION,
	CCS_OBJECT_TYPE_FEATURES_EVALUATION, CCS_OBJECT_TYPE_TREE, CCS_OBJECT_TYPE_TREE_SPACE, CCS_OBJECT_TYPE_TREE_SPACE,
	CCS_OBJECT_TYPE_TREE_CONFIGURATION, CCS_OBJECT_TYPE_TREE_EVALUATION, CCS_OBJECT_TYPE_TUNER,
	CCS_OBJECT_TYPE_FEATURES_TUNER, CCS_OBJECT_TYPE_TREE_TUNER, CCS_OBJECT_TYPE_TUNER, CCS_OBJECT_TYPE_FEATURES_TUNER,
	CCS_OBJECT_TYPE_TREE_TUNER, CCS_OBJECT_TYPE_MAP};

// ---- state of user defined tuners and tree spaces ----
struct UState {
	std::vector<ccs_object_t> hist;
	std::vector<size_t>       opt;
	std::string               blob;
	int                       dels  = 0;
	int                       mode = 0; // which evaluations are optima, and in which order
	bool                      lossy = false; // replayed through tell: blob not restored
};
template <class T> struct UT;
template <> struct UT<ccs_tuner_t> {
	typedef ccs_evaluation_t Ev;
	typedef ccs_configuration_t Cf;
	static UState *data(ccs_tuner_t t) { void *d = nullptr; OK(ccs_user_defined_tuner_get_tuner_data(t, &d)); return (UState *)d; }
	static ccs_result_t def(ccs_tuner_t t, Cf *c)
	{
		ccs_configuration_space_t cs = nullptr;
		OK(ccs_tuner_get_configuration_space(t, &cs));
		return ccs_configuration_space_get_default_configuration(cs, c);
	}
	static bool match(ccs_features_t, ccs_object_t) { return true; }
	static Cf conf(ccs_object_t e) { Cf c = nullptr; OK(ccs_evaluation_get_configuration((Ev)e, &c)); return c; }
};
template <> struct UT<ccs_features_tuner_t> {
	typedef ccs_features_evaluation_t Ev;
	typedef ccs_configuration_t Cf;
	static UState *data(ccs_features_tuner_t t) { void *d = nullptr; OK(ccs_user_defined_features_tuner_get_tuner_data(t, &d)); return (UState *)d; }
	static ccs_result_t def(ccs_features_tuner_t t, Cf *c)
	{
		ccs_configuration_space_t cs = nullptr;
		OK(ccs_features_tuner_get_configuration_space(t, &cs));
		return ccs_configuration_space_get_default_configuration(cs, c);
	}
	static bool match(ccs_features_t f, ccs_object_t e)
	{
		if (!f)
			return true;
		ccs_features_t g = nullptr;
		OK(ccs_features_evaluation_get_features((Ev)e, &g));
		int r = 1;
		OK(ccs_features_cmp(f, g, &r));
		return r == 0;
	}
	static Cf conf(ccs_object_t e) { Cf c = nullptr; OK(ccs_features_evaluation_get_configuration((Ev)e, &c)); return c; }
};
template <> struct UT<ccs_tree_tuner_t> {
	typedef ccs_tree_evaluation_t Ev;
	typedef ccs_tree_configuration_t Cf;
	static UState *data(ccs_tree_tuner_t t) { void *d = nullptr; OK(ccs_user_defined_tree_tuner_get_tuner_data(t, &d)); return (UState *)d; }
	static ccs_result_t def(ccs_tree_tuner_t t, Cf *c)
	{
		ccs_tree_space_t ts = nullptr;
		OK(ccs_tree_tuner_get_tree_space(t, &ts));
		return ccs_create_tree_configuration(ts, 0, nullptr, c);
	}
	static bool match(ccs_features_t, ccs_object_t) { return true; }
	static Cf conf(ccs_object_t e) { Cf c = nullptr; OK(ccs_tree_evaluation_get_configuration((Ev)e, &c)); return c; }
};
// a callback given an object of another kind (a corrupted stream read with a
// vector meant for the original one) declines
static inline bool
is_kind(ccs_object_t o, ccs_object_type_t k)
{
	ccs_object_type_t t;
	return ccs_object_get_type(o, &t) == CCS_RESULT_SUCCESS && t == k;
}
static inline bool is_mine(ccs_tuner_t t) { return is_kind((ccs_object_t)t, CCS_OBJECT_TYPE_TUNER); }
static inline bool is_mine(ccs_features_tuner_t t) { return is_kind((ccs_object_t)t, CCS_OBJECT_TYPE_FEATURES_TUNER); }
static inline bool is_mine(ccs_tree_tuner_t t) { return is_kind((ccs_object_t)t, CCS_OBJECT_TYPE_TREE_TUNER); }
static inline bool is_mine(ccs_tree_space_t t) { return is_kind((ccs_object_t)t, CCS_OBJECT_TYPE_TREE_SPACE); }
#define MINE(t)                                                                                                          \
	if (!is_mine(t))                                                                                                 \
	return CCS_RESULT_ERROR_UNSUPPORTED_OPERATION
template <class T>
static ccs_result_t
u_del(T t)
{
	if (!is_mine(t))
		return CCS_RESULT_SUCCESS;
	UState *u = UT<T>::data(t);
	for (auto e : u->hist)
		OK(ccs_release_object(e));
	u->hist.clear();
	u->opt.clear();
	u->dels++;
	return CCS_RESULT_SUCCESS;
}
template <class T>
static ccs_result_t
u_tell(T t, size_t n, typename UT<T>::Ev *e)
{
	MINE(t);
	UState *u = UT<T>::data(t);
	for (size_t i = 0; i < n; i++) {
		OK(ccs_retain_object(e[i]));
		if (u->mode == 1) // all, the last one first
			u->opt.insert(u->opt.begin(), u->hist.size());
		else if (u->mode == 2 || u->hist.size() % 2 == 0)
			u->opt.push_back(u->hist.size());
		u->hist.push_back((ccs_object_t)e[i]);
	}
	return CCS_RESULT_SUCCESS;
}
template <class T>
static ccs_result_t
u_list(const std::vector<ccs_object_t> &l, size_t n, T *e, size_t *r)
{
	if (e) {
		if (n < l.size())
			return CCS_RESULT_ERROR_INVALID_VALUE;
		for (size_t i = 0; i < n; i++)
			e[i] = i < l.size() ? (T)l[i] : nullptr;
	}
	if (r)
		*r = l.size();
	return CCS_RESULT_SUCCESS;
}
template <class T>
static ccs_result_t
u_history(T t, ccs_features_t f, size_t n, typename UT<T>::Ev *e, size_t *r)
{
	MINE(t);
	std::vector<ccs_object_t> l;
	for (auto h : UT<T>::data(t)->hist)
		if (UT<T>::match(f, h))
			l.push_back(h);
	return u_list(l, n, e, r);
}
template <class T>
static ccs_result_t
u_optima(T t, ccs_features_t f, size_t n, typename UT<T>::Ev *e, size_t *r)
{
	MINE(t);
	std::vector<ccs_object_t> l;
	UState *u = UT<T>::data(t);
	for (auto o : u->opt)
		if (UT<T>::match(f, u->hist[o]))
			l.push_back(u->hist[o]);
	return u_list(l, n, e, r);
}
template <class T>
static ccs_result_t
u_ask(T t, ccs_features_t, size_t n, typename UT<T>::Cf *c, size_t *r)
{
	MINE(t);
	for (size_t i = 0; c && i < n; i++) {
		ccs_result_t rc = UT<T>::def(t, c + i);
		if (rc < 0) {
			for (size_t j = 0; j < i; j++) {
				ccs_release_object(c[j]);
				c[j] = nullptr;
			}
			return rc;
		}
	}
	if (r)
		*r = c ? n : 1;
	return CCS_RESULT_SUCCESS;
}
template <class T>
static ccs_result_t
u_suggest(T t, ccs_features_t f, typename UT<T>::Cf *c)
{
	MINE(t);
	UState *u = UT<T>::data(t);
	for (auto o : u->opt)
		if (UT<T>::match(f, u->hist[o])) {
			*c = UT<T>::conf(u->hist[o]);
			return ccs_retain_object(*c);
		}
	return UT<T>::def(t, c);
}
static inline ccs_result_t
blob_out(const std::string &b, size_t n, void *p, size_t *r)
{
	if (p) {
		if (n < b.size())
			return CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
		memcpy(p, b.data(), b.size());
	}
	if (r)
		*r = b.size();
	return CCS_RESULT_SUCCESS;
}
template <class T>
static ccs_result_t
u_ser(T t, size_t n, void *p, size_t *r)
{
	MINE(t);
	return blob_out(UT<T>::data(t)->blob, n, p, r);
}
template <class T>
static ccs_result_t
u_deser(T t, size_t nh, typename UT<T>::Ev *h, size_t no, typename UT<T>::Ev *o, size_t n, const void *p)
{
	MINE(t);
	UState *u = UT<T>::data(t);
	CHECK(u->hist.empty() && u->opt.empty(), "state restored into a tuner that has one already");
	CHECK(!nh || h, "no history given");
	CHECK(!no || o, "no optima given");
	for (size_t i = 0; i < nh; i++) {
		OK(ccs_retain_object(h[i]));
		u->hist.push_back((ccs_object_t)h[i]);
	}
	for (size_t i = 0; i < no; i++) {
		size_t k = 0;
		while (k < nh && h[k] != o[i])
			k++;
		if (k == nh)
			return CCS_RESULT_ERROR_INVALID_VALUE;
		u->opt.push_back(k);
	}
	CHECK(!n || p, "no state given");
	if (n || !u->lossy)
		u->blob = n ? std::string((const char *)p, n) : std::string();
	return CCS_RESULT_SUCCESS;
}
// callbacks without a features argument
template <class T> static ccs_result_t u_ask0(T t, size_t n, typename UT<T>::Cf *c, size_t *r) { return u_ask<T>(t, nullptr, n, c, r); }
template <class T> static ccs_result_t u_hist0(T t, size_t n, typename UT<T>::Ev *e, size_t *r) { return u_history<T>(t, nullptr, n, e, r); }
template <class T> static ccs_result_t u_opt0(T t, size_t n, typename UT<T>::Ev *e, size_t *r) { return u_optima<T>(t, nullptr, n, e, r); }
template <class T> static ccs_result_t u_sug0(T t, typename UT<T>::Cf *c) { return u_suggest<T>(t, nullptr, c); }

struct DState {
	std::string blob;
	int         dels = 0;
	static std::set<const void *> &
	all()
	{
		static std::set<const void *> a;
		return a;
	}
	DState() { all().insert(this); }
	DState(const DState &) = delete;
	~DState() { all().erase(this); }
};
static inline DState *
d_state(ccs_tree_space_t t)
{
	void *d = nullptr;
	OK(ccs_dynamic_tree_space_get_tree_space_data(t, &d));
	return (DState *)d;
}
static ccs_result_t
d_del(ccs_tree_space_t t)
{
	if (!is_mine(t))
		return CCS_RESULT_SUCCESS;
	d_state(t)->dels++;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
d_child(ccs_tree_space_t t, ccs_tree_t parent, size_t index, ccs_tree_t *out)
{
	MINE(t);
	size_t depth = 0;
	OK(ccs_tree_get_position(parent, 0, nullptr, &depth));
	const std::string &b = d_state(t)->blob;
	size_t arity = depth + 1 >= 3 ? 0 : (index + depth) % 3;
	ccs_result_t r = ccs_create_tree(arity, ccs_int((int64_t)index + (b.empty() ? 0 : b[b.size() / 2])), out);
	return r;
}
static ccs_result_t
d_ser(ccs_tree_space_t t, size_t n, void *p, size_t *r)
{
	MINE(t);
	return blob_out(d_state(t)->blob, n, p, r);
}
static ccs_result_t
d_deser(ccs_tree_space_t t, size_t n, const void *p)
{
	MINE(t);
	CHECK(!n || p, "no state given");
	d_state(t)->blob = n ? std::string((const char *)p, n) : std::string();
	return CCS_RESULT_SUCCESS;
}

struct Dep {
	ccs_object_t h      = nullptr;
	void        *vector = nullptr;
	DState      *ds     = nullptr;
	UState      *us     = nullptr;
};
struct Graph {
	K                kind = K_RNG;
	Dep              root;
	std::vector<Dep> deps;
	CSpace           cs;
	BCtx             oc;
	ccs_objective_space_t     os = nullptr;
	ccs_features_space_t      fs = nullptr;
	std::vector<Param>        fps;
	Dep                       ts;
	std::vector<ccs_object_t> refs; // objects a map refers to
	std::vector<ccs_parameter_t> params; // parameters of an expression
	size_t                    n_hist = 0;
	std::list<UState>         us;
	std::list<DState>         ds;
	ccs_user_defined_tuner_vector_t          tv = {};
	ccs_user_defined_features_tuner_vector_t fv = {};
	ccs_user_defined_tree_tuner_vector_t     ttv = {};
	ccs_dynamic_tree_space_vector_t          dv = {};
	// fresh user state for a copy of this object
	void *
	fresh(const Dep &d)
	{
		if (d.ds) {
			ds.emplace_back();
			if (!dv.deserialize_state)
				ds.back().blob = d.ds->blob;
			return &ds.back();
		}
		if (d.us) {
			us.emplace_back();
			us.back().lossy = d.us->lossy;
			us.back().mode  = d.us->mode;
			if (d.us->lossy)
				us.back().blob = d.us->blob;
			return &us.back();
		}
		return nullptr;
	}
};

// ---- generators ----
static const char *const rng_names[] = {"mt19937", "taus", "ranlxs0", "gfsr4", "cmrg", "rand48", "minstd"};
static inline ccs_rng_t
gen_rng(Src &s, Pool &pool, bool sampling = true)
{
	ccs_rng_t r = nullptr;
	if (s.chance(1, 3)) {
		const gsl_rng_type **tt = gsl_rng_types_setup();
		size_t               n  = 0;
		while (tt[n])
			n++;
		const gsl_rng_type *t = tt[s.draw(n)];
		if (s.coin())
			for (size_t i = 0; i < n; i++)
				if (!strcmp(tt[i]->name, rng_names[0]))
					t = tt[i];
		if (sampling) { // some of the generators of GSL get stuck in short cycles and never satisfy a rejection loop
			const char *want = rng_names[s.draw(sizeof rng_names / sizeof *rng_names)];
			for (size_t i = 0; i < n; i++)
				if (!strcmp(tt[i]->name, want))
					t = tt[i];
		}
		OK(ccs_create_rng_with_type(t, &r));
	} else
		OK(ccs_create_rng(&r));
	pool.add(r);
	if (s.chance(3, 4))
		OK(ccs_rng_set_seed(r, (unsigned long)s.draw(1 << 30)));
	size_t k = s.draw(5);
	for (size_t i = 0; i < k; i++) {
		unsigned long v;
		OK(ccs_rng_get(r, &v));
	}
	return r;
}
// values that look alike: zeros of both signs, not-a-numbers, the same number
// in two types
static inline std::vector<D>
twins(Src &s, bool numeric)
{
	std::vector<D> all = {D::F(0.0), D::F(-0.0), D::I(0), D::F(NAN), D::F(1.0), D::I(1), D::F(-NAN), D::F(INFINITY)};
	if (!numeric) {
		all.push_back(D::B(false));
		all.push_back(D::B(true));
		all.push_back(D::S(""));
		all.push_back(D::S("0"));
	}
	std::vector<D> v;
	size_t         n = s.size(1, 5);
	for (size_t i = 0; i < n && !all.empty(); i++) {
		size_t k = s.draw(all.size());
		v.push_back(all[k]);
		all.erase(all.begin() + (long)k);
	}
	return v;
}
static inline Param
gen_p(Src &s, Pool &pool, const std::string &name, bool str, bool odd)
{
	if (odd && s.chance(1, 6)) {
		Param p;
		p.name = name;
		p.kind = s.coin() ? Param::CAT : s.coin() ? Param::ORD : Param::DISC;
		p.vals = twins(s, p.kind == Param::DISC);
		p.def  = s.draw(p.vals.size());
		std::vector<ccs_datum_t> v = refs(p.vals);
		TmpStr                   nm(name);
		ccs_result_t             r;
		switch (p.kind) {
		case Param::CAT: r = ccs_create_categorical_parameter(nm, v.size(), v.data(), p.def, &p.h); break;
		case Param::ORD: r = ccs_create_ordinal_parameter(nm, v.size(), v.data(), p.def, &p.h); break;
		default: r = ccs_create_discrete_parameter(nm, v.size(), v.data(), p.def, &p.h);
		}
		if (r >= 0) {
			pool.add(p.h);
			s.label("values that compare equal");
			return p;
		}
		ccs_clear_thread_error();
	}
	ParamOpts po;
	po.str       = str;
	po.wide      = s.chance(1, 3);
	po.none_vals = s.chance(1, 4);
	return gen_param(s, pool, name, po);
}
static inline std::string
gen_name(Src &s, const char *def)
{
	return s.chance(1, 3) ? s.text(20) : s.chance(1, 8) ? std::string() : std::string(def);
}
static bool large_ok = false; // spaces of more than a hundred parameters
static inline void
gen_cs(Src &s, Pool &pool, Graph &g, bool small)
{
	CSOpts o;
	o.min_p    = small ? 1 : 0;
	o.max_p    = small ? 3 : 5;
	o.max_forb = small ? 1 : 2;
	o.dists    = true;
	o.po.wide  = s.chance(1, 4);
	g.cs       = gen_cspace(s, pool, o);
	if (large_ok && s.chance(1, 60)) { // indexes of more than one byte
		size_t        k = 120 + s.draw(20), was = g.cs.ps.size();
		for (size_t i = 0; i < k; i++) {
			Param p;
			p.kind = Param::INT;
			p.name = sfmt("q%zu", i);
			p.li = p.di = (int64_t)i;
			p.ui   = (int64_t)(i + 2 + i % 3);
			build_param(p, pool);
			OK(ccs_configuration_space_add_parameter(g.cs.h, p.h, nullptr));
			g.cs.ps.push_back(p);
			g.cs.cond.emplace_back();
			g.cs.cond_h.push_back(nullptr);
			g.cs.dist.emplace_back();
		}
		for (size_t j = 0; j < 4; j++) {
			size_t a = was + s.draw(k), b = was + k - 1 - s.draw(6);
			E      e = E::N(CCS_EXPRESSION_TYPE_EQUAL, {E::V((int)a), E::L(D::I(g.cs.ps[a].li))});
			if (a == b || g.cs.cond[b] || g.cs.would_cycle((int)b, e))
				continue;
			g.cs.cond[b]   = e;
			g.cs.cond_h[b] = build_expr(e, g.cs.ps, pool);
			OK(ccs_configuration_space_set_condition(g.cs.h, b, g.cs.cond_h[b]));
		}
		if (s.coin()) { // a joint distribution of some of the last
			size_t             m = 2 + s.draw(3), at[4];
			ccs_distribution_t d[4], j = nullptr;
			for (size_t i = 0; i < m; i++) {
				at[i] = was + k - 1 - (m - i) * 2 + s.draw(2);
				OK(ccs_parameter_get_default_distribution(g.cs.ps[at[i]].h, &d[i]));
				pool.add(d[i]);
			}
			OK(ccs_create_multivariate_distribution(m, d, &j));
			pool.add(j);
			OK(ccs_configuration_space_set_distribution(g.cs.h, j, at));
		}
		s.label("more than 127 parameters");
	}
	size_t n   = g.cs.ps.size();
	if (s.chance(1, 2)) {
		ccs_rng_t r = gen_rng(s, pool);
		OK(ccs_configuration_space_set_rng(g.cs.h, r));
	}
	if (n > 1 && s.chance(1, 3)) { // the same condition object on two parameters
		for (size_t i = 0; i < n; i++)
			for (size_t j = 0; j < n; j++)
				if (i != j && g.cs.cond[i] && !g.cs.cond[j] && !g.cs.would_cycle((int)j, *g.cs.cond[i])) {
					OK(ccs_configuration_space_set_condition(g.cs.h, j, g.cs.cond_h[i]));
					g.cs.cond[j] = g.cs.cond[i];
					if (g.cs.cond_h.size() > j)
						g.cs.cond_h[j] = g.cs.cond_h[i];
					s.label("condition shared by two parameters");
					i = j = n;
				}
	}
	if (n > 1 && s.chance(1, 4)) { // the same distribution object on two parameters
		size_t i = s.draw(n), j = s.draw(n);
		ccs_distribution_t d = nullptr;
		size_t             di = 0, dim = 0;
		OK(ccs_configuration_space_get_parameter_distribution(g.cs.h, i, &d, &di));
		OK(ccs_distribution_get_dimension(d, &dim));
		if (i != j && dim == 1) {
			if (ccs_configuration_space_set_distribution(g.cs.h, d, &j) >= 0)
				s.label("distribution shared by two parameters");
			else
				ccs_clear_thread_error();
		}
	}
}
static inline void
gen_fs(Src &s, Pool &pool, Graph &g, size_t lo, size_t hi)
{
	TmpStr nm(gen_name(s, "features"));
	OK(ccs_create_features_space(nm, &g.fs));
	pool.add(g.fs);
	size_t n = s.size(lo, hi);
	for (size_t i = 0; i < n; i++) {
		Param p = gen_p(s, pool, sfmt("f%zu", i), true, true);
		OK(ccs_features_space_add_parameter(g.fs, p.h));
		g.fps.push_back(p);
	}
}
static inline void
gen_os(Src &s, Pool &pool, Graph &g)
{
	TmpStr nm(gen_name(s, "objectives"));
	OK(ccs_create_objective_space(nm, &g.os));
	pool.add(g.os);
	g.oc.kind = B_EVAL;
	g.oc.h    = (ccs_context_t)g.os;
	size_t n  = s.size(0, 4);
	for (size_t i = 0; i < n; i++) {
		Param p = gen_p(s, pool, sfmt("o%zu", i), true, true);
		if (!g.cs.ps.empty() && s.chance(1, 8)) { // a parameter in two spaces
			const Param &q = g.cs.ps[s.draw(g.cs.ps.size())];
			bool         dup = false;
			for (auto &x : g.oc.ps)
				dup |= x.h == q.h || x.name == q.name;
			if (!dup) {
				p = q;
				s.label("parameter of two spaces");
			}
		}
		OK(ccs_objective_space_add_parameter(g.os, p.h));
		g.oc.ps.push_back(p);
	}
	size_t m = s.chance(1, 4) ? s.chance(1, 3) ? s.size(8, 20) : s.size(4, 7) : s.size(0, 3);
	for (size_t i = 0; i < m && n; i++) {
		Objective o;
		if (!g.oc.objs.empty() && s.chance(1, 4)) {
			o = g.oc.objs[s.draw(g.oc.objs.size())];
			s.label("expression shared by two objectives");
		} else {
			std::vector<int> all;
			for (size_t k = 0; k < n; k++)
				all.push_back((int)k);
			o.e = s.chance(1, 3) ? gen_any_expr(s, g.oc.ps, all, 2) : E::V((int)s.draw(n));
			o.h = build_expr(o.e, g.oc.ps, pool, &s);
		}
		o.t = s.coin() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
		OK(ccs_objective_space_add_objective(g.os, o.h, o.t));
		g.oc.objs.push_back(o);
	}
}
static inline void
gen_tree_values(Src &s, Pool &pool, ccs_tree_t *out, int depth)
{
	size_t arity = depth ? s.draw(4) : s.draw(2);
	D      v     = gen_scalar(s);
	if (v.t == CCS_DATA_TYPE_STRING && v.nul)
		v = D::S("x");
	TmpDatum td(v, CCS_DATUM_FLAG_TRANSIENT);
	OK(ccs_create_tree(arity, td.d, out));
	pool.add(*out);
	if (s.chance(1, 3))
		OK(ccs_tree_set_weight(*out, s.coin() ? (double)s.draw(4) : s.unit()));
	if (s.chance(1, 3))
		OK(ccs_tree_set_bias(*out, s.coin() ? (double)s.draw(4) : s.unit()));
	for (size_t i = 0; depth && i < arity; i++)
		if (s.chance(2, 3)) {
			ccs_tree_t c = nullptr;
			gen_tree_values(s, pool, &c, depth - 1);
			OK(ccs_tree_set_child(*out, i, c));
		}
}
static inline void
gen_ts(Src &s, Pool &pool, Graph &g, bool dynamic)
{
	ccs_tree_t t = nullptr;
	gen_tree_values(s, pool, &t, (int)s.draw(4));
	if (s.chance(1, 8)) // at the end of a long path
		for (size_t k = 6 + s.draw(10); k; k--) {
			ccs_tree_t up = nullptr;
			size_t     a  = s.chance(1, 6) ? 2 + s.draw(2) : 1;
			OK(ccs_create_tree(a, ccs_int((int64_t)k), &up));
			pool.add(up);
			OK(ccs_tree_set_weight(up, s.chance(1, 8) ? 0.25 : 0.0));
			OK(ccs_tree_set_child(up, s.draw(a), t));
			t = up;
		}
	TmpStr           nm(gen_name(s, "trees"));
	ccs_tree_space_t ts = nullptr;
	if (dynamic) {
		g.dv = {d_del, d_child, nullptr, nullptr};
		if (s.chance(2, 3)) {
			g.dv.serialize_user_state = d_ser;
			g.dv.deserialize_state    = d_deser;
		}
		g.ds.emplace_back();
		g.ds.back().blob = s.text(s.chance(1, 10) ? 300 : 12);
		g.ts.ds          = &g.ds.back();
		g.ts.vector      = &g.dv;
		OK(ccs_create_dynamic_tree_space(nm, t, &g.dv, g.ts.ds, &ts));
	} else
		OK(ccs_create_static_tree_space(nm, t, &ts));
	g.ts.h = (ccs_object_t)pool.add(ts);
	if (s.chance(2, 3)) {
		ccs_rng_t r = gen_rng(s, pool);
		OK(ccs_tree_space_set_rng(ts, r));
	}
}
static inline D
odd_value(Src &s)
{
	switch (s.draw(8)) {
	case 0: return D::none();
	case 1: return D::inactive();
	case 2: { D d = D::S(""); d.nul = true; return d; }
	case 3: return D::F(s.coin() ? NAN : -0.0);
	case 4: return D::I(s.i64());
	case 5: return D::F(s.f64());
	default: return gen_scalar(s);
	}
}
static inline void
gen_vals(Src &s, const std::vector<Param> &ps, std::vector<D> &v)
{
	for (auto &p : ps)
		v.push_back(s.chance(1, 8) ? p.gen_near(s) : p.gen_in(s));
}
// a value for parameter p that the binding accepts: otherwise unchanged
template <class T, class F>
static inline void
poke(Src &s, T b, size_t n, F set)
{
	if (!n || !s.chance(1, 4))
		return;
	D        v = odd_value(s);
	TmpDatum td(v, CCS_DATUM_FLAG_TRANSIENT);
	if (set(b, s.draw(n), td.d) >= 0)
		s.label("odd value in a binding");
	else
		ccs_clear_thread_error();
}
static inline ccs_configuration_t
gen_conf(Src &s, Pool &pool, Graph &g)
{
	ccs_configuration_t c = nullptr;
	ccs_result_t        r = s.coin() ? ccs_configuration_space_sample(g.cs.h, &c) :
					   ccs_configuration_space_get_default_configuration(g.cs.h, &c);
	if (r < 0) {
		ccs_clear_thread_error();
		std::vector<D> v;
		gen_vals(s, g.cs.ps, v);
		// a string nobody owns cannot come back: it would have to be stored in its parameter
		for (size_t i = 0; i < v.size(); i++)
			if (v[i].t == CCS_DATA_TYPE_STRING && !g.cs.ps[i].contains(v[i]))
				v[i] = D::none();
		std::vector<ccs_datum_t> a = stables(v);
		OK(ccs_create_configuration(g.cs.h, a.size(), a.empty() ? nullptr : a.data(), &c));
	}
	pool.add(c);
	poke(s, c, g.cs.ps.size(), ccs_configuration_set_value);
	return c;
}
static inline ccs_features_t
gen_feat(Src &s, Pool &pool, Graph &g)
{
	ccs_features_t           f = nullptr;
	std::vector<D>           v;
	for (auto &p : g.fps)
		v.push_back(p.gen_in(s));
	std::vector<TmpDatum>    t;
	std::vector<ccs_datum_t> a;
	for (auto &d : v) {
		t.emplace_back(d, CCS_DATUM_FLAG_TRANSIENT);
		a.push_back(t.back().d);
	}
	OK(ccs_create_features(g.fs, a.size(), a.empty() ? nullptr : a.data(), &f));
	pool.add(f);
	poke(s, f, g.fps.size(), ccs_features_set_value);
	return f;
}
static inline ccs_tree_configuration_t
gen_tconf(Src &s, Pool &pool, Graph &g)
{
	auto                     ts = (ccs_tree_space_t)g.ts.h;
	ccs_tree_configuration_t c  = nullptr;
	if (ccs_tree_space_sample(ts, &c) < 0) {
		ccs_clear_thread_error();
		OK(ccs_create_tree_configuration(ts, 0, nullptr, &c));
	}
	return pool.add(c);
}
static inline ccs_object_t
gen_eval(Src &s, Pool &pool, Graph &g, BK kind, ccs_object_t conf, ccs_features_t feat)
{
	std::vector<D> v;
	for (auto &p : g.oc.ps) {
		D d = p.gen_in(s);
		if (p.kind == Param::FLOAT || p.kind == Param::INT)
			if (s.chance(1, 3)) { // close to each other
				D e = p.kind == Param::INT ? D::I((int64_t)s.draw(3)) : D::F((double)s.draw(3) / 2);
				d   = p.contains(e) ? e : d;
			}
		v.push_back(d);
	}
	std::vector<ccs_datum_t> a = stables(v);
	ccs_evaluation_result_t  r = s.chance(1, 5) ? (ccs_evaluation_result_t)s.range(-40, 300) : CCS_RESULT_SUCCESS;
	size_t                   n = a.size();
	ccs_datum_t             *p = n ? a.data() : nullptr;
	ccs_object_t             e = nullptr;
	switch (kind) {
	case B_EVAL:
		OK(ccs_create_evaluation(g.os, (ccs_configuration_t)conf, r, n, p, (ccs_evaluation_t *)&e));
		poke(s, (ccs_evaluation_t)e, n, ccs_evaluation_set_value);
		break;
	case B_FEVAL:
		OK(ccs_create_features_evaluation(g.os, (ccs_configuration_t)conf, feat, r, n, p, (ccs_features_evaluation_t *)&e));
		poke(s, (ccs_features_evaluation_t)e, n, ccs_features_evaluation_set_value);
		break;
	default:
		OK(ccs_create_tree_evaluation(g.os, (ccs_tree_configuration_t)conf, r, n, p, (ccs_tree_evaluation_t *)&e));
		poke(s, (ccs_tree_evaluation_t)e, n, ccs_tree_evaluation_set_value);
	}
	return (ccs_object_t)pool.add(e);
}
static inline void
gen_tuner(Src &s, Pool &pool, Graph &g, K kind)
{
	bool user = kind >= K_UTUNER;
	BK   bk   = kind == K_TUNER || kind == K_UTUNER ? B_EVAL : kind == K_FTUNER || kind == K_UFTUNER ? B_FEVAL : B_TEVAL;
	if (bk == B_TEVAL)
		gen_ts(s, pool, g, !user && s.coin());
	else
		gen_cs(s, pool, g, true);
	gen_os(s, pool, g);
	if (bk == B_FEVAL)
		gen_fs(s, pool, g, 0, 2);
	TmpStr  nm(gen_name(s, "tuner"));
	UState *u = nullptr;
	bool    ser = s.coin(), deser = s.chance(2, 3), sug = s.coin();
	if (user) {
		g.us.emplace_back();
		u       = &g.us.back();
		u->blob = s.text(s.chance(1, 10) ? 300 : 12);
		u->lossy = !ser || !deser;
		u->mode  = (int)s.draw(3);
		g.root.us = u;
	}
	ccs_object_t t = nullptr;
	switch (kind) {
	case K_TUNER: OK(ccs_create_random_tuner(nm, g.cs.h, g.os, (ccs_tuner_t *)&t)); break;
	case K_FTUNER: OK(ccs_create_random_features_tuner(nm, g.cs.h, g.fs, g.os, (ccs_features_tuner_t *)&t)); break;
	case K_TTUNER:
		OK(ccs_create_random_tree_tuner(nm, (ccs_tree_space_t)g.ts.h, g.os, (ccs_tree_tuner_t *)&t));
		g.root.vector = g.ts.vector;
		g.root.ds     = g.ts.ds;
		break;
	case K_UTUNER: {
		typedef ccs_tuner_t T;
		g.tv = {u_del<T>, u_ask0<T>, u_tell<T>, u_opt0<T>, u_hist0<T>, sug ? u_sug0<T> : nullptr, ser ? u_ser<T> : nullptr, deser ? u_deser<T> : nullptr};
		OK(ccs_create_user_defined_tuner(nm, g.cs.h, g.os, &g.tv, u, (T *)&t));
		g.root.vector = &g.tv;
		break;
	}
	case K_UFTUNER: {
		typedef ccs_features_tuner_t T;
		g.fv = {u_del<T>, u_ask<T>, u_tell<T>, u_optima<T>, u_history<T>, sug ? u_suggest<T> : nullptr, ser ? u_ser<T> : nullptr, deser ? u_deser<T> : nullptr};
		OK(ccs_create_user_defined_features_tuner(nm, g.cs.h, g.fs, g.os, &g.fv, u, (T *)&t));
		g.root.vector = &g.fv;
		break;
	}
	default: {
		typedef ccs_tree_tuner_t T;
		g.ttv = {u_del<T>, u_ask0<T>, u_tell<T>, u_opt0<T>, u_hist0<T>, sug ? u_sug0<T> : nullptr, ser ? u_ser<T> : nullptr, deser ? u_deser<T> : nullptr};
		OK(ccs_create_user_defined_tree_tuner(nm, (ccs_tree_space_t)g.ts.h, g.os, &g.ttv, u, (T *)&t));
		g.root.vector = &g.ttv;
	}
	}
	pool.add(t);
	g.root.h = t;
	size_t                    n = s.draw(s.chance(1, 4) ? 8 : 4);
	std::vector<ccs_object_t> confs, evals;
	std::vector<ccs_features_t> feats;
	for (size_t i = 0; i < n; i++) {
		if (confs.empty() || s.chance(2, 3))
			confs.push_back(bk == B_TEVAL ? (ccs_object_t)gen_tconf(s, pool, g) : (ccs_object_t)gen_conf(s, pool, g));
		if (bk == B_FEVAL && (feats.empty() || s.coin()))
			feats.push_back(gen_feat(s, pool, g));
		ccs_object_t e;
		if (!evals.empty() && s.chance(1, 12)) {
			e = s.pick(evals);
			s.label("told twice");
		} else
			e = gen_eval(s, pool, g, bk, s.pick(confs), feats.empty() ? nullptr : s.pick(feats));
		evals.push_back(e);
		ccs_result_t r = bk == B_EVAL  ? ccs_tuner_tell((ccs_tuner_t)t, 1, (ccs_evaluation_t *)&e) :
				 bk == B_FEVAL ? ccs_features_tuner_tell((ccs_features_tuner_t)t, 1, (ccs_features_evaluation_t *)&e) :
						 ccs_tree_tuner_tell((ccs_tree_tuner_t)t, 1, (ccs_tree_evaluation_t *)&e);
		if (r < 0)
			ccs_clear_thread_error();
		else
			g.n_hist++;
	}
}
static inline void
gen_any(Src &s, Pool &pool, Graph &g, K kind)
{
	g.kind = kind;
	switch (kind) {
	case K_RNG: g.root.h = (ccs_object_t)gen_rng(s, pool, false); break;
	case K_DIST: {
		DistOpts o;
		Dist     d = gen_dist(s, 2, o);
		build_dist(d, pool);
		g.root.h = (ccs_object_t)d.h;
		break;
	}
	case K_PARAM: g.root.h = (ccs_object_t)gen_p(s, pool, gen_name(s, "param"), true, true).h; break;
	case K_EXPR: {
		std::vector<Param> ps;
		std::vector<int>   all;
		size_t             n = s.draw(4);
		for (size_t i = 0; i < n; i++) {
			ps.push_back(gen_p(s, pool, sfmt("p%zu", i), true, true));
			all.push_back((int)i);
		}
		E                e = gen_any_expr(s, ps, all, 3);
		ccs_expression_t h = build_expr(e, ps, pool, &s);
		if (s.chance(1, 6)) {
			ccs_datum_t n2[2] = {ccs_object((ccs_object_t)h), ccs_object((ccs_object_t)h)};
			OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, n2, &h));
			pool.add(h);
			s.label("node used twice");
		}
		if (s.chance(1, 10)) {
			ccs_datum_t n2[2] = {ccs_string(nullptr), ccs_object((ccs_object_t)h)};
			ccs_expression_t h2 = nullptr;
			if (ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, n2, &h2) >= 0) {
				h = pool.add(h2);
				s.label("null string literal");
			} else
				ccs_clear_thread_error();
		}
		g.root.h = (ccs_object_t)h;
		for (auto &p : ps) {
			Dep d;
			d.h = (ccs_object_t)p.h;
			g.deps.push_back(d);
		}
		break;
	}
	case K_FS:
		gen_fs(s, pool, g, 0, 5);
		g.root.h = (ccs_object_t)g.fs;
		break;
	case K_CS:
		gen_cs(s, pool, g, false);
		g.root.h = (ccs_object_t)g.cs.h;
		break;
	case K_OS:
		gen_os(s, pool, g);
		g.root.h = (ccs_object_t)g.os;
		break;
	case K_CONF:
		gen_cs(s, pool, g, false);
		g.root.h = (ccs_object_t)gen_conf(s, pool, g);
		g.deps.push_back({(ccs_object_t)g.cs.h});
		break;
	case K_FEAT:
		gen_fs(s, pool, g, 0, 4);
		g.root.h = (ccs_object_t)gen_feat(s, pool, g);
		g.deps.push_back({(ccs_object_t)g.fs});
		break;
	case K_EVAL:
	case K_FEVAL: {
		gen_cs(s, pool, g, true);
		gen_os(s, pool, g);
		ccs_features_t f = nullptr;
		if (kind == K_FEVAL) {
			gen_fs(s, pool, g, 0, 3);
			f = gen_feat(s, pool, g);
		}
		g.root.h = gen_eval(s, pool, g, kind == K_EVAL ? B_EVAL : B_FEVAL, (ccs_object_t)gen_conf(s, pool, g), f);
		g.deps.push_back({(ccs_object_t)g.cs.h});
		g.deps.push_back({(ccs_object_t)g.os});
		if (g.fs)
			g.deps.push_back({(ccs_object_t)g.fs});
		if (s.coin())
			std::swap(g.deps[0], g.deps[1]);
		break;
	}
	case K_TREE: {
		ccs_tree_t t = nullptr;
		gen_tree_values(s, pool, &t, (int)s.draw(5));
		g.root.h = (ccs_object_t)t;
		break;
	}
	case K_SSPACE:
	case K_DSPACE:
		gen_ts(s, pool, g, kind == K_DSPACE);
		if (kind == K_DSPACE && s.coin()) // some children get created
			gen_tconf(s, pool, g);
		g.root = g.ts;
		break;
	case K_TCONF:
		gen_ts(s, pool, g, s.coin());
		g.root.h = (ccs_object_t)gen_tconf(s, pool, g);
		g.deps.push_back(g.ts);
		break;
	case K_TEVAL:
		gen_ts(s, pool, g, s.coin());
		gen_os(s, pool, g);
		g.root.h = gen_eval(s, pool, g, B_TEVAL, (ccs_object_t)gen_tconf(s, pool, g), nullptr);
		g.deps.push_back(g.ts);
		g.deps.push_back({(ccs_object_t)g.os});
		break;
	case K_MAP: {
		ccs_map_t m = nullptr;
		OK(ccs_create_map(&m));
		g.root.h = (ccs_object_t)pool.add(m);
		size_t n = s.draw(s.chance(1, 4) ? 12 : 5);
		for (size_t i = 0; i < n; i++) {
			D k = s.chance(1, 3) ? odd_value(s) : gen_scalar(s), v = s.chance(1, 3) ? odd_value(s) : gen_scalar(s);
			for (D *d : {&k, &v})
				if (s.chance(1, 5)) {
					if (g.refs.empty() || s.coin())
						g.refs.push_back((ccs_object_t)gen_rng(s, pool));
					*d = D::O(s.pick(g.refs));
					s.label("objects in the map");
				}
			TmpDatum tk(k, CCS_DATUM_FLAG_TRANSIENT), tv(v, CCS_DATUM_FLAG_TRANSIENT);
			if (k.t == CCS_DATA_TYPE_OBJECT && s.coin())
				tk.d.flags |= CCS_DATUM_FLAG_ID;
			if (v.t == CCS_DATA_TYPE_OBJECT && s.coin())
				tv.d.flags |= CCS_DATUM_FLAG_ID;
			OK(ccs_map_set(m, tk.d, tv.d));
		}
		break;
	}
	default: gen_tuner(s, pool, g, kind);
	}
}

// ---- user data ----
static inline std::set<const void *> &
ud_registry()
{
	static std::set<const void *> r;
	return r;
}
static inline void *
ud_make(const std::string &t)
{
	static std::set<std::string> pool;
	const std::string           *p = &*pool.insert(t).first;
	ud_registry().insert(p);
	return (void *)p;
}
static inline ccs_result_t
ud_ser(ccs_object_t o, size_t n, void *p, size_t *r, void *u)
{
	if (u)
		++*(size_t *)u;
	void *d = nullptr;
	OK(ccs_object_get_user_data(o, &d));
	std::string b;
	if (ud_registry().count(d))
		b = *(const std::string *)d;
	return blob_out(b, n, p, r);
}
static inline ccs_result_t
ud_deser(ccs_object_t o, size_t n, const char *p, void *u)
{
	if (u)
		++*(size_t *)u;
	if (n)
		OK(ccs_object_set_user_data(o, ud_make(std::string(p, n))));
	return CCS_RESULT_SUCCESS;
}

// ---- canonical text ----
static inline bool &
dump_wild()
{
	static bool w;
	return w;
}
struct Dump {
	std::string                    out;
	std::vector<ccs_object_t>      ext;  // objects referred to by number
	std::map<ccs_object_t, size_t> seen; // spaces and evaluations met
	std::map<ccs_object_t, size_t> params; // of the enclosing space
	bool                           raw = false; // with handles and reference counts
	bool                           ud  = true;
	bool                           no_rng_state = false;
	bool                           no_growth    = false; // not what dynamic tree spaces add to trees
	int                            depth = 0;

	void
	p(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		va_list a;
		va_start(a, fmt);
		char b[1024];
		vsnprintf(b, sizeof b, fmt, a);
		va_end(a);
		out += b;
	}
	void
	nl()
	{
		out += '\n';
		out.append((size_t)depth * 2, ' ');
	}
	void
	text(const char *t)
	{
		if (!t) {
			out += "NULL";
			return;
		}
		out += '"';
		for (; *t; t++)
			if (*t > ' ' && *t < 127 && *t != '"' && *t != '\\')
				out += *t;
			else
				p("\\x%02x", (unsigned char)*t);
		out += '"';
	}
	void
	num(double f)
	{
		uint64_t b;
		memcpy(&b, &f, 8);
		p("%.17g/%016llx", f, (unsigned long long)b);
	}
	void
	datum(const ccs_datum_t &d)
	{
		switch (d.type) {
		case CCS_DATA_TYPE_NONE: out += "none"; break;
		case CCS_DATA_TYPE_INACTIVE: out += "inactive"; break;
		case CCS_DATA_TYPE_INT: p("%lld", (long long)d.value.i); break;
		case CCS_DATA_TYPE_BOOL: p("bool:%lld", (long long)d.value.i); break;
		case CCS_DATA_TYPE_FLOAT: num(d.value.f); break;
		case CCS_DATA_TYPE_STRING: text(d.value.s); break;
		case CCS_DATA_TYPE_OBJECT: {
			for (size_t i = 0; i < ext.size(); i++)
				if (ext[i] == d.value.o) {
					p("object X%zu", i);
					return;
				}
			if (raw)
				p("object %p flags %d", d.value.o, (int)d.flags);
			else
				p("object ?");
			break;
		}
		default: p("type %d?", (int)d.type);
		}
	}
	void
	numeric(ccs_numeric_type_t t, ccs_numeric_t v)
	{
		if (t == CCS_NUMERIC_TYPE_INT)
			p("%lld", (long long)v.i);
		else
			num(v.f);
	}
	void
	head(ccs_object_t o, const char *what)
	{
		out += what;
		if (raw) {
			int32_t rc = -1;
			OK(ccs_object_get_refcount(o, &rc));
			p("@%p#%d", (void *)o, rc);
		}
		if (ud) {
			void *u = nullptr;
			OK(ccs_object_get_user_data(o, &u));
			if (u && ud_registry().count(u)) {
				out += " ud=";
				text(((const std::string *)u)->c_str());
			} else if (u)
				out += " ud=?";
		}
		out += ' ';
	}
	// true when the object has been described already
	bool
	by_ref(ccs_object_t o, ccs_object_type_t want)
	{
		ccs_object_type_t is = (ccs_object_type_t)-1;
		OK(ccs_object_get_type(o, &is));
		CHECK(is == want, "an object of type %d stands where one of type %d should", (int)is, (int)want);
		for (size_t i = 0; i < ext.size(); i++)
			if (ext[i] == o) {
				p("X%zu", i);
				return true;
			}
		auto it = seen.find(o);
		if (it != seen.end()) {
			p("S%zu", it->second);
			return true;
		}
		size_t k = seen.size();
		seen[o]  = k;
		p("S%zu= ", k);
		return false;
	}
	void
	rng(ccs_rng_t r)
	{
		head((ccs_object_t)r, "rng");
		const gsl_rng_type *t = nullptr;
		gsl_rng            *g = nullptr;
		unsigned long       mn = 0, mx = 0;
		OK(ccs_rng_get_type(r, &t));
		OK(ccs_rng_get_gsl_rng(r, &g));
		OK(ccs_rng_min(r, &mn));
		OK(ccs_rng_max(r, &mx));
		p("%s %lu %lu", t->name, mn, mx);
		if (!no_rng_state)
			p(" %016llx", (unsigned long long)pbt::hstr(std::string((const char *)gsl_rng_state(g), gsl_rng_size(g))));
	}
	void
	interval(const ccs_interval_t &i)
	{
		p("%c", i.lower_included ? '[' : ']');
		numeric(i.type, i.lower);
		out += ',';
		numeric(i.type, i.upper);
		p("%c", i.upper_included ? ']' : '[');
	}
	void
	dist(ccs_distribution_t d)
	{
		head((ccs_object_t)d, "dist");
		ccs_distribution_type_t t;
		size_t                  dim = 0;
		OK(ccs_distribution_get_type(d, &t));
		OK(ccs_distribution_get_dimension(d, &dim));
		std::vector<ccs_numeric_type_t> ty(dim);
		std::vector<ccs_interval_t>     iv(dim);
		OK(ccs_distribution_get_data_types(d, ty.data()));
		OK(ccs_distribution_get_bounds(d, iv.data()));
		p("%d dim %zu:", (int)t, dim);
		for (size_t i = 0; i < dim; i++) {
			p(" %d", (int)ty[i]);
			interval(iv[i]);
		}
		out += ' ';
		ccs_scale_type_t sc;
		switch (t) {
		case CCS_DISTRIBUTION_TYPE_UNIFORM: {
			ccs_numeric_t l, u, q;
			OK(ccs_uniform_distribution_get_properties(d, &l, &u, &sc, &q));
			p("scale %d ", (int)sc);
			numeric(ty[0], l);
			out += ' ';
			numeric(ty[0], u);
			out += ' ';
			numeric(ty[0], q);
			break;
		}
		case CCS_DISTRIBUTION_TYPE_NORMAL: {
			double        mu, sg;
			ccs_numeric_t q;
			OK(ccs_normal_distribution_get_properties(d, &mu, &sg, &sc, &q));
			p("scale %d ", (int)sc);
			// an integer distribution with next to no mass inside the integers takes for ever to sample
			double lim = sc == CCS_SCALE_TYPE_LOGARITHMIC ? 30 : 1e15;
			if (!(fabs(mu) < lim && sg < lim && sg > 0.01))
				dump_wild() = true;
			num(mu);
			out += ' ';
			num(sg);
			out += ' ';
			numeric(ty[0], q);
			break;
		}
		case CCS_DISTRIBUTION_TYPE_ROULETTE: {
			size_t n = 0;
			OK(ccs_roulette_distribution_get_num_areas(d, &n));
			std::vector<double> a(n);
			OK(ccs_roulette_distribution_get_areas(d, n, a.data(), nullptr));
			for (double x : a) {
				p("~%a", x); // kept as sums: equal up to rounding
				out += ' ';
			}
			break;
		}
		case CCS_DISTRIBUTION_TYPE_MIXTURE: {
			size_t n = 0;
			OK(ccs_mixture_distribution_get_num_distributions(d, &n));
			std::vector<double>             w(n);
			std::vector<ccs_distribution_t> s(n);
			OK(ccs_mixture_distribution_get_weights(d, n, w.data(), nullptr));
			OK(ccs_mixture_distribution_get_distributions(d, n, s.data(), nullptr));
			for (size_t i = 0; i < n; i++) {
				out += '(';
				p("~%a", w[i]);
				out += ' ';
				dist(s[i]);
				out += ')';
			}
			break;
		}
		default: {
			size_t n = 0;
			OK(ccs_multivariate_distribution_get_num_distributions(d, &n));
			std::vector<ccs_distribution_t> s(n);
			OK(ccs_multivariate_distribution_get_distributions(d, n, s.data(), nullptr));
			for (size_t i = 0; i < n; i++) {
				out += '(';
				dist(s[i]);
				out += ')';
			}
		}
		}
	}
	void
	param(ccs_parameter_t h)
	{
		head((ccs_object_t)h, "param");
		ccs_parameter_type_t t;
		const char          *nm = nullptr;
		ccs_datum_t          df;
		OK(ccs_parameter_get_type(h, &t));
		OK(ccs_parameter_get_name(h, &nm));
		OK(ccs_parameter_get_default_value(h, &df));
		p("%d ", (int)t);
		text(nm);
		out += " default ";
		datum(df);
		out += ' ';
		std::vector<ccs_datum_t> v;
		size_t                   n = 0;
		switch (t) {
		case CCS_PARAMETER_TYPE_NUMERICAL: {
			ccs_numeric_type_t nt;
			ccs_numeric_t      l, u, q;
			OK(ccs_numerical_parameter_get_properties(h, &nt, &l, &u, &q));
			p("%d ", (int)nt);
			numeric(nt, l);
			out += ' ';
			numeric(nt, u);
			out += ' ';
			numeric(nt, q);
			break;
		}
		case CCS_PARAMETER_TYPE_CATEGORICAL:
			OK(ccs_categorical_parameter_get_values(h, 0, nullptr, &n));
			v.resize(n);
			OK(ccs_categorical_parameter_get_values(h, n, v.data(), nullptr));
			break;
		case CCS_PARAMETER_TYPE_ORDINAL:
			OK(ccs_ordinal_parameter_get_values(h, 0, nullptr, &n));
			v.resize(n);
			OK(ccs_ordinal_parameter_get_values(h, n, v.data(), nullptr));
			break;
		case CCS_PARAMETER_TYPE_DISCRETE:
			OK(ccs_discrete_parameter_get_values(h, 0, nullptr, &n));
			v.resize(n);
			OK(ccs_discrete_parameter_get_values(h, n, v.data(), nullptr));
			break;
		default: return;
		}
		for (auto &d : v) {
			out += ' ';
			datum(d);
		}
		ccs_distribution_t dd = nullptr;
		OK(ccs_parameter_get_default_distribution(h, &dd));
		out += ' ';
		bool r = raw;
		raw    = false; // made for this call
		try {
			dist(dd);
			raw = r;
		} catch (...) {
			raw = r;
			ccs_release_object(dd);
			throw;
		}
		OK(ccs_release_object(dd));
	}
	void
	pref(ccs_parameter_t h)
	{
		auto it = params.find((ccs_object_t)h);
		if (it != params.end())
			p("P%zu", it->second);
		else if (!by_ref((ccs_object_t)h, CCS_OBJECT_TYPE_PARAMETER))
			param(h);
	}
	void
	expr(ccs_expression_t e)
	{
		head((ccs_object_t)e, "expr");
		ccs_expression_type_t t;
		size_t                n = 0;
		OK(ccs_expression_get_type(e, &t));
		OK(ccs_expression_get_num_nodes(e, &n));
		p("%d", (int)t);
		if (t == CCS_EXPRESSION_TYPE_LITERAL) {
			ccs_datum_t d;
			OK(ccs_literal_get_value(e, &d));
			out += '=';
			datum(d);
		} else if (t == CCS_EXPRESSION_TYPE_VARIABLE) {
			ccs_parameter_t h = nullptr;
			OK(ccs_variable_get_parameter(e, &h));
			out += '=';
			pref(h);
		} else {
			std::vector<ccs_expression_t> k(n);
			if (n)
				OK(ccs_expression_get_nodes(e, n, k.data(), nullptr));
			out += '(';
			for (auto x : k) {
				expr(x);
				out += ", ";
			}
			out += ')';
		}
	}
	void
	context(ccs_context_t c)
	{
		const char *nm = nullptr;
		size_t      n  = 0;
		OK(ccs_context_get_name(c, &nm));
		OK(ccs_context_get_num_parameters(c, &n));
		text(nm);
		std::vector<ccs_parameter_t> ps(n);
		if (n)
			OK(ccs_context_get_parameters(c, n, ps.data(), nullptr));
		params.clear();
		for (size_t i = 0; i < n; i++) {
			nl();
			p("P%zu ", i);
			param(ps[i]);
			CHECK(params.emplace((ccs_object_t)ps[i], i).second, "a parameter is twice in a space");
			size_t          k = 77;
			ccs_parameter_t q = nullptr;
			OK(ccs_context_get_parameter_index(c, ps[i], &k));
			CHECK(k == i, "parameter %zu has index %zu", i, k);
			const char *pn = nullptr;
			OK(ccs_parameter_get_name(ps[i], &pn));
			OK(ccs_context_get_parameter_by_name(c, pn, &q));
			CHECK(q == ps[i], "parameter %zu is not found by its name", i);
		}
	}
	void
	fspace(ccs_features_space_t f)
	{
		if (by_ref((ccs_object_t)f, CCS_OBJECT_TYPE_FEATURES_SPACE))
			return;
		auto save = params;
		depth++;
		head((ccs_object_t)f, "fspace");
		context((ccs_context_t)f);
		depth--;
		params = save;
	}
	void
	cspace(ccs_configuration_space_t c)
	{
		if (by_ref((ccs_object_t)c, CCS_OBJECT_TYPE_CONFIGURATION_SPACE))
			return;
		auto save = params;
		depth++;
		head((ccs_object_t)c, "cspace");
		context((ccs_context_t)c);
		size_t n = params.size();
		ccs_rng_t r = nullptr;
		OK(ccs_configuration_space_get_rng(c, &r));
		nl();
		rng(r);
		std::map<ccs_object_t, size_t> joint;
		for (size_t i = 0; i < n; i++) {
			ccs_distribution_t d  = nullptr;
			size_t             di = 77, dim = 0;
			ccs_expression_t   e  = nullptr;
			OK(ccs_configuration_space_get_parameter_distribution(c, i, &d, &di));
			nl();
			p("P%zu component %zu of ", i, di);
			OK(ccs_distribution_get_dimension(d, &dim));
			// components of one joint distribution belong together
			if (dim > 1) {
				auto it = joint.find((ccs_object_t)d);
				if (it == joint.end())
					it = joint.emplace((ccs_object_t)d, joint.size()).first;
				p("J%zu ", it->second);
			}
			dist(d);
			OK(ccs_configuration_space_get_condition(c, i, &e));
			if (e) {
				out += " if ";
				expr(e);
			}
		}
		size_t nf = 0;
		OK(ccs_configuration_space_get_forbidden_clauses(c, 0, nullptr, &nf));
		for (size_t i = 0; i < nf; i++) {
			ccs_expression_t e = nullptr;
			OK(ccs_configuration_space_get_forbidden_clause(c, i, &e));
			nl();
			out += "forbidden ";
			expr(e);
		}
		depth--;
		params = save;
	}
	void
	ospace(ccs_objective_space_t o)
	{
		if (by_ref((ccs_object_t)o, CCS_OBJECT_TYPE_OBJECTIVE_SPACE))
			return;
		auto save = params;
		depth++;
		head((ccs_object_t)o, "ospace");
		context((ccs_context_t)o);
		size_t n = 0;
		OK(ccs_objective_space_get_objectives(o, 0, nullptr, nullptr, &n));
		for (size_t i = 0; i < n; i++) {
			ccs_expression_t     e = nullptr;
			ccs_objective_type_t t;
			OK(ccs_objective_space_get_objective(o, i, &e, &t));
			nl();
			p("objective %d ", (int)t);
			expr(e);
		}
		depth--;
		params = save;
	}
	template <class T>
	void
	values(T b, ccs_result_t (*get)(T, size_t, ccs_datum_t *, size_t *))
	{
		size_t n = 0;
		OK(get(b, 0, nullptr, &n));
		std::vector<ccs_datum_t> v(n);
		if (n) {
			ccs_result_t r = get(b, n, v.data(), nullptr);
			if (r < 0) { // a position that ends on an empty slot
				ccs_clear_thread_error();
				p("[fails %d]", (int)r);
				return;
			}
		}
		out += '[';
		for (auto &d : v) {
			datum(d);
			out += ' ';
		}
		out += ']';
	}
	void
	verdict(ccs_result_t r, ccs_bool_t ok)
	{
		if (r < 0) {
			ccs_clear_thread_error();
			p(" check fails %d", (int)r);
		} else
			p(" valid %d", (int)ok);
	}
	void
	conf(ccs_configuration_t c)
	{
		head((ccs_object_t)c, "conf");
		ccs_configuration_space_t cs = nullptr;
		OK(ccs_configuration_get_configuration_space(c, &cs));
		cspace(cs);
		values(c, ccs_configuration_get_values);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t r  = ccs_configuration_check(c, &ok);
		verdict(r, ok);
	}
	void
	feat(ccs_features_t f)
	{
		head((ccs_object_t)f, "feat");
		ccs_features_space_t fs = nullptr;
		OK(ccs_features_get_features_space(f, &fs));
		fspace(fs);
		values(f, ccs_features_get_values);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t r  = ccs_features_check(f, &ok);
		verdict(r, ok);
	}
	template <class T>
	void
	objectives(T e, ccs_result_t (*get)(T, size_t, ccs_datum_t *), ccs_objective_space_t os)
	{
		size_t n = 0;
		OK(ccs_objective_space_get_objectives(os, 0, nullptr, nullptr, &n));
		for (size_t i = 0; i < n; i++) {
			ccs_datum_t  d;
			ccs_result_t r = get(e, i, &d);
			out += " objective ";
			if (r < 0) {
				ccs_clear_thread_error();
				p("fails %d", (int)r);
			} else
				datum(d);
		}
	}
	void
	eval(ccs_evaluation_t e)
	{
		if (by_ref((ccs_object_t)e, CCS_OBJECT_TYPE_EVALUATION))
			return;
		head((ccs_object_t)e, "eval");
		ccs_objective_space_t   os = nullptr;
		ccs_configuration_t     c  = nullptr;
		ccs_evaluation_result_t r  = 77;
		OK(ccs_evaluation_get_objective_space(e, &os));
		ospace(os);
		OK(ccs_evaluation_get_configuration(e, &c));
		conf(c);
		OK(ccs_evaluation_get_result(e, &r));
		p(" result %d ", (int)r);
		values(e, ccs_evaluation_get_values);
		objectives(e, ccs_evaluation_get_objective_value, os);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t rc = ccs_evaluation_check(e, &ok);
		verdict(rc, ok);
	}
	void
	feval(ccs_features_evaluation_t e)
	{
		if (by_ref((ccs_object_t)e, CCS_OBJECT_TYPE_FEATURES_EVALUATION))
			return;
		head((ccs_object_t)e, "feval");
		ccs_objective_space_t   os = nullptr;
		ccs_configuration_t     c  = nullptr;
		ccs_features_t          f  = nullptr;
		ccs_evaluation_result_t r  = 77;
		OK(ccs_features_evaluation_get_objective_space(e, &os));
		ospace(os);
		OK(ccs_features_evaluation_get_configuration(e, &c));
		conf(c);
		OK(ccs_features_evaluation_get_features(e, &f));
		feat(f);
		OK(ccs_features_evaluation_get_result(e, &r));
		p(" result %d ", (int)r);
		values(e, ccs_features_evaluation_get_values);
		objectives(e, ccs_features_evaluation_get_objective_value, os);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t rc = ccs_features_evaluation_check(e, &ok);
		verdict(rc, ok);
	}
	void
	tree(ccs_tree_t t)
	{
		head((ccs_object_t)t, "tree");
		size_t      a = 0;
		ccs_datum_t v;
		double      w = 0, b = 0;
		OK(ccs_tree_get_arity(t, &a));
		OK(ccs_tree_get_value(t, &v));
		OK(ccs_tree_get_weight(t, &w));
		OK(ccs_tree_get_bias(t, &b));
		p("%zu ", a);
		datum(v);
		if (no_growth)
			return;
		out += " w ";
		num(w);
		out += " b ";
		num(b);
		std::vector<ccs_tree_t> k(a);
		if (a)
			OK(ccs_tree_get_children(t, a, k.data(), nullptr));
		depth++;
		for (size_t i = 0; i < a; i++) {
			nl();
			if (!k[i])
				out += '-';
			else {
				ccs_tree_t pa = nullptr;
				size_t     ix = 77;
				OK(ccs_tree_get_parent(k[i], &pa, &ix));
				CHECK(pa == t && ix == i, "parent of a child");
				tree(k[i]);
			}
		}
		depth--;
	}
	void
	tspace(ccs_tree_space_t ts)
	{
		if (by_ref((ccs_object_t)ts, CCS_OBJECT_TYPE_TREE_SPACE))
			return;
		depth++;
		head((ccs_object_t)ts, "tspace");
		ccs_tree_space_type_t t;
		const char           *nm = nullptr;
		ccs_rng_t             r  = nullptr;
		ccs_tree_t            tr = nullptr;
		OK(ccs_tree_space_get_type(ts, &t));
		OK(ccs_tree_space_get_name(ts, &nm));
		OK(ccs_tree_space_get_rng(ts, &r));
		OK(ccs_tree_space_get_tree(ts, &tr));
		p("%d ", (int)t);
		text(nm);
		out += ' ';
		if (t == CCS_TREE_SPACE_TYPE_DYNAMIC) {
			void *d = nullptr;
			OK(ccs_dynamic_tree_space_get_tree_space_data(ts, &d));
			if (d && DState::all().count(d))
				text(((DState *)d)->blob.c_str());
		}
		nl();
		rng(r);
		nl();
		tree(tr);
		depth--;
	}
	void
	tconf(ccs_tree_configuration_t c)
	{
		head((ccs_object_t)c, "tconf");
		ccs_tree_space_t ts = nullptr;
		OK(ccs_tree_configuration_get_tree_space(c, &ts));
		tspace(ts);
		size_t n = 0;
		OK(ccs_tree_configuration_get_position(c, 0, nullptr, &n));
		std::vector<size_t> q(n + 1);
		OK(ccs_tree_configuration_get_position(c, n + 1, q.data(), nullptr));
		out += " at ";
		for (size_t i = 0; i < n; i++)
			p("%zu.", q[i]);
		values(c, ccs_tree_configuration_get_values);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t r  = ccs_tree_configuration_check(c, &ok);
		verdict(r, ok);
	}
	void
	teval(ccs_tree_evaluation_t e)
	{
		if (by_ref((ccs_object_t)e, CCS_OBJECT_TYPE_TREE_EVALUATION))
			return;
		head((ccs_object_t)e, "teval");
		ccs_objective_space_t    os = nullptr;
		ccs_tree_configuration_t c  = nullptr;
		ccs_evaluation_result_t  r  = 77;
		OK(ccs_tree_evaluation_get_objective_space(e, &os));
		ospace(os);
		OK(ccs_tree_evaluation_get_configuration(e, &c));
		tconf(c);
		OK(ccs_tree_evaluation_get_result(e, &r));
		p(" result %d ", (int)r);
		values(e, ccs_tree_evaluation_get_values);
		objectives(e, ccs_tree_evaluation_get_objective_value, os);
		ccs_bool_t   ok = (ccs_bool_t)77;
		ccs_result_t rc = ccs_tree_evaluation_check(e, &ok);
		verdict(rc, ok);
	}
	template <class E_, class F>
	void
	list(const char *what, F get, void (Dump::*one)(E_))
	{
		size_t n = 0;
		OK(get(0, nullptr, &n));
		std::vector<E_> v(n);
		if (n)
			OK(get(n, v.data(), nullptr));
		for (auto e : v) {
			nl();
			p("%s ", what);
			(this->*one)(e);
		}
	}
	void
	ustate(void *d)
	{
		if (d)
			text(((UState *)d)->blob.c_str());
	}
	void
	tuner(ccs_tuner_t t)
	{
		head((ccs_object_t)t, "tuner");
		ccs_tuner_type_t          ty;
		const char               *nm = nullptr;
		ccs_configuration_space_t cs = nullptr;
		ccs_objective_space_t     os = nullptr;
		OK(ccs_tuner_get_type(t, &ty));
		OK(ccs_tuner_get_name(t, &nm));
		OK(ccs_tuner_get_configuration_space(t, &cs));
		OK(ccs_tuner_get_objective_space(t, &os));
		p("%d ", (int)ty);
		text(nm);
		cspace(cs);
		ospace(os);
		list<ccs_evaluation_t>("history", [&](size_t n, ccs_evaluation_t *e, size_t *r) { return ccs_tuner_get_history(t, n, e, r); }, &Dump::eval);
		list<ccs_evaluation_t>("optimum", [&](size_t n, ccs_evaluation_t *e, size_t *r) { return ccs_tuner_get_optima(t, n, e, r); }, &Dump::eval);
		if (ty == CCS_TUNER_TYPE_USER_DEFINED) {
			void *d = nullptr;
			OK(ccs_user_defined_tuner_get_tuner_data(t, &d));
			ustate(d);
		}
	}
	void
	ftuner(ccs_features_tuner_t t)
	{
		head((ccs_object_t)t, "ftuner");
		ccs_features_tuner_type_t ty;
		const char               *nm = nullptr;
		ccs_configuration_space_t cs = nullptr;
		ccs_features_space_t      fs = nullptr;
		ccs_objective_space_t     os = nullptr;
		OK(ccs_features_tuner_get_type(t, &ty));
		OK(ccs_features_tuner_get_name(t, &nm));
		OK(ccs_features_tuner_get_configuration_space(t, &cs));
		OK(ccs_features_tuner_get_features_space(t, &fs));
		OK(ccs_features_tuner_get_objective_space(t, &os));
		p("%d ", (int)ty);
		text(nm);
		cspace(cs);
		fspace(fs);
		ospace(os);
		list<ccs_features_evaluation_t>("history", [&](size_t n, ccs_features_evaluation_t *e, size_t *r) { return ccs_features_tuner_get_history(t, nullptr, n, e, r); }, &Dump::feval);
		list<ccs_features_evaluation_t>("optimum", [&](size_t n, ccs_features_evaluation_t *e, size_t *r) { return ccs_features_tuner_get_optima(t, nullptr, n, e, r); }, &Dump::feval);
		if (ty == CCS_FEATURES_TUNER_TYPE_USER_DEFINED) {
			void *d = nullptr;
			OK(ccs_user_defined_features_tuner_get_tuner_data(t, &d));
			ustate(d);
		}
	}
	void
	ttuner(ccs_tree_tuner_t t)
	{
		head((ccs_object_t)t, "ttuner");
		ccs_tree_tuner_type_t ty;
		const char           *nm = nullptr;
		ccs_tree_space_t      ts = nullptr;
		ccs_objective_space_t os = nullptr;
		OK(ccs_tree_tuner_get_type(t, &ty));
		OK(ccs_tree_tuner_get_name(t, &nm));
		OK(ccs_tree_tuner_get_tree_space(t, &ts));
		OK(ccs_tree_tuner_get_objective_space(t, &os));
		p("%d ", (int)ty);
		text(nm);
		tspace(ts);
		ospace(os);
		list<ccs_tree_evaluation_t>("history", [&](size_t n, ccs_tree_evaluation_t *e, size_t *r) { return ccs_tree_tuner_get_history(t, n, e, r); }, &Dump::teval);
		list<ccs_tree_evaluation_t>("optimum", [&](size_t n, ccs_tree_evaluation_t *e, size_t *r) { return ccs_tree_tuner_get_optima(t, n, e, r); }, &Dump::teval);
		if (ty == CCS_TREE_TUNER_TYPE_USER_DEFINED) {
			void *d = nullptr;
			OK(ccs_user_defined_tree_tuner_get_tuner_data(t, &d));
			ustate(d);
		}
	}
	void
	map_(ccs_map_t m)
	{
		head((ccs_object_t)m, "map");
		size_t n = 0;
		OK(ccs_map_get_pairs(m, 0, nullptr, nullptr, &n));
		std::vector<ccs_datum_t> k(n), v(n);
		if (n)
			OK(ccs_map_get_pairs(m, n, k.data(), v.data(), nullptr));
		std::vector<std::string> lines;
		std::string              save = out;
		for (size_t i = 0; i < n; i++) {
			out.clear();
			datum(k[i]);
			out += " -> ";
			datum(v[i]);
			lines.push_back(out);
		}
		out = save;
		std::sort(lines.begin(), lines.end());
		for (auto &l : lines) {
			nl();
			out += l;
		}
	}
	void
	any(ccs_object_t o)
	{
		ccs_object_type_t t;
		OK(ccs_object_get_type(o, &t));
		switch (t) {
		case CCS_OBJECT_TYPE_RNG: rng((ccs_rng_t)o); break;
		case CCS_OBJECT_TYPE_DISTRIBUTION: dist((ccs_distribution_t)o); break;
		case CCS_OBJECT_TYPE_PARAMETER: param((ccs_parameter_t)o); break;
		case CCS_OBJECT_TYPE_EXPRESSION: expr((ccs_expression_t)o); break;
		case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: cspace((ccs_configuration_space_t)o); break;
		case CCS_OBJECT_TYPE_CONFIGURATION: conf((ccs_configuration_t)o); break;
		case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: ospace((ccs_objective_space_t)o); break;
		case CCS_OBJECT_TYPE_EVALUATION: eval((ccs_evaluation_t)o); break;
		case CCS_OBJECT_TYPE_TUNER: tuner((ccs_tuner_t)o); break;
		case CCS_OBJECT_TYPE_FEATURES_SPACE: fspace((ccs_features_space_t)o); break;
		case CCS_OBJECT_TYPE_FEATURES: feat((ccs_features_t)o); break;
		case CCS_OBJECT_TYPE_FEATURES_EVALUATION: feval((ccs_features_evaluation_t)o); break;
		case CCS_OBJECT_TYPE_FEATURES_TUNER: ftuner((ccs_features_tuner_t)o); break;
		case CCS_OBJECT_TYPE_MAP: map_((ccs_map_t)o); break;
		case CCS_OBJECT_TYPE_TREE: tree((ccs_tree_t)o); break;
		case CCS_OBJECT_TYPE_TREE_SPACE: tspace((ccs_tree_space_t)o); break;
		case CCS_OBJECT_TYPE_TREE_CONFIGURATION: tconf((ccs_tree_configuration_t)o); break;
		case CCS_OBJECT_TYPE_TREE_EVALUATION: teval((ccs_tree_evaluation_t)o); break;
		case CCS_OBJECT_TYPE_TREE_TUNER: ttuner((ccs_tree_tuner_t)o); break;
		default: fail("object type %d", (int)t);
		}
	}
};
static inline std::string
dump(ccs_object_t o, const std::vector<ccs_object_t> &ext = {}, bool ud = true, bool raw = false)
{
	ccs_object_type_t t = CCS_OBJECT_TYPE_RNG;
	ccs_object_get_type(o, &t);
	// looking at positions of a dynamic tree space grows its tree: look first
	bool tree = t == CCS_OBJECT_TYPE_TREE_SPACE || t == CCS_OBJECT_TYPE_TREE_CONFIGURATION ||
		    t == CCS_OBJECT_TYPE_TREE_EVALUATION || t == CCS_OBJECT_TYPE_TREE_TUNER;
	std::string out;
	for (int i = tree ? 0 : 1; i < 2; i++) {
		Dump d;
		d.ext = ext;
		d.ud  = ud;
		d.raw = raw;
		d.any(o);
		out = d.out;
	}
	return out;
}
// equal, numbers marked with ~ up to rounding
static inline bool
same(const std::string &a, const std::string &b)
{
	if (a == b)
		return true;
	size_t i = 0, j = 0;
	while (i < a.size() && j < b.size()) {
		if (a[i] != b[j])
			return false;
		if (a[i] != '~') {
			i++, j++;
			continue;
		}
		char  *ea, *eb;
		double x = strtod(a.c_str() + i + 1, &ea), y = strtod(b.c_str() + j + 1, &eb);
		if (ea == a.c_str() + i + 1 || eb == b.c_str() + j + 1) {
			i++, j++; // a ~ in a name
			continue;
		}
		if (!(fabs(x - y) < 1e-9))
			return false;
		i = ea - a.c_str();
		j = eb - b.c_str();
	}
	return i == a.size() && j == b.size();
}
// first line that differs
static inline std::string
diff(const std::string &a, const std::string &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i])
		i++;
	size_t s = i > 60 ? i - 60 : 0;
	return sfmt("...%s\n   versus ...%s", a.substr(s, 160).c_str(), b.substr(s, 160).c_str());
}
// what an object does next, as text: samples, suggestions, evaluations
static inline std::string
behave(ccs_object_t o, uint64_t seed)
{
	Dump              d;
	Pool              pool;
	ccs_object_type_t t;
	OK(ccs_object_get_type(o, &t));
	auto failed = [&](ccs_result_t r) {
		if (r < 0) {
			ccs_clear_thread_error();
			d.p(" fails %d", (int)r);
			return true;
		}
		return false;
	};
	switch (t) {
	case CCS_OBJECT_TYPE_RNG:
		for (int i = 0; i < 5; i++) {
			unsigned long v = 0;
			double        f = 0;
			OK(ccs_rng_get((ccs_rng_t)o, &v));
			OK(ccs_rng_uniform((ccs_rng_t)o, &f));
			d.p("%lu %a\n", v, f);
		}
		break;
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		ccs_rng_t r   = make_rng(pool, seed);
		size_t    dim = 0;
		OK(ccs_distribution_get_dimension((ccs_distribution_t)o, &dim));
		std::vector<ccs_numeric_t> v(dim * 4);
		if (!failed(ccs_distribution_samples((ccs_distribution_t)o, r, 4, v.data())))
			for (auto &x : v)
				d.p("%lld ", (long long)x.i);
		break;
	}
	case CCS_OBJECT_TYPE_PARAMETER: {
		ccs_rng_t            r = make_rng(pool, seed);
		ccs_parameter_type_t pt;
		OK(ccs_parameter_get_type((ccs_parameter_t)o, &pt));
		if (pt == CCS_PARAMETER_TYPE_STRING) {
			ccs_datum_t v = ccs_string("some text");
			ccs_bool_t  b;
			OK(ccs_parameter_check_value((ccs_parameter_t)o, v, &b));
			d.p("%d", (int)b);
			break;
		}
		ccs_distribution_t dd = nullptr;
		OK(ccs_parameter_get_default_distribution((ccs_parameter_t)o, &dd));
		pool.add(dd);
		ccs_datum_t v[5];
		if (!failed(ccs_parameter_samples((ccs_parameter_t)o, dd, r, 5, v)))
			for (auto &x : v) {
				d.datum(x);
				d.out += ' ';
				ccs_bool_t b;
				OK(ccs_parameter_check_value((ccs_parameter_t)o, x, &b));
				d.p("%d ", (int)b);
			}
		break;
	}
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE:
		for (int i = 0; i < 4; i++) {
			ccs_configuration_t c = nullptr;
			if (failed(i ? ccs_configuration_space_sample((ccs_configuration_space_t)o, &c) :
				       ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)o, &c)))
				continue;
			pool.add(c);
			d.values(c, ccs_configuration_get_values);
			d.out += '\n';
		}
		break;
	case CCS_OBJECT_TYPE_TREE: {
		ccs_rng_t r = make_rng(pool, seed);
		for (int i = 0; i < 5; i++) {
			size_t k = 77;
			if (!failed(ccs_tree_sample((ccs_tree_t)o, r, &k)))
				d.p("%zu ", k);
		}
		break;
	}
	case CCS_OBJECT_TYPE_TREE_SPACE:
		for (int i = 0; i < 4; i++) {
			ccs_tree_configuration_t c = nullptr;
			if (failed(ccs_tree_space_sample((ccs_tree_space_t)o, &c)))
				continue;
			pool.add(c);
			d.values(c, ccs_tree_configuration_get_values);
			d.out += '\n';
		}
		break;
	case CCS_OBJECT_TYPE_TUNER: {
		ccs_configuration_t c[3] = {nullptr, nullptr, nullptr};
		if (!failed(ccs_tuner_ask((ccs_tuner_t)o, 3, c, nullptr)))
			for (auto x : c) {
				pool.add(x);
				d.values(x, ccs_configuration_get_values);
			}
		c[0] = nullptr;
		if (!failed(ccs_tuner_suggest((ccs_tuner_t)o, c))) {
			pool.add(c[0]);
			d.values(c[0], ccs_configuration_get_values);
		}
		break;
	}
	case CCS_OBJECT_TYPE_FEATURES_TUNER: {
		// the features of the history
		size_t n = 0;
		auto   ft = (ccs_features_tuner_t)o;
		OK(ccs_features_tuner_get_history(ft, nullptr, 0, nullptr, &n));
		std::vector<ccs_features_evaluation_t> h(n);
		if (n)
			OK(ccs_features_tuner_get_history(ft, nullptr, n, h.data(), nullptr));
		for (auto e : h) {
			ccs_features_t f = nullptr;
			size_t         k = 0, m = 0;
			OK(ccs_features_evaluation_get_features(e, &f));
			OK(ccs_features_tuner_get_history(ft, f, 0, nullptr, &k));
			OK(ccs_features_tuner_get_optima(ft, f, 0, nullptr, &m));
			d.p("%zu %zu ", k, m);
			ccs_configuration_t c[2] = {nullptr, nullptr};
			if (!failed(ccs_features_tuner_ask(ft, f, 2, c, nullptr)))
				for (auto x : c) {
					pool.add(x);
					d.values(x, ccs_configuration_get_values);
				}
			c[0] = nullptr;
			if (!failed(ccs_features_tuner_suggest(ft, f, c))) {
				pool.add(c[0]);
				d.values(c[0], ccs_configuration_get_values);
			}
		}
		break;
	}
	case CCS_OBJECT_TYPE_TREE_TUNER: {
		ccs_tree_configuration_t c[3] = {nullptr, nullptr, nullptr};
		if (!failed(ccs_tree_tuner_ask((ccs_tree_tuner_t)o, 3, c, nullptr)))
			for (auto x : c) {
				pool.add(x);
				d.values(x, ccs_tree_configuration_get_values);
			}
		c[0] = nullptr;
		if (!failed(ccs_tree_tuner_suggest((ccs_tree_tuner_t)o, c))) {
			pool.add(c[0]);
			d.values(c[0], ccs_tree_configuration_get_values);
		}
		break;
	}
	default: break;
	}
	return d.out;
}

// ---- serialization helpers ----
struct SerCb {
	bool   use = false; // pass our callback as an option
	size_t n   = 0;     // calls
};
static inline size_t
ser_size(ccs_object_t o, SerCb *cb)
{
	size_t n = (size_t)-1;
	if (cb && cb->use)
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n,
					CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, &cb->n, CCS_SERIALIZE_OPTION_END));
	else
		OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n,
					CCS_SERIALIZE_OPTION_END));
	return n;
}
static inline ccs_result_t
ser_mem(ccs_object_t o, SerCb *cb, size_t n, char *p)
{
	if (cb && cb->use)
		return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p,
					    CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, &cb->n, CCS_SERIALIZE_OPTION_END);
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p,
				    CCS_SERIALIZE_OPTION_END);
}
// exactly sized heap buffer: an overrun is caught
struct Bytes {
	std::unique_ptr<char[]> p;
	size_t                  n = 0;
	explicit Bytes(size_t n_ = 0) : p(new char[n_ ? n_ : 1]), n(n_)
	{
		if (n == 0) {
			p.reset(new char[1]);
		}
	}
	std::string str() const { return std::string(p.get(), n); }
	~Bytes()
	{
		if (p)
			memset(p.get(), '#', n);
	}
	Bytes(Bytes &&) = default;
	Bytes &operator=(Bytes &&) = default;
};
static inline Bytes
serialize(ccs_object_t o, SerCb *cb)
{
	Bytes b(ser_size(o, cb));
	memset(b.p.get(), 0x5a, b.n);
	OK(ser_mem(o, cb, b.n, b.p.get()));
	return b;
}
// options are given in a fixed set of combinations
static inline ccs_result_t
deserialize(ccs_object_t *out, const char *p, size_t n, ccs_map_t map, void *vector, void *data, bool cb, size_t *ncb,
	    int fd = -1, void **state = nullptr, const char *path = nullptr)
{
#define DS(...)                                                                                                          \
	(path ? ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path,             \
				       ##__VA_ARGS__, CCS_DESERIALIZE_OPTION_END) :                                      \
	 state ? ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd,   \
					CCS_DESERIALIZE_OPTION_NON_BLOCKING, state, ##__VA_ARGS__, CCS_DESERIALIZE_OPTION_END) : \
	 fd >= 0 ? ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd,  \
					  ##__VA_ARGS__, CCS_DESERIALIZE_OPTION_END) :                                   \
		   ccs_object_deserialize(out, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p,        \
					  ##__VA_ARGS__, CCS_DESERIALIZE_OPTION_END))
#define O_M CCS_DESERIALIZE_OPTION_HANDLE_MAP, map
#define O_V CCS_DESERIALIZE_OPTION_VECTOR, vector, CCS_DESERIALIZE_OPTION_DATA, data
#define O_C CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, ncb
	switch ((map ? 1 : 0) | (vector ? 2 : 0) | (cb ? 4 : 0)) {
	case 0: return DS();
	case 1: return DS(O_M);
	case 2: return DS(O_V);
	case 3: return DS(O_M, O_V);
	case 4: return DS(O_C);
	case 5: return DS(O_C, O_M);
	case 6: return DS(O_V, O_C);
	default: return DS(O_V, O_M, O_C);
	}
#undef DS
#undef O_M
#undef O_V
#undef O_C
}
// descriptors are handed out from the lowest number: one that was left open shows
static inline int
next_fd()
{
	int f = open("/dev/null", O_RDONLY);
	if (f >= 0)
		close(f);
	return f;
}
static inline ccs_datum_t
handle_key(ccs_object_t o)
{
	ccs_datum_t d = ccs_object(o);
	d.flags |= CCS_DATUM_FLAG_ID;
	return d;
}
} // namespace objs
