// P19: bindings store and return exactly the values put in them.
#include "bind.hpp"

struct B {
	ccs_binding_t           h = nullptr;
	std::vector<D>          v; // what the binding must hold
	ccs_evaluation_result_t result = 0;
	Deps                    d;
};
struct World {
	BCtx               c;
	std::vector<Param> foreign;
	std::vector<B>     bs;
	size_t             extended = 0; // parameters added since
};
static D
usable(D d)
{
	if (d.t == CCS_DATA_TYPE_FLOAT && std::isnan(d.f))
		return D::F(0.5);
	return d;
}
static bool
same(const ccs_datum_t &got, const D &want)
{
	return D::of(got) == want;
}
// every way of reading everything
static void
audit(Src &s, World &w)
{
	BK k = w.c.kind;
	for (auto &b : w.bs) {
		size_t      n = b.v.size(), cnt = 77;
		ccs_datum_t x;
		ccs_context_t ctx = nullptr;
		OK(ccs_binding_get_context(b.h, &ctx));
		CHECK(ctx == w.c.h, "context");
		size_t                   room = n + s.draw(3);
		std::vector<ccs_datum_t> a(room + 1, ccs_int(424242));
		if (room) {
			if (s.coin())
				OK(b_gets(k, b.h, room, a.data(), s.coin() ? &cnt : nullptr));
			else
				OK(ccs_binding_get_values(b.h, room, a.data(), &cnt));
			CHECK(same(a[room], D::I(424242)), "written past the end");
			for (size_t i = 0; i < room; i++)
				CHECK(same(a[i], i < n ? b.v[i] : D::none()), "value %zu is %s instead of %s", i,
				      D::of(a[i]).str().c_str(), (i < n ? b.v[i] : D::none()).str().c_str());
		}
		OK(b_gets(k, b.h, 0, nullptr, &cnt));
		CHECK(cnt == n, "%zu values instead of %zu", cnt, n);
		if (n > 1)
			ERR(b_gets(k, b.h, n - 1, a.data(), &cnt), CCS_RESULT_ERROR_INVALID_VALUE);
		for (size_t i = 0; i < n; i++) {
			TmpStr nm(w.c.ps[i].name);
			x = ccs_int(1);
			OK(b_get(k, b.h, i, &x));
			CHECK(same(x, b.v[i]), "value %zu is %s instead of %s", i, D::of(x).str().c_str(), b.v[i].str().c_str());
			x = ccs_int(1);
			OK(b_getn(k, b.h, nm, &x));
			CHECK(same(x, b.v[i]), "value of %s is %s instead of %s", w.c.ps[i].name.c_str(), D::of(x).str().c_str(),
			      b.v[i].str().c_str());
			x = ccs_int(1);
			OK(ccs_binding_get_value_by_parameter(b.h, w.c.ps[i].h, &x));
			CHECK(same(x, b.v[i]), "value by parameter");
			x = ccs_int(1);
			OK(ccs_binding_get_value(b.h, i, &x));
			CHECK(same(x, b.v[i]), "value by the generic interface");
			x = ccs_int(1);
			OK(ccs_binding_get_value_by_name(b.h, nm, &x));
			CHECK(same(x, b.v[i]), "value by name by the generic interface");
		}
		x = ccs_int(424242);
		size_t out = s.coin() ? n : s.coin() ? n + ((size_t)1 << 32) : SIZE_MAX - s.draw(2);
		ERR(b_get(k, b.h, out, &x), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
		ERR(ccs_binding_get_value(b.h, out, &x), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
		ANYERR(b_getn(k, b.h, "nobody", &x));
		for (size_t i = n; i < w.c.ps.size(); i++)
			ANYERR(b_getn(k, b.h, w.c.ps[i].name.c_str(), &x));
		for (auto &f : w.foreign)
			ANYERR(ccs_binding_get_value_by_parameter(b.h, f.h, &x));
		CHECK(same(x, D::I(424242)), "a refused read wrote its result");
		// validity follows the content
		ccs_bool_t ok = (ccs_bool_t)77;
		if (n == w.c.ps.size()) {
			bool valid = true;
			for (size_t i = 0; i < n; i++)
				valid &= w.c.ps[i].contains(b.v[i]);
			OK(b_check(k, b.h, &ok));
			CHECK(ok == (valid ? CCS_TRUE : CCS_FALSE), "%s reported %s", strv(b.v).c_str(), ok ? "valid" : "invalid");
		} else
			ANYERR(b_check(k, b.h, &ok));
		if (w.c.is_eval()) {
			ccs_evaluation_result_t r = 99;
			OK(b_result(k, b.h, &r));
			CHECK(r == b.result, "result %d instead of %d", (int)r, (int)b.result);
			if (k == B_TEVAL) {
				ccs_tree_configuration_t t = nullptr;
				OK(ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)b.h, &t));
				CHECK(t == w.c.trees[b.d.conf], "configuration");
			} else {
				ccs_configuration_t t = nullptr;
				OK(k == B_EVAL ? ccs_evaluation_get_configuration((ccs_evaluation_t)b.h, &t) :
						 ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)b.h, &t));
				CHECK(t == w.c.confs[b.d.conf], "configuration");
			}
			if (k == B_FEVAL) {
				ccs_features_t f = nullptr;
				OK(ccs_features_evaluation_get_features((ccs_features_evaluation_t)b.h, &f));
				CHECK(f == w.c.feats[b.d.feat], "features");
			}
		}
	}
}
static D
gen_value(Src &s, const Param &p)
{
	if (s.chance(1, 12))
		return D::inactive();
	return usable(s.chance(3, 4) ? p.gen_in(s) : p.gen_near(s));
}
// one write; returns whether it must be accepted
static void
write_one(Src &s, World &w, B &b)
{
	BK     k = w.c.kind;
	size_t n = b.v.size();
	size_t i = s.draw(n + 1);
	if (i == n || !n) {
		size_t out = s.coin() ? n : n + ((size_t)1 << 32);
		ERR(s.coin() ? b_set(k, b.h, out, ccs_int(0)) : ccs_binding_set_value(b.h, out, ccs_int(0)),
		    CCS_RESULT_ERROR_OUT_OF_BOUNDS);
		ANYERR(ccs_binding_set_value_by_name(b.h, "nobody", ccs_int(0)));
		for (size_t j = n; j < w.c.ps.size(); j++) {
			ANYERR(ccs_binding_set_value_by_name(b.h, w.c.ps[j].name.c_str(), ccs_int(0)));
			ANYERR(ccs_binding_set_value_by_parameter(b.h, w.c.ps[j].h, ccs_int(0)));
		}
		for (auto &f : w.foreign)
			ANYERR(ccs_binding_set_value_by_parameter(b.h, f.h, ccs_int(0)));
		s.label("write out of the space");
		return;
	}
	D    v         = gen_value(s, w.c.ps[i]);
	bool transient = s.coin();
	s.log("  [%zu] = %s%s\n", i, v.str().c_str(), transient ? " transient" : "");
	ccs_result_t r;
	{
		TmpDatum    t(v, CCS_DATUM_FLAG_TRANSIENT);
		ccs_datum_t d = transient ? t.d : v.stable();
		TmpStr      nm(w.c.ps[i].name);
		switch (s.draw(4)) {
		case 0: r = b_set(k, b.h, i, d); break;
		case 1: r = ccs_binding_set_value(b.h, i, d); break;
		case 2: r = ccs_binding_set_value_by_name(b.h, nm, d); break;
		default: r = ccs_binding_set_value_by_parameter(b.h, w.c.ps[i].h, d);
		}
	}
	if (transient && !w.c.ps[i].contains(v)) {
		CHECK(r < 0, "transient %s accepted for %s", v.str().c_str(), w.c.ps[i].str().c_str());
		ccs_clear_thread_error();
		s.label("transient value refused");
	} else {
		OK(r);
		b.v[i] = v;
		s.label_if(transient && v.t == CCS_DATA_TYPE_STRING, "transient string");
	}
}
static void
write_all(Src &s, World &w, B &b)
{
	size_t n = b.v.size();
	if (s.chance(1, 5)) {
		std::vector<ccs_datum_t> a(n + 2, ccs_int(0));
		size_t                   bad = n && s.coin() ? n - 1 : n + 1;
		if (bad)
			ERR(ccs_binding_set_values(b.h, bad, a.data()), CCS_RESULT_ERROR_INVALID_VALUE);
		s.label("batch of the wrong size");
		return;
	}
	if (!n)
		return;
	std::vector<D> v;
	bool           ok = true;
	ccs_result_t   r;
	{
		std::deque<TmpDatum>     ts;
		std::vector<ccs_datum_t> a;
		for (size_t i = 0; i < n; i++) {
			v.push_back(s.chance(7, 8) ? usable(w.c.ps[i].gen_in(s)) : gen_value(s, w.c.ps[i]));
			bool transient = s.coin();
			ts.emplace_back(v[i], CCS_DATUM_FLAG_TRANSIENT);
			a.push_back(transient ? ts.back().d : v[i].stable());
			if (transient && !w.c.ps[i].contains(v[i]))
				ok = false;
		}
		s.log("  all = %s %s\n", strv(v).c_str(), ok ? "" : "(refused)");
		std::vector<ccs_datum_t> before = a;
		r = ccs_binding_set_values(b.h, n, a.data());
		CHECK(!memcmp(before.data(), a.data(), n * sizeof a[0]), "the values given were modified");
	}
	if (ok) {
		OK(r);
		b.v = v;
		s.label("batch written");
	} else {
		CHECK(r < 0, "transient values %s accepted", strv(v).c_str());
		ccs_clear_thread_error();
		s.label("batch refused");
	}
}
static void
create(Src &s, Pool &pool, World &w)
{
	BK     k = w.c.kind;
	size_t n = w.c.ps.size();
	B      b;
	b.d.conf   = s.draw(4);
	b.d.feat   = s.draw(3);
	b.d.result = b.result = s.coin() ? CCS_RESULT_SUCCESS : (ccs_evaluation_result_t)s.range(-4, 9);
	bool         none = s.chance(1, 4), ok = true;
	ccs_result_t r;
	{
		std::deque<TmpDatum>     ts;
		std::vector<ccs_datum_t> a;
		for (size_t i = 0; i < n; i++) {
			b.v.push_back(none ? D::none() : s.chance(7, 8) ? usable(w.c.ps[i].gen_in(s)) : gen_value(s, w.c.ps[i]));
			bool transient = !none && s.coin();
			ts.emplace_back(b.v[i], CCS_DATUM_FLAG_TRANSIENT);
			a.push_back(transient ? ts.back().d : b.v[i].stable());
			if (transient && !w.c.ps[i].contains(b.v[i]))
				ok = false;
		}
		r = b_create(w.c, b.d, none ? 0 : n, none || !n ? nullptr : a.data(), &b.h);
	}
	(void)k;
	s.log("create %s%s\n", none ? "" : strv(b.v).c_str(), ok ? "" : " (refused)");
	if (!ok) {
		CHECK(r < 0, "created from the transient values %s", strv(b.v).c_str());
		CHECK(!b.h, "refused creation gave an object");
		ccs_clear_thread_error();
		s.label("creation refused");
		return;
	}
	OK(r);
	pool.add(b.h);
	w.bs.push_back(b);
}
static void
body(Src &s)
{
	Pool      pool;
	World     w;
	ParamOpts po;
	po.str = po.none_vals = true;
	BK k = (BK)s.draw(B_KINDS);
	w.c  = make_ctx(s, pool, k);
	size_t n = s.size(0, 4);
	ctx_add_params(s, pool, w.c, n, po);
	w.foreign.push_back(gen_param(s, pool, "foreign", po));
	if (n)
		w.foreign.push_back(gen_param(s, pool, w.c.ps[0].name, po));
	for (auto &p : w.c.ps)
		s.log("%s\n", p.str().c_str());
	create(s, pool, w);
	size_t   steps = s.size(1, 14), writes = 0;
	uint64_t h = k;
	for (size_t st = 0; st < steps; st++) {
		size_t op = s.weighted({8, 4, 2, 1, 2, 1});
		if (w.bs.empty())
			op = 3;
		h = pbt::hcomb(h, op);
		size_t bi = w.bs.empty() ? 0 : s.draw(w.bs.size());
		switch (op) {
		case 0:
			s.log("write %zu\n", bi);
			write_one(s, w, w.bs[bi]);
			writes++;
			break;
		case 1:
			s.log("write all %zu\n", bi);
			write_all(s, w, w.bs[bi]);
			writes++;
			break;
		case 2:
			if (w.c.is_eval()) {
				auto r = (ccs_evaluation_result_t)s.range(-6, 6);
				OK(b_set_result(k, w.bs[bi].h, r));
				w.bs[bi].result = r;
			}
			break;
		case 3:
			if (w.bs.size() < 4)
				create(s, pool, w);
			break;
		case 4: { // copy what is read in another binding of the same size
			size_t bj = s.draw(w.bs.size());
			size_t m  = w.bs[bi].v.size();
			if (m != w.bs[bj].v.size() || !m)
				break;
			std::vector<ccs_datum_t> a(m);
			OK(b_gets(k, w.bs[bi].h, m, a.data(), nullptr));
			bool ok = true;
			for (size_t i = 0; i < m; i++) // what is read can be marked as transient by whoever reads it
				a[i].flags = CCS_DATUM_FLAG_DEFAULT;
			OK(ccs_binding_set_values(w.bs[bj].h, m, a.data()));
			(void)ok;
			w.bs[bj].v = w.bs[bi].v;
			writes++;
			s.label("copied");
			break;
		}
		default:
			if (w.extended < 2) {
				ctx_add_params(s, pool, w.c, 1, po);
				w.extended++;
				s.label("space extended");
			}
		}
		audit(s, w);
	}
	s.nontrivial(writes >= 2 && n);
	for (auto &b : w.bs)
		h = pbt::hcomb(h, pbt::hstr(strv(b.v)));
	s.feature(h);
	s.label(bk_names[k]);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P19";
	c.rule = "random histories of reads and writes, by index, name, parameter or batch, over bindings of the five kinds; non-trivial: at least two writes in a space with parameters";
	c.assumptions = {"values not marked as transient are stored without validation, as documented"};
	c.quick_cases    = 20000;
	c.thorough_cases = 800000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
