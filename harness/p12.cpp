// P12: features and evaluations are valid exactly when their values belong to
// the parameters of their space; objectives are kept and computed faithfully.
#include "bind.hpp"

static D
usable(D d)
{
	if (d.t == CCS_DATA_TYPE_FLOAT && std::isnan(d.f))
		return D::F(0.5);
	return d;
}
static bool
undefined(const E &e, const std::vector<Param> &ps, const std::vector<D> &v)
{
	// intermediate NaN or integer overflow is outside the claim
	for (auto &k : e.kids)
		if (undefined(k, ps, v))
			return true;
	Ev r = ref_eval(e, ps, v);
	if (!r.err && r.v.t == CCS_DATA_TYPE_FLOAT && std::isnan(r.v.f))
		return true;
	return !r.err && r.v.t == CCS_DATA_TYPE_INT && (r.v.i > (INT64_C(1) << 30) || r.v.i < -(INT64_C(1) << 30));
}
static void
names(Src &s, const BCtx &c, const std::vector<Param> &foreign)
{
	size_t n = c.ps.size(), k = 77, room = n + s.draw(3);
	OK(ccs_context_get_num_parameters(c.h, &k));
	CHECK(k == n, "%zu parameters instead of %zu", k, n);
	std::vector<ccs_parameter_t> hs(room + 1, (ccs_parameter_t)0x5a5a);
	if (room) {
		OK(c.kind == B_FEAT ? ccs_features_space_get_parameters((ccs_features_space_t)c.h, room, hs.data(), &k) :
				      ccs_objective_space_get_parameters((ccs_objective_space_t)c.h, room, hs.data(), &k));
		CHECK(k == n && hs[room] == (ccs_parameter_t)0x5a5a, "get_parameters");
		for (size_t i = 0; i < room; i++)
			CHECK(hs[i] == (i < n ? c.ps[i].h : nullptr), "parameter %zu", i);
	}
	for (size_t i = 0; i < n; i++) {
		TmpStr          nm(c.ps[i].name);
		ccs_parameter_t p = nullptr;
		size_t          a = 77, b = 77;
		if (c.kind == B_FEAT) {
			auto h = (ccs_features_space_t)c.h;
			OK(ccs_features_space_get_parameter_by_name(h, nm, &p));
			CHECK(p == c.ps[i].h, "parameter by name");
			OK(ccs_features_space_get_parameter(h, i, &p));
			OK(ccs_features_space_get_parameter_index_by_name(h, nm, &a));
			OK(ccs_features_space_get_parameter_index(h, p, &b));
		} else {
			auto h = (ccs_objective_space_t)c.h;
			OK(ccs_objective_space_get_parameter_by_name(h, nm, &p));
			CHECK(p == c.ps[i].h, "parameter by name");
			OK(ccs_objective_space_get_parameter(h, i, &p));
			OK(ccs_objective_space_get_parameter_index_by_name(h, nm, &a));
			OK(ccs_objective_space_get_parameter_index(h, p, &b));
		}
		CHECK(p == c.ps[i].h && a == i && b == i, "parameter %zu found at %zu and %zu", i, a, b);
	}
	if (n) {
		size_t                       m = 1 + s.draw(n + 1), bad = s.chance(1, 4) && !foreign.empty() ? s.draw(m) : m;
		std::vector<ccs_parameter_t> q;
		std::vector<size_t>          want, got(m + 1, 77);
		for (size_t j = 0; j < m; j++) {
			size_t x = s.draw(n);
			want.push_back(x);
			q.push_back(j == bad ? foreign[0].h : c.ps[x].h);
		}
		want.push_back(77);
		ccs_result_t r = s.coin()          ? ccs_context_get_parameter_indexes(c.h, m, q.data(), got.data()) :
				 c.kind == B_FEAT ? ccs_features_space_get_parameter_indexes((ccs_features_space_t)c.h, m, q.data(), got.data()) :
						    ccs_objective_space_get_parameter_indexes((ccs_objective_space_t)c.h, m, q.data(), got.data());
		CHECK((r < 0) == (bad < m), "indexes of several parameters: %d", (int)r);
		if (r < 0)
			ccs_clear_thread_error();
		else
			CHECK(got == want, "indexes of several parameters");
	}
	ccs_parameter_t p;
	size_t          ix;
	ANYERR(ccs_context_get_parameter(c.h, n, &p));
	ANYERR(ccs_context_get_parameter_by_name(c.h, "no such name", &p));
	for (auto &f : foreign)
		ANYERR(ccs_context_get_parameter_index(c.h, f.h, &ix));
}
static void
body(Src &s)
{
	Pool      pool;
	ParamOpts po;
	po.str = po.none_vals = true;
	po.wide     = s.chance(1, 5);
	BK   kind   = (BK)(B_FEAT + s.draw(4));
	BCtx c      = make_ctx(s, pool, kind);
	size_t n    = s.chance(1, 300) ? 120 + s.draw(160) : s.chance(1, 5) ? 6 + s.draw(9) : s.size(0, 5);
	ctx_add_params(s, pool, c, n, po);
	std::vector<Param> foreign;
	// refused parameters
	if (n && s.chance(1, 3)) {
		Param p = gen_param(s, pool, s.pick(c.ps).name, po);
		ANYERR(ctx_add(c, p.h));
		ANYERR(ctx_add(c, s.pick(c.ps).h));
		foreign.push_back(p);
		s.label("refused parameter");
	}
	std::vector<int> all;
	for (size_t i = 0; i < n; i++)
		all.push_back((int)i);
	for (auto &p : c.ps)
		s.log("%s\n", p.str().c_str());
	// objectives
	bool objective_seen = false;
	if (c.is_eval()) {
		auto   os = (ccs_objective_space_t)c.h;
		size_t m  = s.chance(1, 4) ? 4 + s.draw(6) : s.draw(4);
		std::vector<ccs_expression_t>     xs;
		std::vector<ccs_objective_type_t> ts;
		bool batch = s.coin();
		for (size_t i = 0; i < m; i++) {
			Objective o;
			o.e = s.coin() ? gen_num_expr(s, c.ps, all, 2) : gen_any_expr(s, c.ps, all, 2);
			if (n && s.chance(1, 3))
				o.e = E::V((int)s.draw(n));
			o.h = build_expr(o.e, c.ps, pool, &s);
			o.t = s.coin() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
			s.log("objective %s %s\n", o.t == CCS_OBJECTIVE_TYPE_MAXIMIZE ? "max" : "min", o.e.str(c.ps).c_str());
			if (!batch)
				OK(ccs_objective_space_add_objective(os, o.h, o.t));
			xs.push_back(o.h);
			ts.push_back(o.t);
			c.objs.push_back(o);
			if (!foreign.empty() && s.coin()) {
				std::vector<Param> ps2 = c.ps;
				Param              f   = foreign[0];
				f.name                 = "foreign";
				ps2.push_back(f);
				E e = E::N(CCS_EXPRESSION_TYPE_LIST, {o.e, E::V((int)n)});
				ANYERR(ccs_objective_space_add_objective(os, build_expr(e, ps2, pool), o.t));
				s.label("foreign objective refused");
			}
		}
		if (batch && m && !foreign.empty() && s.coin()) {
			// one expression out of the context spoils the batch; whether
			// those before it stay is not claimed, so on a space of its own
			BCtx tw = make_ctx(s, pool, kind);
			for (auto &p : c.ps)
				OK(ctx_add(tw, p.h));
			std::vector<Param> ps2 = c.ps;
			Param              f   = foreign[0];
			f.name                 = "foreign";
			ps2.push_back(f);
			std::vector<ccs_expression_t> ys = xs;
			size_t                        at = s.draw(m);
			ys[at] = build_expr(E::N(CCS_EXPRESSION_TYPE_LIST, {c.objs[at].e, E::V((int)n)}), ps2, pool);
			ANYERR(ccs_objective_space_add_objectives((ccs_objective_space_t)tw.h, m, ys.data(), ts.data()));
			s.label("foreign objective in a batch refused");
		}
		if (batch && m)
			OK(ccs_objective_space_add_objectives(os, m, xs.data(), ts.data()));
		size_t room = m + s.draw(3), k = 77;
		std::vector<ccs_expression_t>     gx(room + 1, (ccs_expression_t)0x5a5a);
		std::vector<ccs_objective_type_t> gt(room + 1, CCS_OBJECTIVE_TYPE_MAX);
		OK(ccs_objective_space_get_objectives(os, 0, nullptr, nullptr, &k));
		CHECK(k == m, "%zu objectives instead of %zu", k, m);
		if (room) {
			OK(ccs_objective_space_get_objectives(os, room, gx.data(), gt.data(), &k));
			CHECK(gx[room] == (ccs_expression_t)0x5a5a && gt[room] == CCS_OBJECTIVE_TYPE_MAX, "written past the end");
			for (size_t i = 0; i < room; i++)
				CHECK(gx[i] == (i < m ? c.objs[i].h : nullptr) && (i >= m || gt[i] == c.objs[i].t), "objective %zu", i);
		}
		if (m > 1)
			ERR(ccs_objective_space_get_objectives(os, m - 1, gx.data(), gt.data(), &k), CCS_RESULT_ERROR_INVALID_VALUE);
		for (size_t i = 0; i < m; i++) {
			ccs_expression_t     x = nullptr;
			ccs_objective_type_t t = CCS_OBJECTIVE_TYPE_MAX;
			OK(ccs_objective_space_get_objective(os, i, &x, &t));
			CHECK(x == c.objs[i].h && t == c.objs[i].t, "objective %zu", i);
		}
		ccs_expression_t     x;
		ccs_objective_type_t t;
		ERR(ccs_objective_space_get_objective(os, m, &x, &t), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
	}
	names(s, c, foreign);
	BCtx twin = make_ctx(s, pool, kind);
	for (auto &p : c.ps)
		OK(ctx_add(twin, p.h));
	size_t rounds = 1 + s.draw(5);
	bool   seen_valid = false, seen_invalid = false;
	std::vector<ccs_binding_t> made;
	for (size_t r = 0; r < rounds; r++) {
		std::vector<D> v;
		bool           spoil = s.coin(), valid = true;
		for (auto &p : c.ps)
			v.push_back(p.gen_in(s));
		if (spoil && n) {
			size_t i = s.draw(n);
			v[i]     = usable(c.ps[i].gen_near(s));
		}
		for (size_t i = 0; i < n; i++)
			valid &= c.ps[i].contains(v[i]);
		s.log("values %s\n", strv(v).c_str());
		std::vector<ccs_datum_t> vals = refs(v), before = vals;
		ccs_bool_t got = (ccs_bool_t)77;
		ccs_datum_t dummy = ccs_none;
		ccs_datum_t *pv = n ? vals.data() : nullptr;
		if (kind == B_FEAT)
			OK(ccs_features_space_check_features_values((ccs_features_space_t)c.h, n, pv, &got));
		else
			OK(ccs_objective_space_check_evaluation_values((ccs_objective_space_t)c.h, n, pv, &got));
		CHECK(got == (valid ? CCS_TRUE : CCS_FALSE), "%s reported %s", strv(v).c_str(), got ? "valid" : "invalid");
		CHECK(!n || memcmp(vals.data(), before.data(), n * sizeof vals[0]) == 0, "values modified");
		(void)dummy;
		Deps d;
		if (c.is_eval()) {
			d.conf   = s.draw(3);
			d.feat   = s.draw(3);
			d.result = s.coin() ? CCS_RESULT_SUCCESS : (ccs_evaluation_result_t)s.range(-5, 40);
		}
		ccs_binding_t b = nullptr;
		OK(b_create(c, d, n, pv, &b));
		pool.add(b);
		made.push_back(b);
		got = (ccs_bool_t)77;
		OK(b_check(kind, b, &got));
		CHECK(got == (valid ? CCS_TRUE : CCS_FALSE), "%s of %s reported %s", bk_names[kind], strv(v).c_str(),
		      got ? "valid" : "invalid");
		if (kind == B_FEAT) {
			OK(ccs_features_space_check_features((ccs_features_space_t)c.h, (ccs_features_t)b, &got));
			CHECK(got == (valid ? CCS_TRUE : CCS_FALSE), "check_features");
			ERR(ccs_features_space_check_features((ccs_features_space_t)twin.h, (ccs_features_t)b, &got),
			    CCS_RESULT_ERROR_INVALID_FEATURES);
		}
		// the wrong number of values
		vals.push_back(ccs_int(0));
		vals.push_back(ccs_int(0));
		size_t bad = n && s.coin() ? n - 1 : n + 1;
		if (bad) {
			if (kind == B_FEAT)
				ERR(ccs_features_space_check_features_values((ccs_features_space_t)c.h, bad, vals.data(), &got),
				    CCS_RESULT_ERROR_INVALID_FEATURES);
			else
				ERR(ccs_objective_space_check_evaluation_values((ccs_objective_space_t)c.h, bad, vals.data(), &got),
				    CCS_RESULT_ERROR_INVALID_EVALUATION);
			ccs_binding_t x = nullptr;
			ERR(b_create(c, d, bad, vals.data(), &x), CCS_RESULT_ERROR_INVALID_VALUE);
			CHECK(!x, "refused creation gave an object");
		}
		if (c.is_eval()) {
			ccs_evaluation_result_t rr = 99;
			OK(b_result(kind, b, &rr));
			CHECK(rr == d.result, "result %d instead of %d", (int)rr, (int)d.result);
			ccs_objective_space_t os = nullptr;
			BK k = kind;
			OK(BE_CALL(get_objective_space, b, &os));
			CHECK((ccs_context_t)os == c.h, "objective space");
			// objective values
			size_t m   = c.objs.size();
			bool   any_err = false, skip = false;
			std::vector<Ev> want;
			for (auto &o : c.objs) {
				skip |= undefined(o.e, c.ps, v);
				want.push_back(ref_eval(o.e, c.ps, v));
				any_err |= want.back().err;
			}
			if (!skip) {
				for (size_t i = 0; i < m; i++) {
					ccs_datum_t  x  = ccs_none;
					ccs_result_t rc = b_objective(kind, b, i, &x);
					if (want[i].err) {
						CHECK(rc < 0, "objective %zu of %s gave %s, an error was expected", i,
						      strv(v).c_str(), D::of(x).str().c_str());
						ccs_clear_thread_error();
					} else {
						OK(rc);
						CHECK(D::of(x) == want[i].v, "objective %zu of %s is %s instead of %s", i,
						      strv(v).c_str(), D::of(x).str().c_str(), want[i].v.str().c_str());
						objective_seen = true;
					}
				}
				ccs_datum_t x;
				ERR(b_objective(kind, b, m, &x), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
				size_t room = m + s.draw(3), cnt = 77;
				std::vector<ccs_datum_t> xs(room + 1, ccs_int(424242));
				OK(b_objectives(kind, b, 0, nullptr, &cnt));
				CHECK(cnt == m, "%zu objective values instead of %zu", cnt, m);
				if (room) {
					ccs_result_t rc = b_objectives(kind, b, room, xs.data(), &cnt);
					CHECK(xs[room].type == CCS_DATA_TYPE_INT && xs[room].value.i == 424242,
					      "written past the end");
					if (any_err) {
						CHECK(rc < 0, "objective values although one cannot be computed");
						ccs_clear_thread_error();
					} else {
						OK(rc);
						CHECK(cnt == m, "number of objective values");
						for (size_t i = 0; i < room; i++)
							CHECK(D::of(xs[i]) == (i < m ? want[i].v : D::none()),
							      "objective value %zu is %s", i, D::of(xs[i]).str().c_str());
					}
				}
				if (m > 1) {
					std::vector<ccs_datum_t> few(m - 1, ccs_int(0));
					ANYERR(b_objectives(kind, b, m - 1, few.data(), &cnt));
				}
			}
		}
		(valid ? seen_valid : seen_invalid) = true;
	}
	// a space that has grown since
	if (s.chance(1, 4)) {
		ctx_add_params(s, pool, c, 1, po);
		std::vector<int> only = {(int)n};
		E e = E::V((int)n);
		if (c.is_eval())
			OK(ccs_objective_space_add_objective((ccs_objective_space_t)c.h, build_expr(e, c.ps, pool),
							     CCS_OBJECTIVE_TYPE_MINIMIZE));
		for (auto b : made) {
			ccs_bool_t  got;
			ccs_datum_t x[16];
			ANYERR(b_check(kind, b, &got));
			if (c.is_eval()) {
				ANYERR(b_objective(kind, b, c.objs.size(), x));
				ANYERR(b_objectives(kind, b, 16, x, nullptr));
				ccs_comparison_t cr;
				if (b != made[0])
					ANYERR(b_compare(kind, b, made[0], &cr));
			}
		}
		s.label("space extended");
	}
	s.nontrivial(n && (seen_invalid || objective_seen));
	uint64_t h = kind;
	for (auto &p : c.ps)
		h = pbt::hcomb(h, pbt::hstr(p.str()));
	s.feature(h);
	s.label(bk_names[kind]);
	s.label_if(seen_valid, "valid");
	s.label_if(seen_invalid, "invalid");
	s.label_if(objective_seen, "objective values");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P12";
	c.rule = "random feature and objective spaces with valid and spoiled points, and random objectives; non-trivial: an invalid point was checked or an objective computed";
	c.assumptions = {"objective values that involve NaN or integers beyond 2^30 are not compared"};
	c.quick_cases    = 30000;
	c.thorough_cases = 1000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
