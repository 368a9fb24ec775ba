// P17: evaluating an expression agrees with a reference evaluator.
#include "gen.hpp"

static bool
has_nan(const E &e, const std::vector<Param> &ps, const std::vector<D> &v, bool *ovf)
{
	// intermediate NaN (inf - inf, inf * 0, ...) and integer overflow are
	// outside the claim; find out by evaluating every sub-expression
	for (auto &k : e.kids)
		if (has_nan(k, ps, v, ovf))
			return true;
	Ev r = ref_eval(e, ps, v);
	if (!r.err && r.v.t == CCS_DATA_TYPE_FLOAT && std::isnan(r.v.f))
		return true;
	if (e.kids.size() == 2 && e.op >= CCS_EXPRESSION_TYPE_ADD && e.op <= CCS_EXPRESSION_TYPE_MULTIPLY) {
		Ev a = ref_eval(e.kids[0], ps, v), b = ref_eval(e.kids[1], ps, v);
		if (!a.err && !b.err && a.v.t == CCS_DATA_TYPE_INT && b.v.t == CCS_DATA_TYPE_INT) {
			int64_t x;
			bool    o = e.op == CCS_EXPRESSION_TYPE_ADD       ? __builtin_add_overflow(a.v.i, b.v.i, &x) :
				    e.op == CCS_EXPRESSION_TYPE_SUBSTRACT ? __builtin_sub_overflow(a.v.i, b.v.i, &x) :
									    __builtin_mul_overflow(a.v.i, b.v.i, &x);
			if (o)
				*ovf = true;
		}
	}
	if (e.op == CCS_EXPRESSION_TYPE_NEGATIVE) {
		Ev a = ref_eval(e.kids[0], ps, v);
		if (!a.err && a.v.t == CCS_DATA_TYPE_INT && a.v.i == INT64_MIN)
			*ovf = true;
	}
	return false;
}

static void
stretch(Src &s, E &e)
{
	// extreme numbers instead of small ones
	for (auto &k : e.kids)
		stretch(s, k);
	if (e.op != CCS_EXPRESSION_TYPE_LITERAL || !e.lit.is_num() || s.coin())
		return;
	if (e.lit.t == CCS_DATA_TYPE_INT) {
		static const int64_t big[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_C(1) << 53, (INT64_C(1) << 53) + 1,
					      -(INT64_C(1) << 62), INT64_C(1) << 31, -(INT64_C(1) << 31) - 1, -1, 0};
		e.lit = D::I(s.chance(1, 3) ? s.i64() : big[s.draw(10)]);
	} else {
		static const double big[] = {-0.0, 0.0, 1e308, -1e308, 5e-324, INFINITY, -INFINITY, 9007199254740993.0,
					     9.3e18, -9.3e18};
		e.lit = D::F(s.chance(1, 3) ? s.f64() : big[s.draw(10)]);
		if (std::isnan(e.lit.f))
			e.lit = D::F(1.5);
	}
}
static void
body(Src &s)
{
	Pool               pool;
	std::vector<Param> ps;
	ParamOpts          po;
	po.none_vals = true;
	po.str       = true;
	po.wide      = s.chance(1, 4);
	size_t n     = s.chance(1, 10) ? 5 + s.draw(6) : s.size(0, 4);
	for (size_t i = 0; i < n; i++)
		ps.push_back(gen_param(s, pool, sfmt("x%zu", i), po));
	// a features space holds every kind of parameter, string ones included
	ccs_features_space_t fs = nullptr;
	OK(ccs_create_features_space("ctx", &fs));
	pool.add(fs);
	// the place of a parameter in the context is not its place in the model
	std::vector<int> perm, place(n);
	for (size_t i = 0; i < n; i++)
		perm.push_back((int)i);
	for (size_t i = n; i > 1; i--)
		std::swap(perm[i - 1], perm[s.draw(i)]);
	for (size_t k = 0; k < n; k++) {
		OK(ccs_features_space_add_parameter(fs, ps[(size_t)perm[k]].h));
		place[(size_t)perm[k]] = (int)k;
	}
	std::vector<int> all;
	for (size_t i = 0; i < n; i++)
		all.push_back((int)i);
	int depth = s.chance(1, 10) ? 5 : 3;
	E   e;
	switch (s.weighted({4, 3, 2})) {
	case 0:
		e = gen_any_expr(s, ps, all, depth);
		break;
	case 1:
		e = gen_bool_expr(s, ps, all, depth);
		break;
	default:
		e = gen_num_expr(s, ps, all, depth);
	}
	if (s.chance(1, 5)) {
		stretch(s, e);
		s.label("extreme numbers");
	}
	s.log("expression %s", e.str(ps).c_str());
	ccs_expression_t x = build_expr(e, ps, pool, &s);
	size_t           rounds = 1 + s.draw(4);
	std::set<int>    used;
	e.vars(used);
	bool nontriv = false;
	for (size_t r = 0; r < rounds; r++) {
		std::vector<D> v;
		for (auto &p : ps) {
			D d = s.chance(1, 8) ? D::inactive() : s.chance(1, 10) ? p.gen_near(s) : p.gen_in(s);
			if (d.t == CCS_DATA_TYPE_FLOAT && std::isnan(d.f))
				d = D::F(0.5);
			v.push_back(d);
		}
		std::vector<ccs_datum_t> vals(n + 1, ccs_none);
		for (size_t i = 0; i < n; i++)
			vals[(size_t)place[i]] = v[i].ref();
		bool ovf = false;
		if (has_nan(e, ps, v, &ovf))
			continue;
		Ev          want = ref_eval(e, ps, v);
		ccs_datum_t got  = ccs_none;
		ccs_result_t rc  = ccs_expression_eval(x, (ccs_context_t)fs, n ? vals.data() : nullptr, &got);
		s.log("values %s -> reference %s", strv(v).c_str(), want.err ? "error" : want.v.str().c_str());
		if (ovf) {
			ccs_clear_thread_error();
			s.label("integer overflow (only no crash is claimed)");
			continue;
		}
		if (want.err) {
			CHECK(rc < 0, "evaluation of %s with %s gave %s, an error was expected",
			      e.str(ps).c_str(), strv(v).c_str(), D::of(got).str().c_str());
			ccs_clear_thread_error();
			s.label("error");
		} else {
			CHECK(rc == CCS_RESULT_SUCCESS, "evaluation of %s with %s failed: %s, %s was expected",
			      e.str(ps).c_str(), strv(v).c_str(), err_text(rc).c_str(), want.v.str().c_str());
			D g = D::of(got);
			CHECK(g == want.v, "evaluation of %s with %s gave %s, %s was expected",
			      e.str(ps).c_str(), strv(v).c_str(), g.str().c_str(), want.v.str().c_str());
			s.label_if(g.t == CCS_DATA_TYPE_INACTIVE, "inactive");
			s.label_if(g.t == CCS_DATA_TYPE_BOOL, "bool");
			s.label_if(g.is_num(), "number");
			if (e.count() >= 3)
				nontriv = true;
			// the same values again give the same answer
			ccs_datum_t again = ccs_none;
			OK(ccs_expression_eval(x, (ccs_context_t)fs, n ? vals.data() : nullptr, &again));
			CHECK(D::of(again) == g, "evaluation is not repeatable");
		}
		// arguments are not modified
		for (size_t i = 0; i < n; i++)
			CHECK(D::of(vals[(size_t)place[i]]) == v[i], "evaluation changed its input");
		// each element of a list evaluates like the element alone
		if (e.op == CCS_EXPRESSION_TYPE_IN || e.op == CCS_EXPRESSION_TYPE_LIST) {
			const E *l = e.op == CCS_EXPRESSION_TYPE_LIST ? &e : &e.kids[1];
			if (l->op != CCS_EXPRESSION_TYPE_LIST)
				continue;
			ccs_expression_t lx = x;
			if (l != &e) {
				ccs_expression_t nodes[2];
				OK(ccs_expression_get_nodes(x, 2, nodes, nullptr));
				lx = nodes[1];
			}
			for (size_t i = 0; i <= l->kids.size(); i++) {
				ccs_datum_t  ev;
				ccs_result_t rr = ccs_expression_list_eval_node(
					lx, (ccs_context_t)fs, n ? vals.data() : nullptr, i, &ev);
				if (i == l->kids.size()) {
					CHECK(rr == CCS_RESULT_ERROR_OUT_OF_BOUNDS,
					      "list element past the end: %s", err_text(rr).c_str());
					ccs_clear_thread_error();
					continue;
				}
				Ev w = ref_eval(l->kids[i], ps, v);
				CHECK((rr < 0) == w.err, "list element %zu: %s", i, err_text(rr).c_str());
				if (!w.err)
					CHECK(D::of(ev) == w.v, "list element %zu gave %s, expected %s", i,
					      D::of(ev).str().c_str(), w.v.str().c_str());
				else
					ccs_clear_thread_error();
			}
		}
	}
	s.nontrivial(nontriv);
	s.label_if(!used.empty(), "uses variables");
	s.label_if(e.count() >= 8, "8 nodes or more");
}

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P17";
	c.rule     = "the expression has at least three nodes and at least one evaluation of it succeeds";
	c.assumptions = {"NaN operands or intermediate results and overflowing signed integer arithmetic are outside the claim"};
	c.quick_cases    = 60000;
	c.thorough_cases = 2000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
