// P18: expressions report their structure and variables truthfully.  Graphs of
// expressions are assembled node by node (with shared sub-expressions) and
// compared with a record of what each was built from.
#include "gen.hpp"
#include <algorithm>

struct Arg {
	int lit = -1, par = -1, ex = -1;
	D   d;
};
struct Ex {
	ccs_expression_t      h = nullptr;
	ccs_expression_type_t t;
	std::vector<Arg>      a;
	D                     lit;
	int                   par = -1;
	std::set<int>         vars;
	long                  refs = 1;
};
// number of operands of each operator; -1: any
static int
arity(int t)
{
	switch (t) {
	case CCS_EXPRESSION_TYPE_POSITIVE:
	case CCS_EXPRESSION_TYPE_NEGATIVE:
	case CCS_EXPRESSION_TYPE_NOT:
		return 1;
	case CCS_EXPRESSION_TYPE_LIST:
		return -1;
	case CCS_EXPRESSION_TYPE_LITERAL:
	case CCS_EXPRESSION_TYPE_VARIABLE:
		return 0;
	default:
		return 2;
	}
}
static D
gen_lit(Src &s)
{
	D d = gen_scalar(s);
	if (d.t == CCS_DATA_TYPE_STRING && s.chance(1, 8)) {
		d.nul = true;
		d.s.clear();
	}
	return d;
}
struct Space {
	ccs_context_t h;
	std::set<int> ps;
};
static void
check(Src &s, std::vector<Ex> &es, size_t id, const std::vector<Param> &ps, const std::vector<Space> &sp)
{
	Ex                   &e = es[id];
	ccs_expression_type_t t;
	size_t                n = 99;
	OK(ccs_expression_get_type(e.h, &t));
	CHECK(t == e.t, "type %d, %d expected", (int)t, (int)e.t);
	OK(ccs_expression_get_num_nodes(e.h, &n));
	CHECK(n == e.a.size(), "%zu operands, %zu expected", n, e.a.size());
	n = 99;
	OK(ccs_expression_get_nodes(e.h, 0, nullptr, &n));
	CHECK(n == e.a.size(), "%zu operands announced, %zu expected", n, e.a.size());
	ANYERR(ccs_expression_get_nodes(e.h, 0, nullptr, nullptr));
	size_t                        extra = s.draw(3);
	ccs_expression_t              guard = (ccs_expression_t)&n;
	std::vector<ccs_expression_t> nd(e.a.size() + extra + 1, guard);
	OK(ccs_expression_get_nodes(e.h, e.a.size() + extra, nd.data(), s.coin() ? &n : nullptr));
	CHECK(nd.back() == guard, "get_nodes wrote past the end");
	if (e.a.size())
		ERR(ccs_expression_get_nodes(e.h, s.draw(e.a.size()), nd.data() + 0, nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
	ccs_datum_t     v;
	ccs_parameter_t p = nullptr;
	for (size_t i = 0; i < e.a.size(); i++) {
		Arg &a = e.a[i];
		OK(ccs_expression_get_type(nd[i], &t));
		if (a.ex >= 0) {
			CHECK(nd[i] == es[(size_t)a.ex].h, "operand %zu is not the expression given", i);
		} else if (a.par >= 0) {
			CHECK(t == CCS_EXPRESSION_TYPE_VARIABLE, "operand %zu is not a variable", i);
			OK(ccs_variable_get_parameter(nd[i], &p));
			CHECK(p == ps[(size_t)a.par].h, "operand %zu is another parameter", i);
		} else {
			CHECK(t == CCS_EXPRESSION_TYPE_LITERAL, "operand %zu is not a literal", i);
			OK(ccs_literal_get_value(nd[i], &v));
			CHECK(D::of(v) == a.d, "operand %zu is %s, %s expected", i, D::of(v).str().c_str(), a.d.str().c_str());
		}
	}
	for (size_t i = e.a.size(); i < e.a.size() + extra; i++)
		CHECK(!nd[i], "the end of the array of operands is not null");
	if (e.t == CCS_EXPRESSION_TYPE_LITERAL) {
		OK(ccs_literal_get_value(e.h, &v));
		CHECK(D::of(v) == e.lit, "literal is %s, %s expected", D::of(v).str().c_str(), e.lit.str().c_str());
	} else
		ERR(ccs_literal_get_value(e.h, &v), CCS_RESULT_ERROR_INVALID_EXPRESSION);
	if (e.t == CCS_EXPRESSION_TYPE_VARIABLE) {
		OK(ccs_variable_get_parameter(e.h, &p));
		CHECK(p == ps[(size_t)e.par].h, "variable of another parameter");
	} else
		ERR(ccs_variable_get_parameter(e.h, &p), CCS_RESULT_ERROR_INVALID_EXPRESSION);
	// parameters
	n = 99;
	OK(ccs_expression_get_parameters(e.h, 0, nullptr, &n));
	CHECK(n == e.vars.size(), "%zu parameters announced, %zu expected", n, e.vars.size());
	ANYERR(ccs_expression_get_parameters(e.h, 0, nullptr, nullptr));
	ccs_parameter_t              pg = (ccs_parameter_t)&n;
	std::vector<ccs_parameter_t> gp(e.vars.size() + extra + 1, pg);
	OK(ccs_expression_get_parameters(e.h, e.vars.size() + extra, gp.data(), s.coin() ? &n : nullptr));
	CHECK(gp.back() == pg, "get_parameters wrote past the end");
	std::set<ccs_parameter_t> want, got;
	for (int i : e.vars)
		want.insert(ps[(size_t)i].h);
	for (size_t i = 0; i < e.vars.size(); i++)
		CHECK(got.insert(gp[i]).second, "a parameter is listed twice");
	CHECK(got == want, "the parameters listed are not those of the expression");
	for (size_t i = e.vars.size(); i < e.vars.size() + extra; i++)
		CHECK(!gp[i], "the end of the array of parameters is not null");
	if (e.vars.size())
		ERR(ccs_expression_get_parameters(e.h, s.draw(e.vars.size()), gp.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
	// contexts
	for (auto &c : sp) {
		bool in = std::includes(c.ps.begin(), c.ps.end(), e.vars.begin(), e.vars.end());
		ccs_result_t r = ccs_expression_check_context(e.h, c.h);
		CHECK((r == CCS_RESULT_SUCCESS) == in, "check against a context %s", in ? "fails" : "succeeds although a parameter is missing");
		ccs_clear_thread_error();
	}
	ccs_result_t r = ccs_expression_check_context(e.h, nullptr);
	CHECK((r == CCS_RESULT_SUCCESS) == e.vars.empty(), "check without a context");
	ccs_clear_thread_error();
	// elements of lists
	if (e.t == CCS_EXPRESSION_TYPE_LIST) {
		ERR(ccs_expression_list_eval_node(e.h, nullptr, nullptr, e.a.size() + s.draw(2), &v), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
		for (size_t i = 0; i < e.a.size(); i++)
			if (e.a[i].lit >= 0) {
				OK(ccs_expression_list_eval_node(e.h, nullptr, nullptr, i, &v));
				CHECK(D::of(v) == e.a[i].d, "element %zu of the list is %s", i, D::of(v).str().c_str());
			}
	} else
		ANYERR(ccs_expression_list_eval_node(e.h, nullptr, nullptr, 0, &v));
	int32_t rc = 0;
	OK(ccs_object_get_refcount(e.h, &rc));
	CHECK(rc == e.refs, "expression has %d references, %ld expected", rc, e.refs);
}
static void
body(Src &s)
{
	long live0 = pbt::vp_live_allocs;
	{
		Pool               pool;
		std::vector<Param> ps;
		ParamOpts          po;
		po.str    = true;
		size_t np = s.size(1, 5);
		for (size_t i = 0; i < np; i++)
			ps.push_back(gen_param(s, pool, "p" + std::to_string(i), po));
		std::vector<Space> sp;
		size_t             ns = s.size(1, 3);
		for (size_t i = 0; i < ns; i++) {
			Space c;
			int   k = (int)s.draw(3);
			if (k == 0)
				OK(ccs_create_configuration_space("c", (ccs_configuration_space_t *)&c.h));
			else if (k == 1)
				OK(ccs_create_features_space("f", (ccs_features_space_t *)&c.h));
			else
				OK(ccs_create_objective_space("o", (ccs_objective_space_t *)&c.h));
			pool.add(c.h);
			std::vector<int> order;
			for (size_t j = 0; j < np; j++)
				if (s.chance(2, 3))
					order.insert(order.begin() + (long)s.draw(order.size() + 1), (int)j);
			for (int j : order) {
				if (k == 0 && ps[(size_t)j].kind == Param::STR)
					continue; // no distribution for strings
				if (k == 0)
					OK(ccs_configuration_space_add_parameter((ccs_configuration_space_t)c.h, ps[(size_t)j].h, nullptr));
				else if (k == 1)
					OK(ccs_features_space_add_parameter((ccs_features_space_t)c.h, ps[(size_t)j].h));
				else
					OK(ccs_objective_space_add_parameter((ccs_objective_space_t)c.h, ps[(size_t)j].h));
				c.ps.insert(j);
			}
			sp.push_back(c);
		}
		std::vector<Ex> es;
		size_t          n = s.size(1, 14), shared = 0, refused = 0, depth = 0;
		uint64_t        shape = 0;
		std::vector<size_t> dp;
		ccs_rng_t       other = make_rng(pool, 1);
		for (size_t i = 0; i < n; i++) {
			Ex e;
			e.h = nullptr;
			size_t kind = s.weighted({2, 2, 8, 2});
			if (kind == 0) {
				e.t   = CCS_EXPRESSION_TYPE_LITERAL;
				e.lit = gen_lit(s);
				TmpDatum t(e.lit, s.coin() ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT);
				OK(ccs_create_literal(t.d, &e.h));
				dp.push_back(0);
			} else if (kind == 1) {
				e.t   = CCS_EXPRESSION_TYPE_VARIABLE;
				e.par = (int)s.draw(np);
				e.vars.insert(e.par);
				OK(ccs_create_variable(ps[(size_t)e.par].h, &e.h));
				dp.push_back(0);
			} else {
				int    t  = kind == 2 ? (int)s.draw(CCS_EXPRESSION_TYPE_LIST + 1) : (int)s.range(-1, CCS_EXPRESSION_TYPE_MAX + 1);
				int    ar = arity(t);
				size_t m  = ar < 0 ? s.size(0, 6) : kind == 2 || s.coin() ? (size_t)ar : s.size(0, 4);
				bool   ok = t >= CCS_EXPRESSION_TYPE_OR && t <= CCS_EXPRESSION_TYPE_LIST && (ar < 0 || m == (size_t)ar);
				e.t       = (ccs_expression_type_t)t;
				std::vector<ccs_datum_t> nodes;
				std::vector<TmpDatum>    tmp;
				tmp.reserve(m);
				size_t d = 0;
				for (size_t j = 0; j < m; j++) {
					Arg a;
					switch (s.weighted({4, 3, es.empty() ? 0 : 7, kind == 3 ? 2 : 0})) {
					case 0:
						a.lit = 1;
						a.d   = gen_lit(s);
						tmp.emplace_back(a.d, CCS_DATUM_FLAG_TRANSIENT);
						nodes.push_back(tmp.back().d);
						break;
					case 1:
						a.par = (int)s.draw(np);
						e.vars.insert(a.par);
						nodes.push_back(ccs_object(ps[(size_t)a.par].h));
						break;
					case 2:
						a.ex = (int)s.draw(es.size());
						e.vars.insert(es[(size_t)a.ex].vars.begin(), es[(size_t)a.ex].vars.end());
						nodes.push_back(ccs_object(es[(size_t)a.ex].h));
						d = std::max(d, dp[(size_t)a.ex] + 1);
						break;
					default: // not an operand
						ok = false;
						switch (s.draw(4)) {
						case 0: nodes.push_back(ccs_inactive); break;
						case 1: nodes.push_back(ccs_object(other)); break;
						case 2: nodes.push_back(ccs_object(sp[0].h)); break;
						default: nodes.push_back(ccs_object(nullptr)); break;
						}
					}
					e.a.push_back(a);
				}
				long         live = pbt::vp_live_allocs;
				ccs_result_t r;
				s.log("%zu: type %d of %zu operands%s\n", i, t, m, ok ? "" : " (refused)");
				if (m == 1 && s.coin())
					r = ccs_create_unary_expression((ccs_expression_type_t)t, nodes[0], &e.h);
				else if (m == 2 && s.coin())
					r = ccs_create_binary_expression((ccs_expression_type_t)t, nodes[0], nodes[1], &e.h);
				else
					r = ccs_create_expression((ccs_expression_type_t)t, m, nodes.data(), &e.h);
				for (auto &x : nodes)
					x = ccs_int(-1); // the array is the caller's
				if (!ok) {
					CHECK(r < 0, "a malformed expression was accepted");
					CHECK(!e.h, "an expression was given with an error");
					ccs_clear_thread_error();
					CHECK(pbt::vp_live_allocs == live, "a refused expression left %ld allocations", pbt::vp_live_allocs - live);
					refused++;
					continue;
				}
				OK(r);
				for (auto &a : e.a)
					if (a.ex >= 0) {
						shared += es[(size_t)a.ex].refs > 1;
						es[(size_t)a.ex].refs++;
					}
				dp.push_back(d);
				depth = std::max(depth, d);
			}
			shape = pbt::hcomb(shape, (uint64_t)e.t * 31 + e.a.size());
			es.push_back(e);
			if (s.chance(1, 4))
				check(s, es, s.draw(es.size()), ps, sp);
		}
		for (size_t i = 0; i < es.size(); i++)
			check(s, es, i, ps, sp);
		// released from the operands up: users keep what they need
		std::vector<size_t> order;
		for (size_t i = 0; i < es.size(); i++)
			order.push_back(i);
		bool up = s.coin();
		if (!up)
			std::reverse(order.begin(), order.end());
		for (size_t i : order) {
			if (up && i + 1 < es.size())
				check(s, es, es.size() - 1, ps, sp);
			OK(ccs_release_object(es[i].h));
			es[i].refs--;
			if (!up)
				for (auto &a : es[i].a)
					if (a.ex >= 0)
						es[(size_t)a.ex].refs--;
		}
		s.feature(shape);
		s.nontrivial(depth >= 2 && shared);
		s.label_if(shared, "shared sub-expression");
		s.label_if(refused, "refused");
		s.label_if(depth >= 3, "depth 3 or more");
	}
	CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain", pbt::vp_live_allocs - live0);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P18";
	c.rule = "graphs of up to 14 expressions over up to 5 parameters and 3 spaces; non-trivial: depth at least two and a shared sub-expression";
	c.assumptions = {};
	c.quick_cases    = 20000;
	c.thorough_cases = 600000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
