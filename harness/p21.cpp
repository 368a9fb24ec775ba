// P21: evaluations compare by Pareto dominance of their objective values.
#include "bind.hpp"

static D
value(Src &s)
{
	switch (s.weighted({6, 6, 1, 1, 1, 1})) {
	case 0: return D::F((double)s.draw(4) / 2);
	case 1: return D::I((int64_t)s.draw(4));
	case 2: {
		static const double sp[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, -1.5, 1e300, -1e300, 0x1p53};
		return D::F(sp[s.draw(10)]);
	}
	case 3: {
		static const int64_t sp[] = {INT64_MIN, INT64_MAX, -1, INT64_MIN + 1, INT64_C(1) << 32, (INT64_C(1) << 53) + 1, INT64_C(1) << 53};
		return D::I(sp[s.draw(7)]);
	}
	case 4: return gen_scalar(s);
	default: return D::inactive();
	}
}
struct Ob {
	ccs_binding_t  h;
	std::vector<D> v;
	Deps           d;
};
enum { R_ERR = 100, R_ERR_OR_NC };
// the outcome that dominance prescribes
static int
expected(const BCtx &c, const Ob &a, const Ob &b, bool *skip)
{
	if (a.h == b.h)
		return CCS_COMPARISON_EQUIVALENT;
	if (a.d.result || b.d.result)
		return R_ERR;
	if (c.kind == B_FEVAL && a.d.feat % 2 != b.d.feat % 2)
		return CCS_COMPARISON_NOT_COMPARABLE;
	bool a_better = false, b_better = false, unordered = false, err = false;
	for (auto &o : c.objs) {
		Ev x = ref_eval(o.e, c.ps, a.v), y = ref_eval(o.e, c.ps, b.v);
		if (x.err || y.err) {
			err = true;
			continue;
		}
		for (const Ev *e : {&x, &y}) // overflow is not part of the claim
			if (o.e.op != CCS_EXPRESSION_TYPE_VARIABLE && e->v.t == CCS_DATA_TYPE_INT &&
			    (e->v.i > (INT64_C(1) << 40) || e->v.i < -(INT64_C(1) << 40)))
				*skip = true;
		if (!x.v.is_num() || x.v.t != y.v.t) {
			unordered = true;
			continue;
		}
		bool lt, gt;
		if (x.v.t == CCS_DATA_TYPE_FLOAT) {
			if (std::isnan(x.v.f) || std::isnan(y.v.f)) {
				unordered = true;
				continue;
			}
			lt = x.v.f < y.v.f;
			gt = x.v.f > y.v.f;
		} else {
			lt = x.v.i < y.v.i;
			gt = x.v.i > y.v.i;
		}
		if (o.t == CCS_OBJECTIVE_TYPE_MAXIMIZE)
			std::swap(lt, gt);
		a_better |= lt;
		b_better |= gt;
	}
	bool nc = unordered || (a_better && b_better);
	if (err)
		return nc ? R_ERR_OR_NC : R_ERR;
	if (nc)
		return CCS_COMPARISON_NOT_COMPARABLE;
	return a_better ? CCS_COMPARISON_BETTER : b_better ? CCS_COMPARISON_WORSE : CCS_COMPARISON_EQUIVALENT;
}
static void
body(Src &s)
{
	Pool   pool;
	BK     kind = (BK)(B_EVAL + s.draw(3));
	BCtx   c    = make_ctx(s, pool, kind);
	size_t n    = s.chance(1, 5) ? s.size(5, 9) : s.size(1, 4), m = s.chance(1, 5) ? s.size(5, 9) : s.size(0, 4);
	for (size_t i = 0; i < n; i++) {
		Param p;
		p.kind = s.coin() ? Param::FLOAT : Param::INT;
		p.ui   = 1000;
		p.uf   = 1000;
		p.name = sfmt("p%zu", i);
		build_param(p, pool);
		OK(ctx_add(c, p.h));
		c.ps.push_back(p);
	}
	std::vector<int> all;
	for (size_t i = 0; i < n; i++)
		all.push_back((int)i);
	for (size_t i = 0; i < m; i++) {
		Objective o;
		o.e = s.chance(3, 4) ? E::V((int)s.draw(n)) : gen_num_expr(s, c.ps, all, 1);
		o.t = s.coin() ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE;
		o.h = build_expr(o.e, c.ps, pool);
		OK(ccs_objective_space_add_objective((ccs_objective_space_t)c.h, o.h, o.t));
		c.objs.push_back(o);
		s.log("%s %s\n", o.t == CCS_OBJECTIVE_TYPE_MAXIMIZE ? "max" : "min", o.e.str(c.ps).c_str());
	}
	// evaluations; values of one column have one type most of the time
	std::vector<int> col(n);
	for (auto &x : col)
		x = (int)s.draw(2);
	std::vector<Ob> es;
	size_t          cnt = s.size(2, 6);
	for (size_t i = 0; i < cnt; i++) {
		Ob e;
		for (size_t j = 0; j < n; j++) {
			D v = value(s);
			if (v.is_num() && s.chance(9, 10)) {
				if (col[j] && v.t == CCS_DATA_TYPE_INT)
					v = D::F((double)v.i);
				else if (!col[j] && v.t == CCS_DATA_TYPE_FLOAT)
					v = D::I((int64_t)std::max(-1e15, std::min(1e15, std::isnan(v.f) ? 0.0 : 2 * v.f)));
			} else if (!v.is_num() && s.chance(2, 3))
				v = col[j] ? D::F(0.5) : D::I(1);
			e.v.push_back(v);
		}
		if (!es.empty() && s.coin()) {
			e.v = s.pick(es).v;
			if (s.coin()) {
				size_t j = s.draw(n);
				e.v[j]   = col[j] ? D::F((double)s.draw(4) / 2) : D::I((int64_t)s.draw(4));
			}
		}
		e.d.conf   = s.draw(4);
		e.d.feat   = s.chance(1, 4) ? 1 : 2 * s.draw(2);
		e.d.result = s.chance(1, 10) ? (ccs_evaluation_result_t)(s.coin() ? 1 : -3) : CCS_RESULT_SUCCESS;
		std::vector<ccs_datum_t> a = stables(e.v);
		OK(b_create(c, e.d, n, a.data(), &e.h));
		pool.add(e.h);
		s.log("%zu: %s feat %zu result %d\n", i, strv(e.v).c_str(), e.d.feat % 2, (int)e.d.result);
		es.push_back(e);
	}
	int  R[8][8];
	bool skip = false;
	std::set<int> seen;
	for (size_t i = 0; i < cnt; i++)
		for (size_t j = 0; j < cnt; j++) {
			bool sk   = false;
			int  want = expected(c, es[i], es[j], &sk);
			ccs_comparison_t r  = (ccs_comparison_t)77;
			ccs_result_t     rc = b_compare(kind, es[i].h, es[j].h, &r);
			R[i][j]             = rc < 0 ? R_ERR : (int)r;
			if (rc < 0)
				ccs_clear_thread_error();
			skip |= sk;
			if (sk)
				continue;
			if (want == R_ERR_OR_NC)
				CHECK(R[i][j] == R_ERR || R[i][j] == CCS_COMPARISON_NOT_COMPARABLE, "%zu and %zu compare %d", i, j, R[i][j]);
			else {
				CHECK(R[i][j] == want, "%zu and %zu compare %d instead of %d", i, j, R[i][j], want);
				seen.insert(want);
			}
		}
	for (size_t i = 0; i < cnt; i++)
		for (size_t j = 0; j < cnt; j++) {
			if (R[i][j] == CCS_COMPARISON_BETTER)
				CHECK(R[j][i] == CCS_COMPARISON_WORSE, "%zu and %zu not antisymmetric", i, j);
			if (R[i][j] == CCS_COMPARISON_EQUIVALENT)
				CHECK(R[j][i] == CCS_COMPARISON_EQUIVALENT, "%zu and %zu not symmetric", i, j);
			if (R[i][j] == CCS_COMPARISON_BETTER)
				for (size_t k = 0; k < cnt; k++)
					if (R[j][k] == CCS_COMPARISON_BETTER || R[j][k] == CCS_COMPARISON_EQUIVALENT)
						CHECK(R[i][k] == CCS_COMPARISON_BETTER, "%zu, %zu and %zu not transitive", i, j, k);
		}
	// comparing changes nothing
	for (auto &e : es)
		CHECK(config_values(e.h, n) == e.v, "values changed");
	// another space, with the same parameters and objectives
	BCtx t = make_ctx(s, pool, kind);
	for (auto &p : c.ps)
		OK(ctx_add(t, p.h));
	for (auto &o : c.objs)
		OK(ccs_objective_space_add_objective((ccs_objective_space_t)t.h, o.h, o.t));
	std::vector<ccs_datum_t> a = stables(es[0].v);
	ccs_binding_t            b = nullptr;
	Deps                     d;
	OK(b_create(t, d, n, a.data(), &b));
	pool.add(b);
	ccs_comparison_t r;
	ANYERR(b_compare(kind, b, es[0].h, &r));
	ANYERR(b_compare(kind, es[0].h, b, &r));
	s.nontrivial(m >= 2 && seen.size() >= 3);
	uint64_t h = pbt::hcomb(kind, m);
	for (auto &e : es)
		h = pbt::hcomb(h, pbt::hstr(strv(e.v)));
	s.feature(h);
	s.label(bk_names[kind]);
	s.label_if(seen.count(CCS_COMPARISON_BETTER), "better");
	s.label_if(seen.count(CCS_COMPARISON_NOT_COMPARABLE), "not comparable");
	s.label_if(seen.count(CCS_COMPARISON_EQUIVALENT), "equivalent");
	s.label_if(seen.count(R_ERR), "refused");
	s.label_if(skip, "overflow skipped");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P21";
	c.rule = "two to six evaluations of one objective space with dense ties, all pairs and triples compared with a reference dominance test; non-trivial: two objectives or more and three different outcomes seen";
	c.assumptions = {"integer objective expressions that leave +-2^40 are not compared with the reference"};
	c.quick_cases    = 40000;
	c.thorough_cases = 1500000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
