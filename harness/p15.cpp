// P15: after any sequence of accepted and refused edits a space behaves as one
// built with the accepted edits only.
#include "gen.hpp"

struct St {
	Pool               pool;
	CSpace             c;
	std::vector<Param> foreign;
	size_t             serial = 0;
	std::vector<int>   all() const
	{
		std::vector<int> r;
		for (size_t i = 0; i < c.ps.size(); i++)
			r.push_back((int)i);
		return r;
	}
};

static void
observe(Src &s, St &st, bool deep)
{
	CSpace &c = st.c;
	size_t  n = c.ps.size(), k = 77;
	OK(ccs_configuration_space_get_num_parameters(c.h, &k));
	CHECK(k == n, "%zu parameters instead of %zu", k, n);
	std::vector<ccs_parameter_t> hs(n + 3, (ccs_parameter_t)0x5a5a);
	size_t room = n + s.draw(3);
	if (room) {
		OK(ccs_configuration_space_get_parameters(c.h, room, hs.data(), &k));
		CHECK(k == n, "get_parameters reports %zu", k);
		for (size_t i = 0; i < n; i++)
			CHECK(hs[i] == c.ps[i].h, "parameter %zu is not the one added", i);
		for (size_t i = n; i < room; i++)
			CHECK(hs[i] == nullptr, "unused place %zu not cleared", i);
		CHECK(hs[room] == (ccs_parameter_t)0x5a5a, "written past the end");
		std::vector<ccs_expression_t> xs(n + 3, (ccs_expression_t)0x5a5a);
		OK(ccs_configuration_space_get_conditions(c.h, room, xs.data(), &k));
		CHECK(k == n, "get_conditions reports %zu", k);
		for (size_t i = 0; i < n; i++)
			CHECK(xs[i] == c.cond_h[i], "condition of %s is not the accepted one", c.ps[i].name.c_str());
		for (size_t i = n; i < room; i++)
			CHECK(xs[i] == nullptr, "unused place %zu not cleared", i);
		CHECK(xs[room] == (ccs_expression_t)0x5a5a, "written past the end");
	}
	if (n > 0) {
		size_t          i = s.draw(n), ix = 77;
		ccs_parameter_t h = nullptr;
		OK(ccs_configuration_space_get_parameter(c.h, i, &h));
		CHECK(h == c.ps[i].h, "parameter %zu", i);
		OK(ccs_configuration_space_get_parameter_by_name(c.h, TmpStr(c.ps[i].name), &h));
		CHECK(h == c.ps[i].h, "parameter named %s", c.ps[i].name.c_str());
		OK(ccs_configuration_space_get_parameter_index_by_name(c.h, TmpStr(c.ps[i].name), &ix));
		CHECK(ix == i, "index of the name %s is %zu", c.ps[i].name.c_str(), ix);
		OK(ccs_configuration_space_get_parameter_index(c.h, c.ps[i].h, &ix));
		CHECK(ix == i, "index of %s is %zu", c.ps[i].name.c_str(), ix);
		size_t                       m = 1 + s.draw(n + 1);
		std::vector<ccs_parameter_t> q;
		std::vector<size_t>          want, got(m, 77);
		for (size_t j = 0; j < m; j++) {
			size_t x = s.draw(n);
			want.push_back(x);
			q.push_back(c.ps[x].h);
		}
		OK(ccs_configuration_space_get_parameter_indexes(c.h, m, q.data(), got.data()));
		CHECK(got == want, "indexes of several parameters");
		ccs_expression_t x = nullptr;
		OK(ccs_configuration_space_get_condition(c.h, i, &x));
		CHECK(x == c.cond_h[i], "condition of %s", c.ps[i].name.c_str());
	}
	{
		ccs_parameter_t h;
		ANYERR(ccs_configuration_space_get_parameter(c.h, n + s.draw(2), &h));
		ANYERR(ccs_configuration_space_get_parameter_by_name(c.h, "no such name", &h));
		if (!st.foreign.empty()) {
			size_t ix;
			ANYERR(ccs_configuration_space_get_parameter_index(c.h, st.foreign[0].h, &ix));
		}
	}
	size_t nf = c.forb_h.size();
	OK(ccs_configuration_space_get_forbidden_clauses(c.h, 0, nullptr, &k));
	CHECK(k == nf, "%zu clauses instead of %zu", k, nf);
	if (nf) {
		std::vector<ccs_expression_t> xs(nf + 2, (ccs_expression_t)0x5a5a);
		size_t                        r = nf + s.draw(2);
		OK(ccs_configuration_space_get_forbidden_clauses(c.h, r, xs.data(), &k));
		for (size_t i = 0; i < nf; i++) {
			CHECK(xs[i] == c.forb_h[i], "clause %zu is not the accepted one", i);
			ccs_expression_t x = nullptr;
			OK(ccs_configuration_space_get_forbidden_clause(c.h, i, &x));
			CHECK(x == c.forb_h[i], "clause %zu", i);
		}
		for (size_t i = nf; i < r; i++)
			CHECK(xs[i] == nullptr, "unused place not cleared");
	}
	{
		ccs_expression_t x;
		ANYERR(ccs_configuration_space_get_forbidden_clause(c.h, nf, &x));
	}
	// behaviour
	bool                er  = false;
	std::vector<D>      dv  = c.defaults(&er);
	ccs_configuration_t cfg = nullptr;
	OK(ccs_configuration_space_get_default_configuration(c.h, &cfg));
	std::vector<D> got = config_values(cfg, n);
	OK(ccs_release_object(cfg));
	CHECK(got == dv, "default configuration %s instead of %s\n%s", strv(got).c_str(), strv(dv).c_str(),
	      c.str().c_str());
	if (!deep || !n)
		return;
	size_t rounds = 1 + s.draw(3);
	for (size_t r = 0; r < rounds; r++) {
		std::vector<D> v;
		for (auto &p : c.ps)
			v.push_back(p.gen_in(s));
		v = c.settle(v, &er);
		if (s.coin()) {
			size_t i = s.draw(n);
			v[i]     = s.coin() ? D::inactive() : c.ps[i].gen_in(s);
		}
		std::string     why;
		CSpace::Verdict want = c.check(v, &why);
		auto            vals = refs(v);
		ccs_bool_t      ok   = (ccs_bool_t)77;
		ccs_result_t    rc   = ccs_configuration_space_check_configuration_values(c.h, n, vals.data(), &ok);
		if (want == CSpace::VALID) {
			OK(rc);
			CHECK(ok == CCS_TRUE, "%s is refused\n%s", strv(v).c_str(), c.str().c_str());
		} else if (rc < 0)
			ccs_clear_thread_error();
		else
			CHECK(ok == CCS_FALSE, "%s is accepted although %s\n%s", strv(v).c_str(), why.c_str(),
			      c.str().c_str());
	}
	if (s.coin()) {
		ccs_configuration_t cf = nullptr;
		ccs_result_t        rc = ccs_configuration_space_sample(c.h, &cf);
		if (rc < 0)
			ccs_clear_thread_error();
		else {
			std::vector<D> v = config_values(cf, n);
			std::string    why;
			OK(ccs_release_object(cf));
			CHECK(c.check(v, &why) == CSpace::VALID, "sampled %s: %s\n%s", strv(v).c_str(),
			      why.c_str(), c.str().c_str());
		}
	}
}
static void
body(Src &s)
{
	St      st;
	CSpace &c = st.c;
	OK(ccs_create_configuration_space("cs", &c.h));
	st.pool.add(c.h);
	ccs_rng_t rng = make_rng(st.pool, s.draw(1000));
	OK(ccs_configuration_space_set_rng(c.h, rng));
	ParamOpts po;
	po.none_vals = true;
	size_t steps = 3 + s.draw(22);
	size_t refused = 0, accepted = 0, cycles = 0;
	for (size_t step = 0; step < steps; step++) {
		size_t n  = c.ps.size();
		int    op = (int)s.weighted({4, 1, 6, 3, 2});
		if (n == 0 && op > 1)
			op = 0;
		switch (op) {
		case 0: { // parameters, accepted
			if (n >= 8)
				break;
			size_t                          m = s.chance(1, 4) ? 1 + s.draw(3) : 1;
			std::vector<ccs_parameter_t>    hs;
			std::vector<ccs_distribution_t> ds;
			bool                            with = s.chance(1, 4);
			for (size_t i = 0; i < m; i++) {
				// names that are prefixes of each other
				Param p = gen_param(s, st.pool, s.chance(1, 4) ? std::string(st.serial + 1, 'n') : sfmt("p%zu", st.serial), po);
				st.serial++;
				s.log("add %s\n", p.str().c_str());
				hs.push_back(p.h);
				ccs_distribution_t d = nullptr;
				if (with && s.coin()) {
					OK(ccs_parameter_get_default_distribution(p.h, &d));
					st.pool.add(d);
				}
				ds.push_back(d);
				c.ps.push_back(p);
				c.cond.emplace_back();
				c.cond_h.push_back(nullptr);
			}
			if (m == 1 && s.coin())
				OK(ccs_configuration_space_add_parameter(c.h, hs[0], ds[0]));
			else
				OK(ccs_configuration_space_add_parameters(c.h, m, hs.data(), with ? ds.data() : nullptr));
			accepted++;
			break;
		}
		case 1: { // parameters, refused
			ParamOpts   bo = po;
			std::string name = sfmt("p%zu", st.serial++);
			int         how = (int)s.draw(n ? 4 : 2);
			s.log("refused parameter %d\n", how);
			Param p;
			Dist  d;
			switch (how) {
			case 0:
				bo.num = bo.cat = bo.ord = bo.disc = false;
				bo.str = true;
				p      = gen_param(s, st.pool, name, bo);
				ANYERR(ccs_configuration_space_add_parameter(c.h, p.h, nullptr));
				break;
			case 1: {
				p      = gen_param(s, st.pool, name, bo);
				d.kind = Dist::MULTI;
				size_t m = 2 + s.draw(2);
				for (size_t i = 0; i < m; i++)
					d.subs.push_back(gen_uniform(s, true, false));
				build_dist(d, st.pool);
				ANYERR(ccs_configuration_space_add_parameter(c.h, p.h, d.h));
				break;
			}
			case 2: // a name that is taken
				p = gen_param(s, st.pool, c.ps[s.draw(n)].name, bo);
				ANYERR(ccs_configuration_space_add_parameter(c.h, p.h, nullptr));
				break;
			default: // a parameter that is already there
				ANYERR(ccs_configuration_space_add_parameter(c.h, c.ps[s.draw(n)].h, nullptr));
			}
			if (how < 3)
				st.foreign.insert(st.foreign.begin(), p);
			refused++;
			break;
		}
		case 2: { // a condition
			size_t i   = s.draw(n);
			int    how = (int)s.weighted({8, 1, 1});
			if (how == 1) {
				E                e = gen_bool_expr(s, c.ps, st.all(), 1);
				ccs_expression_t x = build_expr(e, c.ps, st.pool, &s);
				ANYERR(ccs_configuration_space_set_condition(c.h, n + s.draw(2), x));
				refused++;
				break;
			}
			if (how == 2) { // a foreign parameter
				if (st.foreign.empty() || c.cond[i])
					break;
				std::vector<Param> ps = c.ps;
				Param              f  = st.foreign[s.draw(st.foreign.size())];
				f.name                = "foreign";
				ps.push_back(f);
				E e = E::N(CCS_EXPRESSION_TYPE_AND,
					   {gen_bool_expr(s, c.ps, st.all(), 1),
					    E::N(CCS_EXPRESSION_TYPE_EQUAL,
						 {E::V((int)n), E::L(D::I(0))})});
				s.log("refused foreign condition of %s: %s\n", c.ps[i].name.c_str(), e.str(ps).c_str());
				ccs_expression_t x = build_expr(e, ps, st.pool, &s);
				ANYERR(ccs_configuration_space_set_condition(c.h, i, x));
				refused++;
				break;
			}
			// mostly on the others, so that long cycles appear
			std::vector<int> al = st.all();
			if (s.chance(9, 10))
				al.erase(al.begin() + (long)i);
			E                e = gen_bool_expr(s, c.ps, al, 2);
			ccs_expression_t x = build_expr(e, c.ps, st.pool, &s);
			bool             has = !!c.cond[i], cyc = c.would_cycle((int)i, e);
			s.log("condition of %s: %s%s\n", c.ps[i].name.c_str(), e.str(c.ps).c_str(),
			      has ? " (has one)" : cyc ? " (cycle)" : "");
			if (has) {
				ANYERR(ccs_configuration_space_set_condition(c.h, i, x));
				refused++;
			} else if (cyc) {
				ERR(ccs_configuration_space_set_condition(c.h, i, x), CCS_RESULT_ERROR_INVALID_GRAPH);
				refused++;
				cycles++;
				s.label_if(e.count() > 0, "cycle refused");
			} else {
				OK(ccs_configuration_space_set_condition(c.h, i, x));
				c.cond[i]   = e;
				c.cond_h[i] = x;
				accepted++;
			}
			break;
		}
		case 3: { // a clause
			E    e = gen_bool_expr(s, c.ps, st.all(), 2);
			bool er = false, de = false;
			std::vector<D> dv = c.defaults(&de);
			bool t = ref_true(e, c.ps, dv, &er);
			if (t && s.chance(2, 3)) {
				e = E::N(CCS_EXPRESSION_TYPE_NOT, {e});
				t = ref_true(e, c.ps, dv, &er);
			}
			if (er || de)
				break;
			ccs_expression_t x = build_expr(e, c.ps, st.pool, &s);
			s.log("clause %s%s\n", e.str(c.ps).c_str(), t ? " (holds on the default)" : "");
			if (t) {
				ERR(ccs_configuration_space_add_forbidden_clause(c.h, x),
				    CCS_RESULT_ERROR_INVALID_CONFIGURATION);
				refused++;
				s.label("clause refused");
			} else {
				if (s.coin())
					OK(ccs_configuration_space_add_forbidden_clause(c.h, x));
				else
					OK(ccs_configuration_space_add_forbidden_clauses(c.h, 1, &x));
				c.forb.push_back(e);
				c.forb_h.push_back(x);
				accepted++;
			}
			break;
		}
		default: { // a clause on a foreign parameter
			if (st.foreign.empty())
				break;
			std::vector<Param> ps = c.ps;
			ps.push_back(st.foreign[s.draw(st.foreign.size())]);
			E e = E::N(CCS_EXPRESSION_TYPE_EQUAL, {E::V((int)n), E::L(D::I(0))});
			if (s.coin())
				e = E::N(CCS_EXPRESSION_TYPE_OR, {E::L(D::B(false)), e});
			ccs_expression_t x = build_expr(e, ps, st.pool, &s);
			ANYERR(ccs_configuration_space_add_forbidden_clause(c.h, x));
			refused++;
			s.log("refused foreign clause\n");
		}
		}
		if (s.coin())
			observe(s, st, s.coin());
	}
	observe(s, st, true);
	s.nontrivial(accepted >= 3 && refused >= 1);
	s.feature(pbt::hstr(c.str()));
	s.label_if(cycles > 1, "two cycles refused");
	s.label_if(c.forb.size() > 1, "several clauses");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P15";
	c.rule = "random sequences of accepted and refused edits of a space, observed against a model after the steps; non-trivial: at least three accepted edits and one refused";
	c.assumptions = {"conditions and clauses that cannot be evaluated are not generated"};
	c.quick_cases    = 16000;
	c.thorough_cases = 800000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
