// P13: a configuration is valid exactly when the rules of its space say so.
#include "gen.hpp"

static D
no_nan(D d)
{
	if (d.t == CCS_DATA_TYPE_FLOAT && std::isnan(d.f))
		return D::F(0.5);
	return d;
}
static void
body(Src &s)
{
	Pool   pool;
	CSOpts o;
	o.max_p        = s.chance(1, 6) ? 9 : 5;
	o.cond_pct     = 55;
	o.max_forb     = 3;
	o.safe         = s.chance(4, 5);
	o.expr_depth   = s.chance(1, 4) ? 3 : 2;
	o.po.none_vals = true;
	CSpace c       = gen_cspace(s, pool, o);
	size_t n       = c.ps.size();
	CSpace other;
	ccs_configuration_t foreign = nullptr;
	if (s.chance(1, 5)) { // a space with the same parameters
		ccs_configuration_space_t h = nullptr;
		OK(ccs_create_configuration_space("cs", &h));
		pool.add(h);
		for (auto &p : c.ps)
			OK(ccs_configuration_space_add_parameter(h, p.h, nullptr));
		OK(ccs_configuration_space_get_default_configuration(h, &foreign));
		pool.add(foreign);
	}
	size_t rounds = 1 + s.draw(8);
	bool   seen_valid = false, seen_invalid = false;
	for (size_t r = 0; r < rounds; r++) {
		std::vector<D> v;
		bool           er = false;
		int            how = (int)s.weighted({4, 6, 2});
		for (auto &p : c.ps)
			v.push_back(how == 2 ? no_nan(s.chance(1, 5) ? D::inactive() : p.gen_near(s)) : p.gen_in(s));
		if (how < 2)
			v = c.settle(v, &er);
		if (how == 1) { // spoil one or two values
			size_t k = 1 + s.draw(2);
			for (size_t j = 0; j < k; j++) {
				size_t i = s.draw(n);
				switch (s.weighted({2, 2, 2})) {
				case 0:
					v[i] = D::inactive();
					break;
				case 1:
					v[i] = c.ps[i].gen_in(s);
					break;
				default:
					v[i] = no_nan(c.ps[i].gen_near(s));
				}
			}
		}
		std::string     why;
		CSpace::Verdict want = c.check(v, &why);
		s.log("values %s -> %s %s\n", strv(v).c_str(),
		      want == CSpace::VALID ? "valid" : want == CSpace::INVALID ? "invalid" : "error", why.c_str());
		std::vector<ccs_datum_t> vals = refs(v), before = vals;
		for (int route = 0; route < 4; route++) {
			ccs_bool_t          got = (ccs_bool_t)77;
			ccs_result_t        rc;
			ccs_configuration_t cfg = nullptr;
			const char         *name;
			if (route == 0) {
				name = "check_configuration_values";
				rc   = ccs_configuration_space_check_configuration_values(c.h, n, vals.data(), &got);
				CHECK(memcmp(vals.data(), before.data(), n * sizeof vals[0]) == 0, "values modified");
			} else {
				if (route < 3) {
					OK(ccs_create_configuration(c.h, n, vals.data(), &cfg));
				} else { // stored one at a time
					OK(ccs_create_configuration(c.h, 0, nullptr, &cfg));
					for (size_t i = 0; i < n; i++)
						OK(ccs_configuration_set_value(cfg, i, vals[i]));
				}
				pool.add(cfg);
				name = route == 2 ? "configuration_check" : "check_configuration";
				rc   = route == 2 ? ccs_configuration_check(cfg, &got) :
						    ccs_configuration_space_check_configuration(c.h, cfg, &got);
				std::vector<D> after = config_values(cfg, n);
				CHECK(after == v, "%s changed the configuration from %s to %s", name,
				      strv(v).c_str(), strv(after).c_str());
			}
			if (want == CSpace::VALID) {
				CHECK(rc == CCS_RESULT_SUCCESS, "%s of the valid %s failed: %s\n%s", name,
				      strv(v).c_str(), err_text(rc).c_str(), c.str().c_str());
				CHECK(got == CCS_TRUE, "%s reports %s as invalid\n%s", name, strv(v).c_str(),
				      c.str().c_str());
			} else if (rc < 0)
				ccs_clear_thread_error();
			else {
				CHECK(want == CSpace::INVALID, "%s of %s gave %d although %s\n%s", name,
				      strv(v).c_str(), (int)got, why.c_str(), c.str().c_str());
				CHECK(got == CCS_FALSE, "%s reports %s as valid although %s\n%s", name,
				      strv(v).c_str(), why.c_str(), c.str().c_str());
			}
		}
		(want == CSpace::VALID ? seen_valid : seen_invalid) = true;
		s.label(want == CSpace::VALID ? "valid" : want == CSpace::INVALID ? "invalid" : "error");
		// the wrong number of values
		if (s.chance(1, 4)) {
			auto       w = vals;
			ccs_bool_t got;
			w.push_back(ccs_inactive);
			ERR(ccs_configuration_space_check_configuration_values(c.h, n + 1, w.data(), &got),
			    CCS_RESULT_ERROR_INVALID_CONFIGURATION);
			if (n > 1)
				ERR(ccs_configuration_space_check_configuration_values(c.h, n - 1, w.data(), &got),
				    CCS_RESULT_ERROR_INVALID_CONFIGURATION);
		}
		if (foreign) {
			ccs_bool_t got;
			ERR(ccs_configuration_space_check_configuration(c.h, foreign, &got),
			    CCS_RESULT_ERROR_INVALID_CONFIGURATION);
		}
	}
	// checking left the space alone
	for (size_t i = 0; i < n; i++) {
		ccs_expression_t x = nullptr;
		OK(ccs_configuration_space_get_condition(c.h, i, &x));
		CHECK(x == c.cond_h[i], "condition %zu changed", i);
	}
	size_t nc = 0, nf = 0;
	for (auto &e : c.cond)
		nc += !!e;
	OK(ccs_configuration_space_get_forbidden_clauses(c.h, 0, nullptr, &nf));
	CHECK(nf == c.forb.size(), "number of forbidden clauses changed");
	s.nontrivial((nc || nf) && seen_invalid);
	s.feature(pbt::hstr(c.str()));
	s.label_if(nc > 0, "conditions");
	s.label_if(nc > 2, "three conditions or more");
	s.label_if(nf > 0, "forbidden clauses");
	s.label_if(!o.safe, "conditions of any type");
	s.label_if(seen_valid && seen_invalid, "valid and invalid");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P13";
	c.rule = "random spaces with conditions and forbidden clauses declared in random order, checked on settled, spoiled and arbitrary values; non-trivial: the space has a condition or a clause and an invalid assignment was checked";
	c.assumptions = {"values are not NaN", "an invalid configuration on which a condition cannot be evaluated may give an error instead of false"};
	c.quick_cases    = 40000;
	c.thorough_cases = 1000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
