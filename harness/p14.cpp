// P14: every configuration a space hands out is valid, and the valid ones come
// with the law of the parameters restricted to valid configurations.
#include "law.hpp"

static void
body(Src &s)
{
	Pool   pool;
	CSOpts o;
	bool   tiny    = s.coin();
	o.max_p        = tiny ? 3 : s.chance(1, 6) ? 9 : 5;
	o.cond_pct     = 50;
	o.max_forb     = tiny ? 2 : 3;
	o.dists        = true;
	o.po.none_vals = true;
	o.po.max_vals  = tiny ? 3 : 5;
	CSpace c       = gen_cspace(s, pool, o);
	size_t n       = c.ps.size();

	// the default configuration
	{
		bool           er   = false;
		std::vector<D> want = c.defaults(&er);
		ccs_configuration_t cfg = nullptr;
		ccs_result_t        rc  = ccs_configuration_space_get_default_configuration(c.h, &cfg);
		if (er) {
			CHECK(rc < 0 && !cfg, "default configuration although a condition cannot be evaluated");
			ccs_clear_thread_error();
		} else {
			OK(rc);
			pool.add(cfg);
			std::vector<D> got = config_values(cfg, n);
			CHECK(got == want, "default configuration %s instead of %s\n%s", strv(got).c_str(),
			      strv(want).c_str(), c.str().c_str());
			std::string why;
			CHECK(c.check(got, &why) == CSpace::VALID, "default configuration %s: %s",
			      strv(got).c_str(), why.c_str());
		}
	}
	// the law of the configurations, when it can be enumerated
	std::map<std::vector<D>, double> law;
	double p_valid = -1, reach = 1, joint = 1;
	bool   err = false;
	{
		std::vector<std::vector<Atom>> at(n);
		bool   small = true;
		double combos = 1;
		for (size_t i = 0; i < n; i++) {
			Dist   d = c.dist[i] ? *c.dist[i] : default_dist(c.ps[i]);
			double m;
			if (!atoms(c.ps[i], d, at[i], &m)) {
				small = false;
				double lo = c.ps[i].lf, hi = c.ps[i].uf;
				if (c.ps[i].kind == Param::INT)
					lo = (double)c.ps[i].li, hi = (double)c.ps[i].ui;
				m = c.ps[i].kind == Param::FLOAT || c.ps[i].kind == Param::INT ?
					    prob(d, {{0, lo, hi}}) :
					    0;
			}
			// a joint sample counts when all of its components do
			if (std::find(c.joint.begin(), c.joint.end(), i) != c.joint.end())
				joint *= m;
			reach = std::min({reach, m, joint});
			combos *= (double)std::max<size_t>(1, at[i].size());
		}
		if (small && combos <= 300) {
			std::vector<size_t> k(n, 0);
			p_valid = 0;
			for (;;) {
				std::vector<D> v;
				double         p = 1;
				for (size_t i = 0; i < n; i++) {
					v.push_back(at[i][k[i]].v);
					p *= at[i][k[i]].p;
				}
				v = c.settle(v, &err);
				bool fe = false;
				if (!c.forbidden(v, &fe)) {
					law[v] += p;
					p_valid += p;
				}
				err |= fe;
				size_t i = 0;
				while (i < n && ++k[i] == at[i].size())
					k[i++] = 0;
				if (i == n)
					break;
			}
		}
	}
	size_t rounds = 1 + s.draw(3);
	bool   law_round = p_valid > 0.02 && !err && s.chance(1, 6);
	std::map<std::vector<D>, size_t> seen;
	size_t total = 0;
	bool   some_inactive = false, failed = false;
	for (size_t r = 0; r < rounds + law_round; r++) {
		size_t k   = r == rounds ? 400 : s.chance(1, 12) ? 0 : 1 + s.draw(s.coin() ? 3 : 20);
		bool   one = k == 1 && s.coin();
		std::vector<ccs_configuration_t> out(k + 1, (ccs_configuration_t)0x5a5a);
		long         live = pbt::vp_live_allocs;
		ccs_result_t rc   = one ? ccs_configuration_space_sample(c.h, out.data()) :
					  ccs_configuration_space_samples(c.h, k, out.data());
		CHECK(out[k] == (ccs_configuration_t)0x5a5a, "written past the end");
		if (rc != CCS_RESULT_SUCCESS) {
			bool expected = err || p_valid < 0 || p_valid < 0.5 || reach < 0.5;
			if (p_valid < 0 && c.forb.empty() && reach >= 0.5)
				expected = false;
			CHECK(expected, "sampling failed although %.3f of the configurations are valid: %s", p_valid,
			      err_text(rc).c_str());
			CHECK(rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL || err || p_valid < 0,
			      "sampling failed with %s", rname(rc));
			ccs_clear_thread_error();
			for (size_t i = 0; i < k; i++)
				CHECK(out[i] == nullptr || out[i] == (ccs_configuration_t)0x5a5a,
				      "unsuccessful sampling handed out a configuration");
			CHECK(pbt::vp_live_allocs == live, "unsuccessful sampling leaked %ld allocations",
			      pbt::vp_live_allocs - live);
			failed = true;
			continue;
		}
		std::set<ccs_configuration_t> distinct;
		for (size_t i = 0; i < k; i++) {
			CHECK(out[i] && distinct.insert(out[i]).second, "configuration %zu missing or repeated", i);
			ccs_configuration_space_t cs = nullptr;
			OK(ccs_configuration_get_configuration_space(out[i], &cs));
			CHECK(cs == c.h, "configuration of another space");
			std::vector<D>  v = config_values(out[i], n);
			std::string     why;
			CSpace::Verdict ver = c.check(v, &why);
			CHECK(ver == CSpace::VALID, "sampled %s: %s\n%s", strv(v).c_str(), why.c_str(),
			      c.str().c_str());
			ccs_bool_t ok = CCS_FALSE;
			if (i < 5) {
				OK(ccs_configuration_check(out[i], &ok));
				CHECK(ok == CCS_TRUE, "the space refuses its own sample %s", strv(v).c_str());
			}
			for (auto &x : v)
				some_inactive |= x.t == CCS_DATA_TYPE_INACTIVE;
			if (!law.empty())
				CHECK(law.count(v), "sampled %s, which the distributions cannot give\n%s",
				      strv(v).c_str(), c.str().c_str());
			seen[v]++;
			total++;
			OK(ccs_release_object(out[i]));
		}
		CHECK(pbt::vp_live_allocs == live, "sampling leaked %ld allocations", pbt::vp_live_allocs - live);
	}
	if (law_round && total >= 400 && !failed)
		for (auto &kv : law) {
			s.label("law checked");
			CHECK(!implausible(seen[kv.first], total, kv.second / p_valid),
			      "%s sampled %zu times out of %zu, probability %.6f\n%s", strv(kv.first).c_str(),
			      seen[kv.first], total, kv.second / p_valid, c.str().c_str());
		}
	size_t nc = 0;
	for (auto &e : c.cond)
		nc += !!e;
	s.nontrivial(total > 0 && (nc || !c.forb.empty()));
	s.feature(pbt::hstr(c.str()));
	s.label_if(some_inactive, "inactive parameters sampled");
	s.label_if(failed, "sampling unsuccessful");
	s.label_if(p_valid >= 0 && p_valid < 1 - 1e-9 && total, "forbidden samples rejected");
	s.label_if(p_valid >= 0, "enumerable space");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P14";
	c.rule = "random spaces with conditions, clauses and distributions, sampled one by one and in batches; non-trivial: a configuration was sampled from a space with conditions or clauses";
	c.assumptions = {"sampling may give up when less than half of the configurations are valid",
			 "the law is compared on spaces of at most 300 combinations, by a Chernoff bound below 1e-15"};
	c.quick_cases    = 16000;
	c.thorough_cases = 800000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
