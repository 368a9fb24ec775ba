// P16: every parameter of a space is governed by exactly one component of one
// distribution.  Each assigned distribution has values of its own: mode m of
// distribution d gives component k the value d*100 + m*10 + k, all components
// in the same mode, so that a sample tells where every value came from.
#include "gen.hpp"

struct Asg { // a distribution handed to the space
	ccs_distribution_t h = nullptr;
	size_t             id = 0, dim = 1, modes = 1;
	bool               outside = false; // one more mode lies outside the domains
};
struct Own {
	int    asg  = -1; // -1: default distribution
	size_t comp = 0;
};
static int64_t
value(size_t id, size_t mode, size_t comp)
{
	return (int64_t)(id * 100 + mode * 10 + comp);
}
static ccs_distribution_t
point(Src &s, Pool &pool, int64_t v)
{
	ccs_distribution_t d = nullptr;
	OK(ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, NI(v), NI(v + 1), CCS_SCALE_TYPE_LINEAR, NI(0), &d));
	return pool.add(d);
}
static Asg
make(Src &s, Pool &pool, size_t id, size_t dim)
{
	Asg a;
	a.id    = id;
	a.dim   = dim;
	a.modes = 1 + s.draw(4);
	a.outside     = s.chance(1, 5);
	size_t out_at = a.outside ? s.draw(dim) : 0;
	std::vector<ccs_distribution_t> modes;
	for (size_t m = 0; m < a.modes + a.outside; m++) {
		std::vector<ccs_distribution_t> cs;
		for (size_t k = 0; k < dim; k++)
			cs.push_back(point(s, pool, m == a.modes && k == out_at ? 2000000 : value(id, m, k)));
		ccs_distribution_t d = cs[0];
		if (dim > 1) {
			// grouped in any way
			if (dim > 2 && s.coin()) {
				ccs_distribution_t in = nullptr;
				size_t             g  = 2 + s.draw(dim - 2);
				OK(ccs_create_multivariate_distribution(g, cs.data(), &in));
				pool.add(in);
				std::vector<ccs_distribution_t> o = {in};
				o.insert(o.end(), cs.begin() + (long)g, cs.end());
				if (o.size() == 1)
					d = in;
				else {
					OK(ccs_create_multivariate_distribution(o.size(), o.data(), &d));
					pool.add(d);
				}
			} else {
				OK(ccs_create_multivariate_distribution(dim, cs.data(), &d));
				pool.add(d);
			}
		}
		modes.push_back(d);
	}
	if (modes.size() == 1)
		a.h = modes[0];
	else {
		std::vector<ccs_float_t> w(modes.size(), 1.0);
		if (a.outside) // redrawn until another mode comes up
			w.back() = s.coin() ? 1.0 : s.coin() ? 4.0 * (double)a.modes : 15.0 * (double)a.modes;
		OK(ccs_create_mixture_distribution(modes.size(), modes.data(), w.data(), &a.h));
		pool.add(a.h);
	}
	return a;
}
static void
body(Src &s)
{
	long live0 = pbt::vp_live_allocs;
	{
		Pool                      pool;
		ccs_configuration_space_t h = nullptr;
		OK(ccs_create_configuration_space("cs", &h));
		pool.add(h);
		ccs_rng_t rng = make_rng(pool, s.draw(100000));
		OK(ccs_configuration_space_set_rng(h, rng));
		std::vector<ccs_parameter_t> ps;
		std::vector<Own>             own;
		std::vector<Asg>             asg;
		int    forbid_at = -1;
		int64_t forbid_value = 0;
		size_t displaced = 0, joints = 0, refused = 0, steps = 2 + s.draw(14);
		for (size_t step = 0; step < steps; step++) {
			size_t n  = ps.size();
			int    op = n == 0 ? 0 : (int)s.weighted({6, 12, 4, 1});
			if (op == 0 && n >= 7)
				op = 1;
			if (op == 0) {
				ccs_parameter_t p = nullptr;
				OK(ccs_create_numerical_parameter(TmpStr(sfmt("p%zu", n)), CCS_NUMERIC_TYPE_INT, NI(0),
								  NI(1000000), NI(0), NI((int64_t)n), &p));
				pool.add(p);
				Own o;
				ccs_distribution_t d = nullptr;
				if (s.coin()) {
					Asg a = make(s, pool, asg.size() + 1, 1);
					o.asg = (int)asg.size();
					d     = a.h;
					asg.push_back(a);
				}
				s.log("add p%zu with %d\n", n, o.asg);
				OK(ccs_configuration_space_add_parameter(h, p, d));
				ps.push_back(p);
				own.push_back(o);
			} else if (op == 1) {
				size_t              dim = 1 + s.draw(std::min<size_t>(n, 5));
				std::vector<size_t> idx;
				for (size_t i = 0; i < n; i++)
					idx.push_back(i);
				for (size_t i = n; i > 1; i--)
					std::swap(idx[i - 1], idx[s.draw(i)]);
				idx.resize(dim);
				size_t reuse = 0;
				Asg    a;
				int    id;
				// now and then a distribution that is or was in use
				for (size_t i = 0; i < asg.size() && !reuse; i++)
					if (asg[i].dim == dim && s.chance(1, 8))
						reuse = i + 1;
				if (reuse) {
					a  = asg[reuse - 1];
					id = (int)reuse - 1;
					s.label("distribution used twice");
				} else {
					a  = make(s, pool, asg.size() + 1, dim);
					id = (int)asg.size();
					asg.push_back(a);
				}
				std::string l;
				for (size_t i : idx)
					l += sfmt(" p%zu", i);
				s.log("assign %d (%zu modes) to%s\n", id, a.modes, l.c_str());
				std::vector<size_t> arg = idx;
				OK(ccs_configuration_space_set_distribution(h, a.h, arg.data()));
				CHECK(arg == idx, "indexes modified");
				// everything that shared an assignment with the new owners
				// goes back to its default
				std::set<std::pair<int, size_t>> gone; // (assignment, group)
				std::vector<Own>                 next = own;
				for (size_t i : idx)
					for (size_t j = 0; j < n; j++)
						if (own[j].asg >= 0 && own[i].asg >= 0 && own[j].comp / 1000 == own[i].comp / 1000) {
							if (next[j].asg >= 0 && asg[(size_t)own[j].asg].dim > 1)
								displaced++;
							next[j] = Own();
						}
				own = next;
				for (size_t k = 0; k < dim; k++) {
					own[idx[k]].asg  = id;
					own[idx[k]].comp = (step + 1) * 1000 + k;
				}
				joints += dim > 1;
			} else if (op == 3) {
				// one mode of one owner is forbidden: sampling has to redraw
				// the whole distribution
				std::vector<size_t> can;
				for (size_t i = 0; i < n; i++)
					if (own[i].asg >= 0 && asg[(size_t)own[i].asg].modes > 1)
						can.push_back(i);
				if (forbid_at >= 0 || can.empty())
					continue;
				size_t     i = s.pick(can);
				const Asg &a = asg[(size_t)own[i].asg];
				forbid_at    = (int)i;
				forbid_value = value(a.id, s.draw(a.modes), own[i].comp % 1000);
				ccs_expression_t var = nullptr, lit = nullptr, eq = nullptr;
				OK(ccs_create_variable(ps[i], &var));
				pool.add(var);
				OK(ccs_create_literal(ccs_int(forbid_value), &lit));
				pool.add(lit);
				ccs_datum_t ns[2] = {ccs_object(var), ccs_object(lit)};
				OK(ccs_create_expression(CCS_EXPRESSION_TYPE_EQUAL, 2, ns, &eq));
				pool.add(eq);
				OK(ccs_configuration_space_add_forbidden_clause(h, eq));
				s.log("forbid p%zu = %lld\n", i, (long long)forbid_value);
				s.label("redraws");
			} else {
				size_t              dim = 1 + s.draw(3);
				std::vector<size_t> idx;
				for (size_t i = 0; i < dim; i++)
					idx.push_back(i % n);
				bool bad = dim > n;
				if (dim > 1 && s.coin())
					idx[dim - 1] = idx[s.draw(dim - 1)], bad = true;
				else if (!bad) {
					idx[s.draw(dim)] = n + s.draw(3);
					bad              = true;
				}
				Asg a = make(s, pool, 9999, dim);
				ERR(ccs_configuration_space_set_distribution(h, a.h, idx.data()),
				    CCS_RESULT_ERROR_INVALID_VALUE);
				refused++;
				s.log("refused assignment\n");
			}
			// the comp of parameters added with a distribution is 0 of a group of their own
			for (size_t i = 0; i < ps.size(); i++)
				if (own[i].asg >= 0 && own[i].comp < 1000)
					own[i].comp = (1000 + i) * 1000;
			// queries
			for (size_t i = 0; i < ps.size(); i++) {
				ccs_distribution_t d = nullptr;
				size_t             k = 77;
				OK(ccs_configuration_space_get_parameter_distribution(h, i, &d, &k));
				if (own[i].asg >= 0) {
					CHECK(d == asg[(size_t)own[i].asg].h, "p%zu is not reported under distribution %d", i, own[i].asg);
					CHECK(k == own[i].comp % 1000, "p%zu is reported as component %zu instead of %zu",
					      i, k, own[i].comp % 1000);
				} else {
					ccs_numeric_t    l, u, q;
					ccs_scale_type_t sc;
					ccs_distribution_type_t ty;
					OK(ccs_distribution_get_type(d, &ty));
					CHECK(ty == CCS_DISTRIBUTION_TYPE_UNIFORM && k == 0, "p%zu should have its default distribution", i);
					OK(ccs_uniform_distribution_get_properties(d, &l, &u, &sc, &q));
					CHECK(l.i == 0 && u.i == 1000000 && q.i == 0 && sc == CCS_SCALE_TYPE_LINEAR,
					      "p%zu should have its default distribution", i);
				}
			}
			{
				ccs_distribution_t d;
				size_t             k;
				ANYERR(ccs_configuration_space_get_parameter_distribution(h, ps.size() + s.draw(2), &d, &k));
			}
			// samples
			size_t m = s.draw(4);
			for (size_t r = 0; r < m; r++) {
				ccs_configuration_t cfg[3] = {};
				size_t              cnt    = 1 + s.draw(3);
				bool                outside = false;
				for (auto &o : own)
					if (o.asg >= 0 && asg[(size_t)o.asg].outside)
						outside = true;
				ccs_result_t err = ccs_configuration_space_samples(h, cnt, cfg);
				if (outside && err == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) {
					ccs_clear_thread_error();
					s.label("redraws given up");
					break;
				}
				OK(err);
				s.label_if(outside, "values outside the domain redrawn");
				for (size_t c = 0; c < cnt; c++) {
					std::vector<D> v = config_values(cfg[c], ps.size());
					OK(ccs_release_object(cfg[c]));
					std::map<size_t, size_t> mode; // per group
					for (size_t i = 0; i < ps.size(); i++) {
						CHECK(v[i].t == CCS_DATA_TYPE_INT && v[i].i >= 0 && v[i].i < 1000000, "p%zu = %s", i,
						      v[i].str().c_str());
						CHECK((int)i != forbid_at || v[i].i != forbid_value, "forbidden value sampled");
						if (own[i].asg < 0)
							continue;
						const Asg &a = asg[(size_t)own[i].asg];
						size_t     k = own[i].comp % 1000;
						int64_t    x = v[i].i - value(a.id, 0, k);
						CHECK(x >= 0 && x % 10 == 0 && (size_t)(x / 10) < a.modes,
						      "p%zu = %lld is not component %zu of distribution %zu", i,
						      (long long)v[i].i, k, a.id);
						size_t g  = own[i].comp / 1000;
						auto   it = mode.emplace(g, (size_t)(x / 10));
						CHECK(it.first->second == (size_t)(x / 10),
						      "components of distribution %zu come from different draws: %s", a.id,
						      strv(v).c_str());
					}
				}
			}
		}
		s.nontrivial(joints > 0 && displaced > 0);
		s.feature(pbt::hcomb(joints, displaced * 100 + ps.size() * 10000 + steps));
		s.label_if(joints > 0, "joint distributions");
		s.label_if(displaced > 0, "displaced to default");
		s.label_if(refused > 0, "refused");
	}
	CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain", pbt::vp_live_allocs - live0);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P16";
	c.rule = "random sequences of single and joint assignments of recognisable distributions, queried and sampled after each step; non-trivial: a joint distribution was assigned and another one displaced";
	c.assumptions = {"all parameters are integers whose domain contains every value assigned"};
	c.quick_cases    = 40000;
	c.thorough_cases = 800000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
