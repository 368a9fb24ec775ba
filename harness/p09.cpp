// P09: sampling routes fill exactly what was asked, reproducibly.
#include "gen.hpp"

static const ccs_numeric_t *
guard()
{
	static ccs_numeric_t g;
	g.i = (int64_t)0x5ca1ab1e5ca1ab1eull;
	return &g;
}
static bool
is_guard(const ccs_numeric_t &v)
{
	return v.i == guard()->i;
}
static void
check_access(const Dist &d)
{
	ccs_distribution_type_t t;
	OK(ccs_distribution_get_type(d.h, &t));
	switch (d.kind) {
	case Dist::UNIFORM: {
		ccs_numeric_t    l, u, q;
		ccs_scale_type_t sc;
		CHECK(t == CCS_DISTRIBUTION_TYPE_UNIFORM, "kind");
		OK(ccs_uniform_distribution_get_properties(d.h, &l, &u, &sc, &q));
		CHECK(sc == d.scale, "scale");
		if (d.t == CCS_NUMERIC_TYPE_INT)
			CHECK(l.i == d.li && u.i == d.ui && q.i == d.qi, "properties of %s", d.str().c_str());
		else
			CHECK(same_bits(l.f, d.lf) && same_bits(u.f, d.uf) && same_bits(q.f, d.qf),
			      "properties of %s", d.str().c_str());
		ccs_numeric_t only;
		OK(ccs_uniform_distribution_get_properties(d.h, NULL, &only, NULL, NULL));
		CHECK(only.i == u.i, "upper bound alone");
		OK(ccs_uniform_distribution_get_properties(d.h, NULL, NULL, NULL, &only));
		CHECK(only.i == q.i, "quantization alone");
		break;
	}
	case Dist::NORMAL: {
		double           mu, sg;
		ccs_numeric_t    q;
		ccs_scale_type_t sc;
		CHECK(t == CCS_DISTRIBUTION_TYPE_NORMAL, "kind");
		OK(ccs_normal_distribution_get_properties(d.h, &mu, &sg, &sc, &q));
		CHECK(sc == d.scale && same_bits(mu, d.mu) && same_bits(sg, d.sigma), "properties of %s",
		      d.str().c_str());
		if (d.t == CCS_NUMERIC_TYPE_INT)
			CHECK(q.i == d.qi, "quantization");
		else
			CHECK(same_bits(q.f, d.qf), "quantization");
		break;
	}
	case Dist::ROULETTE: {
		CHECK(t == CCS_DISTRIBUTION_TYPE_ROULETTE, "kind");
		size_t n = 0, m = 0;
		OK(ccs_roulette_distribution_get_num_areas(d.h, &n));
		CHECK(n == d.areas.size(), "%zu areas", n);
		std::vector<double> a(n + 2, -1);
		OK(ccs_roulette_distribution_get_areas(d.h, a.size(), a.data(), &m));
		CHECK(m == n, "%zu areas", m);
		double sum = 0;
		for (double x : d.areas)
			sum += x;
		for (size_t i = 0; i < n; i++)
			CHECK(std::fabs(a[i] - d.areas[i] / sum) < 1e-9, "area %zu is %g", i, a[i]);
		CHECK(a[n] == 0 && a[n + 1] == 0, "areas past the last one");
		break;
	}
	case Dist::MIXTURE:
	case Dist::MULTI: {
		bool mix = d.kind == Dist::MIXTURE;
		CHECK(t == (mix ? CCS_DISTRIBUTION_TYPE_MIXTURE : CCS_DISTRIBUTION_TYPE_MULTIVARIATE), "kind");
		size_t n = 0, m = 0;
		if (mix)
			OK(ccs_mixture_distribution_get_num_distributions(d.h, &n));
		else
			OK(ccs_multivariate_distribution_get_num_distributions(d.h, &n));
		CHECK(n == d.subs.size(), "%zu distributions", n);
		std::vector<ccs_distribution_t> hs(n + 1, (ccs_distribution_t)1);
		if (mix)
			OK(ccs_mixture_distribution_get_distributions(d.h, n + 1, hs.data(), &m));
		else
			OK(ccs_multivariate_distribution_get_distributions(d.h, n + 1, hs.data(), &m));
		CHECK(m == n && hs[n] == NULL, "number of distributions");
		for (size_t i = 0; i < n; i++)
			CHECK(hs[i] == d.subs[i].h, "component %zu", i);
		if (mix) {
			std::vector<double> w(n + 1, -1);
			OK(ccs_mixture_distribution_get_weights(d.h, n + 1, w.data(), &m));
			double sum = 0;
			for (double x : d.areas)
				sum += x;
			for (size_t i = 0; i < n; i++)
				CHECK(std::fabs(w[i] - d.areas[i] / sum) < 1e-9, "weight %zu is %g", i, w[i]);
			CHECK(m == n && w[n] == 0, "number of weights");
		}
		for (auto &x : d.subs)
			check_access(x);
		break;
	}
	}
}
struct Req {
	int               route;
	size_t            n, stride, off;
	std::vector<bool> absent;
};
// runs one request; returns the values in sample-major order (absent
// components hold the guard)
static std::vector<ccs_numeric_t>
run(const Dist &d, ccs_rng_t rng, const Req &r)
{
	size_t                     dim = d.dim();
	std::vector<ccs_numeric_t> out(r.n * dim, *guard());
	switch (r.route) {
	case 0: {
		std::vector<ccs_numeric_t> v(r.off + dim + 2, *guard());
		OK(ccs_distribution_sample(d.h, rng, v.data() + r.off));
		for (size_t i = 0; i < v.size(); i++)
			if (i < r.off || i >= r.off + dim)
				CHECK(is_guard(v[i]), "sample wrote at offset %ld", (long)i - (long)r.off);
		for (size_t k = 0; k < dim; k++)
			out[k] = v[r.off + k];
		break;
	}
	case 1: {
		std::vector<ccs_numeric_t> v(r.off + r.n * dim + 2, *guard());
		OK(ccs_distribution_samples(d.h, rng, r.n, v.data() + r.off));
		for (size_t i = 0; i < v.size(); i++)
			if (i < r.off || i >= r.off + r.n * dim)
				CHECK(is_guard(v[i]), "samples wrote at offset %ld of %zu values",
				      (long)i - (long)r.off, r.n * dim);
		for (size_t i = 0; i < r.n * dim; i++)
			out[i] = v[r.off + i];
		break;
	}
	case 2: {
		std::vector<ccs_numeric_t> v(r.off + r.n * r.stride + 2, *guard());
		OK(ccs_distribution_strided_samples(d.h, rng, r.n, r.stride, v.data() + r.off));
		for (size_t i = 0; i < v.size(); i++) {
			long p = (long)i - (long)r.off;
			if (p >= 0 && (size_t)p < r.n * r.stride && (size_t)p % r.stride < dim)
				out[(size_t)p / r.stride * dim + (size_t)p % r.stride] = v[i];
			else
				CHECK(is_guard(v[i]), "strided samples wrote at offset %ld, stride %zu", p,
				      r.stride);
		}
		break;
	}
	case 4: { // through parameters that accept (nearly) everything
		std::vector<ccs_parameter_t> ps;
		Pool                         pool;
		for (size_t k = 0; k < dim; k++) {
			ccs_parameter_t p = nullptr;
			int64_t         w = (int64_t)1 << 61;
			if (d.type_of(k) == CCS_NUMERIC_TYPE_INT)
				OK(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_INT, CCSI(-w), CCSI(w), CCSI(0), CCSI(0), &p));
			else
				OK(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_FLOAT, CCSF(-1e300), CCSF(1e300), CCSF(0.0), CCSF(0.0), &p));
			pool.add(p);
			ps.push_back(p);
		}
		ccs_datum_t g = ccs_none;
		g.type        = (ccs_data_type_t)77;
		std::vector<ccs_datum_t> v(r.off + r.n * dim + 2, g);
		ccs_result_t err = ccs_distribution_parameters_samples(d.h, rng, ps.data(), r.n, v.data() + r.off);
		std::vector<ccs_parameter_t> after = ps;
		if (err == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) { // values beyond the parameters
			ccs_clear_thread_error();
			out.clear();
			break;
		}
		OK(err);
		for (size_t i = 0; i < v.size(); i++)
			if (i < r.off || i >= r.off + r.n * dim)
				CHECK(v[i].type == 77, "parameter samples wrote at offset %ld of %zu values",
				      (long)i - (long)r.off, r.n * dim);
		for (size_t i = 0; i < r.n * dim; i++) {
			bool is_int = d.type_of(i % dim) == CCS_NUMERIC_TYPE_INT;
			CHECK(v[r.off + i].type == (is_int ? CCS_DATA_TYPE_INT : CCS_DATA_TYPE_FLOAT),
			      "value %zu through a parameter has type %d", i, (int)v[r.off + i].type);
			if (is_int)
				out[i].i = v[r.off + i].value.i;
			else
				out[i].f = v[r.off + i].value.f;
		}
		break;
	}
	default: {
		std::vector<std::vector<ccs_numeric_t>> a(dim, std::vector<ccs_numeric_t>(r.n + 2, *guard()));
		std::vector<ccs_numeric_t *>            p(dim, nullptr);
		for (size_t k = 0; k < dim; k++)
			if (!r.absent[k])
				p[k] = a[k].data() + 1;
		std::vector<ccs_numeric_t *> before = p;
		OK(ccs_distribution_soa_samples(d.h, rng, r.n, p.data()));
		CHECK(p == before, "the caller's array of arrays was changed");
		for (size_t k = 0; k < dim; k++) {
			CHECK(is_guard(a[k][0]) && is_guard(a[k][r.n + 1]), "array of component %zu overrun", k);
			for (size_t i = 0; i < r.n; i++)
				out[i * dim + k] = a[k][i + 1];
		}
		break;
	}
	}
	return out;
}
static void
body(Src &s)
{
	Pool     pool;
	DistOpts o;
	o.wide = s.chance(1, 3);
	Dist d = gen_dist(s, 2, o);
	build_dist(d, pool);
	size_t dim = d.dim();
	s.log("%s\n", d.str().c_str());
	check_access(d);

	const gsl_rng_type *ts[] = {gsl_rng_default, gsl_rng_mt19937, gsl_rng_taus2, gsl_rng_ranlxs0,
				    gsl_rng_rand48, gsl_rng_gfsr4};
	const gsl_rng_type *ty = ts[s.draw(6)];
	uint64_t            seed = s.draw(0);
	ccs_rng_t           ra = nullptr, rb = nullptr, rc = nullptr;
	OK(ccs_create_rng_with_type(ty, &ra));
	pool.add(ra);
	OK(ccs_create_rng_with_type(ty, &rb));
	pool.add(rb);
	OK(ccs_create_rng(&rc));
	pool.add(rc);
	const gsl_rng_type *back = nullptr;
	OK(ccs_rng_get_type(ra, &back));
	CHECK(back == ty, "generator type");
	OK(ccs_rng_set_seed(ra, seed));
	OK(ccs_rng_set_seed(rb, seed));
	// an independent generator of the same kind
	gsl_rng *g = gsl_rng_alloc(ty);
	gsl_rng_set(g, seed);
	struct Free { gsl_rng *g; ~Free() { gsl_rng_free(g); } } freer{g};
	unsigned long mn, mx;
	OK(ccs_rng_min(ra, &mn));
	OK(ccs_rng_max(ra, &mx));
	CHECK(mn == gsl_rng_min(g) && mx == gsl_rng_max(g), "range of the generator");
	size_t warm = s.draw(4);
	for (size_t i = 0; i < warm; i++) {
		if (s.coin()) {
			unsigned long x, y;
			OK(ccs_rng_get(ra, &x));
			OK(ccs_rng_get(rb, &y));
			CHECK(x == gsl_rng_get(g) && x == y, "generator output");
		} else {
			double x, y;
			OK(ccs_rng_uniform(ra, &x));
			OK(ccs_rng_uniform(rb, &y));
			CHECK(same_bits(x, gsl_rng_uniform(g)) && same_bits(x, y), "generator output");
			CHECK(x >= 0 && x < 1, "uniform %g", x);
		}
	}
	// the same requests on both generators; other work happens in between
	Pool pool2;
	Dist d2 = d; // same definition, other objects
	build_dist(d2, pool2);
	size_t nreq = 1 + s.draw(4);
	bool   guards = false;
	for (size_t q = 0; q < nreq; q++) {
		Req r;
		r.route  = (int)s.draw(5);
		r.n      = r.route == 0 ? 1 : s.chance(1, 8) ? 0 : 1 + s.draw(12);
		r.stride = dim + s.draw(4);
		r.off    = s.draw(3);
		for (size_t k = 0; k < dim; k++)
			r.absent.push_back(s.chance(1, 3));
		s.log("request: route %d n %zu stride %zu\n", r.route, r.n, r.stride);
		auto va = run(d, ra, r);
		if (s.coin()) {
			Req other = r;
			other.route = 1;
			other.n     = 1 + s.draw(5);
			run(s.coin() ? d : d2, rc, other);
		}
		auto vb = run(d2, rb, r);
		CHECK(va.size() == vb.size(), "one of two equal requests failed");
		if (r.route != 3)
			for (size_t i = 0; i + dim <= va.size(); i += dim)
				CHECK(d.row_in_support(va.data() + i),
				      "route %d: the components of sample %zu cannot take these values together", r.route, i / dim);
		for (size_t i = 0; i < va.size(); i++) {
			size_t k   = i % dim;
			bool   out = r.route == 3 && r.absent[k];
			if (out) {
				CHECK(is_guard(va[i]), "absent component %zu written", k);
				guards = true;
				continue;
			}
			CHECK(!is_guard(va[i]), "value %zu of route %d was not written", i, r.route);
			CHECK(va[i].i == vb[i].i,
			      "value %zu differs between two runs with equal generator states", i);
			std::string why;
			CHECK(d.in_support(k, va[i], &why), "value %zu of route %d: %s (not filled?)", i, r.route,
			      why.c_str());
		}
		guards |= r.route == 2 && r.stride > dim;
	}
	unsigned long x, y;
	OK(ccs_rng_get(ra, &x));
	OK(ccs_rng_get(rb, &y));
	CHECK(x == y, "equal requests left the generators in different states");
	// reseeding replays
	Req r;
	r.route = 1;
	r.n     = 1 + s.draw(6);
	r.off   = 0;
	r.stride = dim;
	OK(ccs_rng_set_seed(ra, seed ^ 5));
	auto v1 = run(d, ra, r);
	OK(ccs_rng_set_seed(ra, seed ^ 5));
	auto v2 = run(d, ra, r);
	for (size_t i = 0; i < v1.size(); i++)
		CHECK(v1[i].i == v2[i].i, "reseeding does not replay the samples");
	pool2.release_all();
	s.nontrivial(guards && d.kind >= Dist::MIXTURE);
	s.feature(pbt::hstr(d.str()));
	s.label_if(dim > 1, "several components");
	s.label_if(guards, "gaps left by the request");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P09";
	c.rule = "a random distribution and random requests (route, count, stride, absent components) replayed on two generators; non-trivial: a composed distribution and a request with places that must stay untouched";
	c.assumptions = {"no equality of values is required between different routes"};
	c.quick_cases    = 24000;
	c.thorough_cases = 2000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
