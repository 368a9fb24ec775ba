// P08: sample frequencies follow the law of the distribution.
#include <cfloat>
#include "law.hpp"

// natural cut points of component k
static void
cuts_of(Src &s, const Dist &d, size_t k, std::vector<double> &out)
{
	if (d.kind == Dist::MULTI) {
		for (auto &x : d.subs) {
			if (k < x.dim())
				return cuts_of(s, x, k, out);
			k -= x.dim();
		}
		return;
	}
	if (d.kind == Dist::MIXTURE) {
		for (auto &x : d.subs)
			cuts_of(s, x, k, out);
		return;
	}
	size_t n = 2 + s.draw(4);
	for (size_t i = 0; i < n; i++) {
		double u = (double)(1 + s.draw(9973)) / 9974.0;
		double x;
		bool   lg = d.scale == CCS_SCALE_TYPE_LOGARITHMIC;
		switch (d.kind) {
		case Dist::UNIFORM: {
			double a = d.t == CCS_NUMERIC_TYPE_INT ? (double)d.li : d.lf;
			double b = d.t == CCS_NUMERIC_TYPE_INT ? (double)d.ui : d.uf;
			x = lg ? std::exp(std::log(a) + u * (std::log(b) - std::log(a))) : a + u * (b - a);
			break;
		}
		case Dist::NORMAL:
			x = d.mu + d.sigma * (6 * u - 3);
			if (lg)
				x = std::exp(x);
			break;
		default:
			x = u * (double)d.areas.size();
		}
		if (d.kind == Dist::ROULETTE || (d.kind != Dist::ROULETTE && d.t == CCS_NUMERIC_TYPE_INT))
			x = std::ceil(x) - 0.5;
		out.push_back(x);
	}
}
// Areas and weights over the whole range of floats: refused when they cannot be
// normalized, else kept in proportion.
static void
extreme_areas(Src &s)
{
	size_t              n = 1 + s.draw(6);
	bool                mix = s.coin();
	std::vector<double> a;
	long double         sum = 0;
	bool                bad = false;
	double              base = s.coin() ? 1.0 : s.pick(std::vector<double>{1e307, 5e306, 1e300, 1e-300, 1e-307});
	for (size_t i = 0; i < n; i++) {
		double x = s.chance(1, 6) ? s.pick(std::vector<double>{0.0, -0.0, 1.0, -1.0, NAN, INFINITY, -INFINITY, DBL_MAX, 5e-324, -5e-324, DBL_MIN}) :
					    base * (double)s.draw(9);
		a.push_back(x);
		bad |= !(x >= 0) || std::isinf(x);
		sum += x;
	}
	std::string str;
	for (double x : a)
		str += sfmt(" %g", x);
	s.log("%s of%s", mix ? "mixture" : "roulette", str.c_str());
	std::vector<ccs_distribution_t> ds(n);
	ccs_distribution_t              d = NULL;
	ccs_result_t                    r;
	if (mix) {
		for (size_t i = 0; i < n; i++)
			OK(ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_INT, NI((long)i), NI((long)i + 1), CCS_SCALE_TYPE_LINEAR, NI(0), &ds[i]));
		r = ccs_create_mixture_distribution(n, ds.data(), a.data(), &d);
		for (auto x : ds)
			ccs_release_object(x);
	} else
		r = ccs_create_roulette_distribution(n, a.data(), &d);
	if (bad || sum == 0) {
		CHECK(r < 0 && !d, "areas or weights%s accepted", str.c_str());
	} else if (sum > 1e-300 && sum < 1e300) {
		CHECK(r == CCS_RESULT_SUCCESS, "areas or weights%s refused", str.c_str());
	}
	if (r < 0) {
		ccs_clear_thread_error();
		s.label("areas refused");
		return;
	}
	std::vector<double> b(n);
	if (mix)
		OK(ccs_mixture_distribution_get_weights(d, n, b.data(), NULL));
	else
		OK(ccs_roulette_distribution_get_areas(d, n, b.data(), NULL));
	for (size_t i = 0; i < n; i++)
		CHECK(std::fabs(b[i] - (double)(a[i] / sum)) < 1e-9, "areas or weights%s give share %g to element %zu", str.c_str(), b[i], i);
	ccs_rng_t rng;
	OK(ccs_create_rng(&rng));
	OK(ccs_rng_set_seed(rng, 1 + s.draw(1000)));
	std::vector<ccs_numeric_t> v(3000);
	OK(ccs_distribution_samples(d, rng, 3000, v.data()));
	std::vector<size_t> cnt(n);
	for (auto x : v) {
		CHECK(x.i >= 0 && (size_t)x.i < n, "areas or weights%s give %ld", str.c_str(), (long)x.i);
		cnt[(size_t)x.i]++;
	}
	for (size_t i = 0; i < n; i++)
		CHECK(!implausible(cnt[i], 3000, (double)(a[i] / sum)), "areas or weights%s give element %zu %zu times out of 3000", str.c_str(), i, cnt[i]);
	ccs_release_object(rng);
	ccs_release_object(d);
	s.nontrivial(n > 1);
	s.label("areas of any size");
}
static void
body(Src &s)
{
	if (s.chance(1, 20)) {
		extreme_areas(s);
		return;
	}
	Pool     pool;
	DistOpts o;
	o.wide = false;
	Dist d = gen_dist(s, 2, o);
	if (s.chance(1, 25)) { // ranges around and beyond that of the generator
		d       = Dist();
		d.kind  = Dist::UNIFORM;
		d.t     = CCS_NUMERIC_TYPE_INT;
		d.li    = s.small_int(1000);
		d.ui    = d.li + (int64_t)((1 + s.unit()) * std::ldexp(1.0, (int)s.range(20, 48)));
		if (s.chance(1, 3))
			d.qi = 1 + (int64_t)s.draw(1000);
	}
	s.log("%s\n", d.str().c_str());
	build_dist(d, pool);
	size_t    dim = d.dim();
	ccs_rng_t rng = make_rng(pool, s.draw(0));
	size_t    N   = s.chance(1, 40) ? 100000 : s.chance(1, 6) ? 20000 : 3000;
	int       route = (int)s.draw(4);
	size_t    batch = route == 0 ? 1 : 1 + s.draw(s.coin() ? 8 : 1500);
	s.log("%zu samples, route %d, batches of %zu\n", N, route, batch);
	std::vector<std::vector<double>> xs(dim);
	size_t                           got = 0;
	while (got < N) {
		size_t n = std::min(batch, N - got), stride = dim;
		std::vector<ccs_numeric_t> v;
		if (route == 0) {
			v.resize(dim);
			OK(ccs_distribution_sample(d.h, rng, v.data()));
		} else if (route == 1) {
			v.resize(n * dim);
			OK(ccs_distribution_samples(d.h, rng, n, v.data()));
		} else if (route == 2) {
			stride = dim + 1;
			v.resize(n * stride);
			OK(ccs_distribution_strided_samples(d.h, rng, n, stride, v.data()));
		} else {
			v.resize(n * dim);
			std::vector<ccs_numeric_t>   a(n * dim);
			std::vector<ccs_numeric_t *> p;
			for (size_t k = 0; k < dim; k++)
				p.push_back(a.data() + k * n);
			OK(ccs_distribution_soa_samples(d.h, rng, n, p.data()));
			for (size_t i = 0; i < n; i++)
				for (size_t k = 0; k < dim; k++)
					v[i * dim + k] = a[k * n + i];
		}
		for (size_t i = 0; i < n; i++)
			for (size_t k = 0; k < dim; k++)
				xs[k].push_back(d.type_of(k) == CCS_NUMERIC_TYPE_INT ?
							(double)v[i * stride + k].i :
							v[i * stride + k].f);
		got += n;
	}
	// marginals
	std::vector<std::vector<double>> cut(dim);
	bool                             nontriv = false;
	for (size_t k = 0; k < dim; k++) {
		std::vector<double> c;
		cuts_of(s, d, k, c);
		std::sort(c.begin(), c.end());
		for (double x : c) {
			if (cut[k].size() >= 10)
				break;
			double e  = 1e-9 * (std::fabs(x) + 1);
			double p1 = prob(d, {{k, -INFINITY, x - e}}), p2 = prob(d, {{k, -INFINITY, x + e}});
			if (std::fabs(p1 - p2) > 1e-6)
				continue; // too close to an atom of the law
			if (!cut[k].empty() && x <= cut[k].back())
				continue;
			cut[k].push_back(x);
		}
		std::vector<double> e;
		e.push_back(-INFINITY);
		for (double x : cut[k])
			e.push_back(x);
		e.push_back(INFINITY);
		size_t m = e.size() - 1, cum = 0;
		std::vector<size_t> cnt(m, 0);
		for (double x : xs[k])
			cnt[(size_t)(std::upper_bound(cut[k].begin(), cut[k].end(), x) - cut[k].begin())]++;
		for (size_t j = 0; j < m; j++) {
			double p = prob(d, {{k, e[j], e[j + 1]}});
			CHECK(!implausible(cnt[j], N, p),
			      "component %zu falls in [%.10g, %.10g[ %zu times out of %zu, probability %.6f", k,
			      e[j], e[j + 1], cnt[j], N, p);
			if (p > 0.02 && p < 0.98)
				nontriv = true;
			cum += cnt[j];
			double pc = prob(d, {{k, -INFINITY, e[j + 1]}});
			CHECK(!implausible(cum, N, pc),
			      "component %zu falls below %.10g %zu times out of %zu, probability %.6f", k,
			      e[j + 1], cum, N, pc);
		}
	}
	auto some_cell = [&](size_t k) {
		Cell c{k, -INFINITY, INFINITY};
		if (cut[k].empty())
			return c;
		size_t a = s.draw(cut[k].size());
		if (s.coin())
			c.hi = cut[k][a];
		else
			c.lo = cut[k][a];
		return c;
	};
	auto in = [&](const Cell &c, double x) { return x >= c.lo && x < c.hi; };
	// pairs of components
	if (dim > 1)
		for (int t = 0; t < 4; t++) {
			size_t k1 = s.draw(dim), k2 = s.draw(dim);
			if (k1 == k2)
				k2 = (k1 + 1) % dim;
			Cell   a = some_cell(k1), b = some_cell(k2);
			size_t c = 0;
			for (size_t i = 0; i < N; i++)
				c += in(a, xs[k1][i]) && in(b, xs[k2][i]);
			double p = prob(d, {a, b});
			CHECK(!implausible(c, N, p),
			      "components %zu in [%g,%g[ and %zu in [%g,%g[ together %zu times out of %zu, probability %.6f",
			      k1, a.lo, a.hi, k2, b.lo, b.hi, c, N, p);
		}
	// successive samples
	for (int t = 0; t < 4; t++) {
		size_t k1 = s.draw(dim), k2 = s.draw(dim);
		Cell   a = some_cell(k1), b = some_cell(k2);
		size_t c = 0, n = 0;
		for (size_t i = 0; i + 1 < N; i += 2, n++)
			c += in(a, xs[k1][i]) && in(b, xs[k2][i + 1]);
		double p = prob(d, {a}) * prob(d, {b});
		CHECK(!implausible(c, n, p),
		      "successive samples in [%g,%g[ (component %zu) then [%g,%g[ (component %zu) %zu times out of %zu, probability %.6f",
		      a.lo, a.hi, k1, b.lo, b.hi, k2, c, n, p);
	}
	s.nontrivial(nontriv);
	s.feature(pbt::hstr(d.str()));
	s.label_if(d.kind == Dist::MIXTURE, "mixture");
	s.label_if(dim > 1, "several components");
	s.label_if(d.scale == CCS_SCALE_TYPE_LOGARITHMIC, "logarithmic");
	s.label_if(d.qi || d.qf > 0, "quantized");
	s.label_if(batch > 1, "batches");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P08";
	c.rule = "a random distribution sampled 3000, 20000 or 100000 times through a random route; non-trivial: a tested event has probability between 2% and 98%";
	c.assumptions = {"goodness of fit by a Chernoff bound with false alarm probability below 1e-15 per test; deviations of a few percent of probability mass are seen"};
	c.quick_cases    = 6000;
	c.thorough_cases = 150000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 700;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
