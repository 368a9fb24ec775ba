// P07: samples of a distribution lie in its announced bounds and on its grid,
// and the oversampling question is answered truthfully.
#include "gen.hpp"

static ccs_interval_t
iv(ccs_numeric_type_t t, ccs_numeric_t l, bool li, ccs_numeric_t u, bool ui)
{
	ccs_interval_t r;
	r.type           = t;
	r.lower          = l;
	r.upper          = u;
	r.lower_included = li ? CCS_TRUE : CCS_FALSE;
	r.upper_included = ui ? CCS_TRUE : CCS_FALSE;
	return r;
}
static std::string
ivs(const ccs_interval_t &i)
{
	if (i.type == CCS_NUMERIC_TYPE_INT)
		return sfmt("%c%lld,%lld%c", i.lower_included ? '[' : ']', (long long)i.lower.i,
			    (long long)i.upper.i, i.upper_included ? ']' : '[');
	return sfmt("%c%.17g,%.17g%c", i.lower_included ? '[' : ']', i.lower.f, i.upper.f,
		    i.upper_included ? ']' : '[');
}
// closed form of an integer interval as two 128 bit numbers; empty if lo > hi
static void
closed(const ccs_interval_t &a, __int128 &lo, __int128 &hi)
{
	lo = (__int128)a.lower.i + (a.lower_included ? 0 : 1);
	hi = (__int128)a.upper.i - (a.upper_included ? 0 : 1);
}
static bool
contains(const ccs_interval_t &a, ccs_numeric_t v)
{
	if (a.type == CCS_NUMERIC_TYPE_INT) {
		__int128 lo, hi;
		closed(a, lo, hi);
		return v.i >= lo && v.i <= hi;
	}
	return (a.lower_included ? v.f >= a.lower.f : v.f > a.lower.f) &&
	       (a.upper_included ? v.f <= a.upper.f : v.f < a.upper.f);
}
// a, not empty, is a subset of b
static bool
subset(const ccs_interval_t &a, const ccs_interval_t &b)
{
	if (a.type == CCS_NUMERIC_TYPE_INT) {
		__int128 al, ah, bl, bh;
		closed(a, al, ah);
		closed(b, bl, bh);
		return bl <= al && ah <= bh;
	}
	bool lo = b.lower.f < a.lower.f ||
		  (b.lower.f == a.lower.f && (b.lower_included || !a.lower_included));
	bool hi = b.upper.f > a.upper.f ||
		  (b.upper.f == a.upper.f && (b.upper_included || !a.upper_included));
	return lo && hi;
}
static bool
same_set(const ccs_interval_t &a, const ccs_interval_t &b)
{
	return a.type == b.type && subset(a, b) && subset(b, a);
}
static ccs_interval_t
hull(const ccs_interval_t &a, const ccs_interval_t &b)
{
	ccs_interval_t r = a;
	if (a.type == CCS_NUMERIC_TYPE_INT) {
		__int128 al, ah, bl, bh;
		closed(a, al, ah);
		closed(b, bl, bh);
		return iv(a.type, NI((int64_t)std::min(al, bl)), true, NI((int64_t)std::max(ah, bh)), true);
	}
	if (b.lower.f < a.lower.f || (b.lower.f == a.lower.f && b.lower_included)) {
		r.lower = b.lower;
		r.lower_included = b.lower_included;
	}
	if (b.upper.f > a.upper.f || (b.upper.f == a.upper.f && b.upper_included)) {
		r.upper = b.upper;
		r.upper_included = b.upper_included;
	}
	return r;
}
// the bounds that follow from the definition of the distribution
static std::vector<ccs_interval_t>
model_bounds(const Dist &d)
{
	std::vector<ccs_interval_t> r;
	bool lg = d.scale == CCS_SCALE_TYPE_LOGARITHMIC;
	switch (d.kind) {
	case Dist::UNIFORM:
		if (d.t == CCS_NUMERIC_TYPE_INT)
			r.push_back(iv(d.t, NI(d.li), true, NI(d.ui), false));
		else
			r.push_back(iv(d.t, NF(d.lf), true, NF(d.uf), false));
		break;
	case Dist::NORMAL:
		if (d.t == CCS_NUMERIC_TYPE_INT) {
			int64_t q = d.qi ? d.qi : 1;
			r.push_back(iv(d.t, NI(lg ? q : INT64_MIN / q * q), true, NI(INT64_MAX / q * q), true));
		} else if (lg)
			r.push_back(iv(d.t, NF(d.qf > 0 ? d.qf : 0.0), d.qf > 0, NF(INFINITY), false));
		else
			r.push_back(iv(d.t, NF(-INFINITY), false, NF(INFINITY), false));
		break;
	case Dist::ROULETTE:
		r.push_back(iv(CCS_NUMERIC_TYPE_INT, NI(0), true, NI((int64_t)d.areas.size()), false));
		break;
	case Dist::MULTI:
		for (auto &x : d.subs)
			for (auto &b : model_bounds(x))
				r.push_back(b);
		break;
	case Dist::MIXTURE:
		r = model_bounds(d.subs[0]);
		for (size_t i = 1; i < d.subs.size(); i++) {
			auto o = model_bounds(d.subs[i]);
			for (size_t k = 0; k < r.size(); k++)
				r[k] = hull(r[k], o[k]);
		}
		break;
	}
	return r;
}
static ccs_interval_t
perturb(Src &s, const ccs_interval_t &b)
{
	ccs_interval_t r = b;
	if (s.chance(1, 6)) { // anything
		if (b.type == CCS_NUMERIC_TYPE_INT)
			r = iv(b.type, NI(s.i64()), s.coin(), NI(s.i64()), s.coin());
		else
			r = iv(b.type, NF(s.f64()), s.coin(), NF(s.f64()), s.coin());
		return r;
	}
	auto end = [&](ccs_numeric_t &v, ccs_bool_t &inc) {
		if (s.chance(1, 3))
			inc = inc ? CCS_FALSE : CCS_TRUE;
		int k = (int)s.weighted({3, 2, 2, 1, 1});
		if (b.type == CCS_NUMERIC_TYPE_INT) {
			int64_t step = k == 1 || k == 2 ? 1 : k >= 3 ? 1 + (int64_t)s.draw(9) : 0;
			__int128 x = (__int128)v.i + ((k & 1) ? -step : step);
			x = std::max<__int128>(INT64_MIN, std::min<__int128>(INT64_MAX, x));
			v.i = (int64_t)x;
		} else if (k) {
			double dir = (k & 1) ? -INFINITY : INFINITY;
			v.f = k < 3 ? std::nextafter(v.f, dir) : v.f + (k == 3 ? -1.0 : 1.0);
		}
	};
	end(r.lower, r.lower_included);
	end(r.upper, r.upper_included);
	return r;
}

static void
body(Src &s)
{
	Pool     pool;
	DistOpts o;
	Dist     d = gen_dist(s, 2, o);
	s.log("%s\n", d.str().c_str());
	build_dist(d, pool);
	size_t dim = d.dim();

	size_t rdim = 0;
	OK(ccs_distribution_get_dimension(d.h, &rdim));
	CHECK(rdim == dim, "dimension %zu instead of %zu", rdim, dim);
	std::vector<ccs_numeric_type_t> types(dim);
	OK(ccs_distribution_get_data_types(d.h, types.data()));
	for (size_t k = 0; k < dim; k++)
		CHECK(types[k] == d.type_of(k), "type of component %zu", k);
	std::vector<ccs_interval_t> bounds(dim);
	OK(ccs_distribution_get_bounds(d.h, bounds.data()));
	auto mb = model_bounds(d);
	for (size_t k = 0; k < dim; k++)
		CHECK(same_set(bounds[k], mb[k]), "component %zu announces %s instead of %s", k,
		      ivs(bounds[k]).c_str(), ivs(mb[k]).c_str());

	ccs_rng_t  rng = make_rng(pool, s.draw(0));
	size_t     rounds = 1 + s.draw(4);
	bool       composed = d.kind == Dist::MIXTURE || d.kind == Dist::MULTI;
	bool       varied = false;
	ccs_numeric_t first = NI(0);
	for (size_t r = 0; r < rounds; r++) {
		size_t n = 1 + s.draw(40), stride = dim;
		int    route = (int)s.draw(4);
		std::vector<ccs_numeric_t> v;
		switch (route) {
		case 0:
			n = 1;
			v.resize(dim);
			OK(ccs_distribution_sample(d.h, rng, v.data()));
			break;
		case 1:
			v.resize(n * dim);
			OK(ccs_distribution_samples(d.h, rng, n, v.data()));
			break;
		case 2: {
			stride = dim + s.draw(3);
			v.resize(n * stride);
			OK(ccs_distribution_strided_samples(d.h, rng, n, stride, v.data()));
			break;
		}
		default: {
			std::vector<std::vector<ccs_numeric_t>> a(dim, std::vector<ccs_numeric_t>(n));
			std::vector<ccs_numeric_t *>            p;
			for (auto &x : a)
				p.push_back(x.data());
			OK(ccs_distribution_soa_samples(d.h, rng, n, p.data()));
			v.resize(n * dim);
			for (size_t i = 0; i < n; i++)
				for (size_t k = 0; k < dim; k++)
					v[i * dim + k] = a[k][i];
		}
		}
		if (r == 0)
			first = v[0];
		for (size_t i = 0; i < n; i++) {
			varied |= v[i * stride].i != first.i;
			for (size_t k = 0; k < dim; k++) {
				ccs_numeric_t x = v[i * stride + k];
				std::string   why;
				std::string   xs = types[k] == CCS_NUMERIC_TYPE_INT ?
							   sfmt("%lld", (long long)x.i) :
							   sfmt("%.17g", x.f);
				CHECK(contains(bounds[k], x),
				      "route %d: sample %zu component %zu is %s, outside %s", route, i, k,
				      xs.c_str(), ivs(bounds[k]).c_str());
				CHECK(d.in_support(k, x, &why), "route %d: sample %zu component %zu: %s",
				      route, i, k, why.c_str());
			}
			CHECK(d.row_in_support(v.data() + i * stride),
			      "route %d: sample %zu: its components cannot take these values together", route, i);
		}
	}
	// oversampling
	for (int t = 0; t < 3; t++) {
		std::vector<ccs_interval_t> is;
		for (size_t k = 0; k < dim; k++)
			is.push_back(perturb(s, bounds[k]));
		std::vector<ccs_bool_t> over(dim, 77);
		OK(ccs_distribution_check_oversampling(d.h, is.data(), over.data()));
		for (size_t k = 0; k < dim; k++) {
			bool want = !subset(bounds[k], is[k]);
			CHECK((over[k] == CCS_TRUE || over[k] == CCS_FALSE) && (over[k] == CCS_TRUE) == want,
			      "oversampling of %s by %s reported %d", ivs(is[k]).c_str(),
			      ivs(bounds[k]).c_str(), (int)over[k]);
			s.label_if(!want, "sampling interval covers the bounds");
		}
	}
	s.nontrivial(varied);
	s.feature(pbt::hstr(d.str()));
	s.label_if(composed, "composed");
	s.label_if(dim > 1, "several components");
	s.label_if(d.qi || d.qf > 0, "quantized");
	s.label_if(d.scale == CCS_SCALE_TYPE_LOGARITHMIC, "logarithmic");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P07";
	c.rule = "a random distribution (mixtures and multivariates up to depth 2) sampled through a random route; non-trivial: at least two different values were drawn";
	c.assumptions = {"finite bounds whose width is representable; positive deviations; integer normal distributions with a reachable range",
			 "grid membership of floats within 1e-9 relative"};
	c.quick_cases    = 60000;
	c.thorough_cases = 3000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
