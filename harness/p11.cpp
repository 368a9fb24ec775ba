// P11: sampling a parameter yields values of its domain, with the law of the
// distribution restricted to the domain.
#include "law.hpp"

// sample component k as the value of the domain it stands for; index < 0 when
// it does not stand for any
static bool
stands_for(const Param &p, ccs_numeric_t v, D *out)
{
	if (p.kind == Param::INT) {
		*out = D::I(v.i);
		return p.contains(*out);
	}
	if (p.kind == Param::FLOAT) {
		*out = D::F(v.f);
		return p.contains(*out);
	}
	if (v.i < 0 || (uint64_t)v.i >= p.vals.size())
		return false;
	*out = p.vals[(size_t)v.i];
	return true;
}
static ccs_numeric_t
raw_of(const Param &p, const D &v)
{
	if (p.kind == Param::INT)
		return NI(v.i);
	if (p.kind == Param::FLOAT)
		return NF(v.f);
	return NI(p.order(v));
}
static void
range_of(const Param &p, double *lo, double *hi)
{
	if (p.kind == Param::INT)
		*lo = (double)p.li, *hi = (double)p.ui;
	else if (p.kind == Param::FLOAT)
		*lo = p.lf, *hi = p.uf;
	else
		*lo = 0, *hi = (double)p.vals.size();
}
static ccs_numeric_type_t
type_of(const Param &p)
{
	return p.kind == Param::FLOAT ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
}
static std::string
ns(const Param &p, ccs_numeric_t v)
{
	return p.kind == Param::FLOAT ? sfmt("%.17g", v.f) : sfmt("%lld", (long long)v.i);
}
// a distribution placed around the domain: equal, inside, overlapping, disjoint or arbitrary
static Dist
dist_for(Src &s, const Param &p, int depth)
{
	int k = (int)s.weighted({3, 3, 2, 1});
	if (k == 2 || (k == 1 && depth <= 0)) {
		DistOpts o;
		o.wide = s.chance(1, 5);
		return gen_dist1(s, depth, o, type_of(p));
	}
	if (k == 3 && p.kind >= Param::CAT) { // a wheel with more or less areas than values
		Dist   d;
		d.kind = Dist::ROULETTE;
		size_t n = std::max<size_t>(1, p.vals.size() + s.draw(4) - 1);
		for (size_t i = 0; i < n; i++)
			d.areas.push_back(s.chance(1, 4) ? 0.0 : (double)(1 + s.draw(6)));
		d.areas[s.draw(n)] = 2;
		return d;
	}
	if (k == 1) {
		Dist d;
		d.kind   = Dist::MIXTURE;
		size_t n = 1 + s.draw(3);
		for (size_t i = 0; i < n; i++) {
			d.subs.push_back(dist_for(s, p, depth - 1));
			d.areas.push_back((double)(1 + s.draw(4)));
		}
		return d;
	}
	Dist d;
	d.kind = Dist::UNIFORM;
	d.t    = type_of(p);
	if (p.kind == Param::FLOAT) {
		double w = p.uf - p.lf;
		d.lf = p.lf + w * (double)(s.range(-2, 3)) / 4;
		d.uf = p.uf + w * (double)(s.range(-3, 2)) / 4;
		if (!(d.lf < d.uf))
			d.lf = p.lf, d.uf = p.uf;
		if (!std::isfinite(d.uf - d.lf))
			d.lf = p.lf, d.uf = p.uf;
	} else {
		int64_t l = p.kind == Param::INT ? p.li : 0;
		int64_t u = p.kind == Param::INT ? p.ui : (int64_t)p.vals.size();
		d.li = l;
		d.ui = u;
		if (l > -(INT64_C(1) << 60) && u < (INT64_C(1) << 60)) {
			d.li += s.range(-3, 2);
			d.ui += s.range(-2, 3);
			if (d.li >= d.ui)
				d.li = l, d.ui = u;
		}
	}
	return d;
}
// Can the law be computed with floats there: not on a range a few floats wide,
// where the rounding of the samples decides.
static bool
resolved(const Param &p)
{
	double lo, hi;
	range_of(p, &lo, &hi);
	if (p.kind != Param::FLOAT && std::fabs(lo) < 1e15 && std::fabs(hi) < 1e15)
		return true;
	double a = std::max(std::fabs(lo), std::fabs(hi));
	return hi - lo > 1e6 * (std::nextafter(a, INFINITY) - a);
}
// the least probability for a sample to be usable
static double
mass(const Dist &d, const std::vector<Param> &ps)
{
	double best = 1;
	for (auto &p : ps)
		if (!resolved(p))
			return 0;
	for (int sg = -1; sg <= 1; sg++) {
		std::vector<Cell> cs;
		for (size_t k = 0; k < ps.size(); k++) {
			double lo, hi;
			range_of(ps[k], &lo, &hi);
			double e = ps[k].kind == Param::FLOAT ? 1e-9 * (hi - lo) * sg : 0;
			cs.push_back({k, lo + e, hi - e});
		}
		double p = prob(d, cs);
		best     = p < best ? p : p == p ? best : 0;
	}
	return best;
}
static void
body(Src &s)
{
	Pool      pool;
	ParamOpts o;
	o.none_vals = true;
	o.wide      = s.chance(1, 4);
	if (s.chance(1, 25)) { // strings cannot be sampled
		ParamOpts so;
		so.num = so.cat = so.ord = so.disc = false;
		so.str = true;
		Param p = gen_param(s, pool, "p", so);
		Dist  d = gen_uniform(s, true, false);
		build_dist(d, pool);
		ccs_rng_t     rng = make_rng(pool, 1);
		ccs_datum_t   v[2];
		ccs_numeric_t x = NI(0);
		ccs_distribution_t dd = nullptr;
		ERR(ccs_parameter_sample(p.h, d.h, rng, v), CCS_RESULT_ERROR_UNSUPPORTED_OPERATION);
		ERR(ccs_parameter_convert_samples(p.h, CCS_TRUE, 1, &x, v), CCS_RESULT_ERROR_UNSUPPORTED_OPERATION);
		ERR(ccs_parameter_get_default_distribution(p.h, &dd), CCS_RESULT_ERROR_UNSUPPORTED_OPERATION);
		return;
	}
	size_t             dim = s.chance(1, 3) ? 2 + s.draw(2) : 1;
	std::vector<Param> ps;
	for (size_t k = 0; k < dim; k++)
		ps.push_back(gen_param(s, pool, sfmt("p%zu", k), o));
	for (auto &p : ps)
		s.log("%s\n", p.str().c_str());
	Dist d;
	bool dflt = dim == 1 && s.chance(1, 4);
	if (dim == 1)
		d = dist_for(s, ps[0], 2);
	else if (s.chance(2, 3)) {
		d.kind = Dist::MULTI;
		for (auto &p : ps)
			d.subs.push_back(dist_for(s, p, 1));
	} else { // mixture of joint distributions
		d.kind   = Dist::MIXTURE;
		size_t n = 1 + s.draw(3);
		for (size_t i = 0; i < n; i++) {
			Dist m;
			m.kind = Dist::MULTI;
			for (auto &p : ps)
				m.subs.push_back(dist_for(s, p, 0));
			d.subs.push_back(m);
			d.areas.push_back((double)(1 + s.draw(4)));
		}
	}
	if (dflt) { // the default distribution covers the domain uniformly
		const Param &p = ps[0];
		d              = Dist();
		d.t            = type_of(p);
		d.li = p.kind == Param::INT ? p.li : 0;
		d.ui = p.kind == Param::INT ? p.ui : (int64_t)p.vals.size();
		d.qi = p.kind == Param::INT ? p.qi : 0;
		d.lf = p.lf;
		d.uf = p.uf;
		d.qf = p.kind == Param::FLOAT ? p.qf : 0;
		OK(ccs_parameter_get_default_distribution(p.h, &d.h));
		pool.add(d.h);
		ccs_numeric_t    l, u, q;
		ccs_scale_type_t sc;
		OK(ccs_uniform_distribution_get_properties(d.h, &l, &u, &sc, &q));
		CHECK(sc == CCS_SCALE_TYPE_LINEAR, "default distribution: scale");
		if (d.t == CCS_NUMERIC_TYPE_INT)
			CHECK(l.i == d.li && u.i == d.ui && q.i == d.qi, "default distribution of %s is [%lld,%lld[ q=%lld",
			      p.str().c_str(), (long long)l.i, (long long)u.i, (long long)q.i);
		else
			CHECK(l.f == d.lf && u.f == d.uf && q.f == d.qf, "default distribution of %s is [%g,%g[ q=%g",
			      p.str().c_str(), l.f, u.f, q.f);
	} else
		build_dist(d, pool);
	s.log("%s\n", d.str().c_str());
	ccs_rng_t rng = make_rng(pool, s.draw(0));
	double    m   = mass(d, ps);

	size_t   rounds = 1 + s.draw(3);
	size_t   law_n = s.chance(1, 8) ? 800 : 0;
	std::vector<std::vector<double>> all(dim); // raw values of every sample drawn
	bool     some = false, some_fail = false;
	for (size_t r = 0; r < rounds + (law_n ? 1 : 0); r++) {
		size_t n = r == rounds ? law_n : s.chance(1, 10) ? 0 : 1 + s.draw(s.coin() ? 3 : 40);
		bool   one = n == 1 && s.coin();
		std::vector<ccs_datum_t> v(n * dim + 1, ccs_int(424242));
		ccs_parameter_t          ph[4];
		for (size_t k = 0; k < dim; k++)
			ph[k] = ps[k].h;
		long         live = pbt::vp_live_allocs;
		ccs_result_t res;
		if (dim == 1 && s.coin())
			res = one ? ccs_parameter_sample(ps[0].h, d.h, rng, v.data()) :
				    ccs_parameter_samples(ps[0].h, d.h, rng, n, v.data());
		else
			res = one ? ccs_distribution_parameters_sample(d.h, rng, ph, v.data()) :
				    ccs_distribution_parameters_samples(d.h, rng, ph, n, v.data());
		if (res == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL) {
			ccs_clear_thread_error();
			CHECK(m < 0.6, "sampling failed although at least %.3f of the law is in the domain", m);
			CHECK(pbt::vp_live_allocs == live, "unsuccessful sampling leaked %ld allocations",
			      pbt::vp_live_allocs - live);
			some_fail = true;
			continue;
		}
		OK(res);
		CHECK(pbt::vp_live_allocs == live, "sampling leaked %ld allocations", pbt::vp_live_allocs - live);
		CHECK(v[n * dim].type == CCS_DATA_TYPE_INT && v[n * dim].value.i == 424242, "written past the end");
		for (size_t i = 0; i < n; i++) {
			ccs_numeric_t row[4];
			for (size_t k = 0; k < dim; k++) {
				D x = D::of(v[i * dim + k]);
				CHECK(ps[k].contains(x), "sample %zu of %zu: %s is not a value of %s", i, n,
				      x.str().c_str(), ps[k].str().c_str());
				ccs_numeric_t raw = raw_of(ps[k], x);
				std::string   why;
				CHECK(d.in_support(k, raw, &why), "sample %zu of %zu: %s for %s: %s", i, n,
				      x.str().c_str(), ps[k].str().c_str(), why.c_str());
				all[k].push_back(ps[k].kind == Param::FLOAT ? raw.f : (double)raw.i);
				row[k] = raw;
				some = true;
			}
			CHECK(d.row_in_support(row), "sample %zu of %zu: no component of the law gives these values together",
			      i, n);
		}
	}
	// the law restricted to the domain
	size_t N = all[0].size();
	if (N >= 400 && m > 1e-3) {
		std::vector<Cell> dom;
		for (size_t k = 0; k < dim; k++) {
			double lo, hi;
			range_of(ps[k], &lo, &hi);
			dom.push_back({k, lo, hi});
		}
		double mm = prob(d, dom);
		if (std::fabs(mm - m) < 1e-6 * mm)
			for (size_t k = 0; k < dim; k++)
				for (int t = 0; t < 5; t++) {
					double lo = dom[k].lo, hi = dom[k].hi, c;
					c = lo + (hi - lo) * (double)(1 + s.draw(997)) / 998;
					if (ps[k].kind != Param::FLOAT)
						c = std::ceil(c) - 0.5;
					double pr[3];
					for (int sg = -1; sg <= 1; sg++) {
						auto cs  = dom;
						cs[k].hi = c + 1e-9 * (hi - lo) * sg;
						pr[sg + 1] = prob(d, cs) / mm;
					}
					if (std::fabs(pr[2] - pr[0]) > 1e-6)
						continue;
					size_t cnt = 0;
					for (double x : all[k])
						cnt += x < c;
					CHECK(!implausible(cnt, N, pr[1]),
					      "%s is below %.10g %zu times out of %zu, probability %.6f",
					      ps[k].str().c_str(), c, cnt, N, pr[1]);
					s.label("law checked");
				}
	}
	// conversion of raw samples
	for (size_t k = 0; k < dim; k++) {
		size_t                     n = 1 + s.draw(6);
		bool                       over = s.coin();
		std::vector<ccs_numeric_t> raw;
		for (size_t i = 0; i < n; i++) {
			ccs_numeric_t x = raw_of(ps[k], ps[k].gen_in(s));
			if (over && s.chance(1, 2)) {
				if (ps[k].kind == Param::FLOAT)
					x = NF(s.coin() ? ps[k].uf : s.f64());
				else if (ps[k].kind == Param::INT)
					x = NI(s.coin() ? ps[k].ui : s.i64());
				else
					x = NI(s.coin() ? (int64_t)ps[k].vals.size() : s.coin() ? -1 : s.i64());
			}
			raw.push_back(x);
		}
		std::vector<ccs_numeric_t> raw0 = raw;
		std::vector<ccs_datum_t>   v(n + 1, ccs_int(424242));
		OK(ccs_parameter_convert_samples(ps[k].h, over ? CCS_TRUE : CCS_FALSE, n, raw.data(), v.data()));
		CHECK(memcmp(raw.data(), raw0.data(), n * sizeof raw[0]) == 0, "the samples were changed");
		CHECK(v[n].type == CCS_DATA_TYPE_INT && v[n].value.i == 424242, "written past the end");
		for (size_t i = 0; i < n; i++) {
			D want, got = D::of(v[i]);
			if (!stands_for(ps[k], raw[i], &want))
				want = D::inactive();
			CHECK(got == want, "sample %s of %s converted to %s instead of %s",
			      ns(ps[k], raw[i]).c_str(), ps[k].str().c_str(), got.str().c_str(), want.str().c_str());
		}
	}
	s.nontrivial(some && m < 1 - 1e-9);
	s.feature(pbt::hstr(d.str()));
	s.label_if(some_fail, "domain out of reach");
	s.label_if(dim > 1, "joint");
	s.label_if(some && m < 1 - 1e-9, "samples outside the domain rejected");
	s.label_if(dflt, "default distribution");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P11";
	c.rule = "random parameters sampled with a distribution placed around their domains; non-trivial: samples were returned although part of the law lies outside the domain";
	c.assumptions = {"sampling may give up when less than 60% of the law is in the domain",
			 "law restricted to the domain tested by a Chernoff bound below 1e-15"};
	c.quick_cases    = 30000;
	c.thorough_cases = 1500000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
