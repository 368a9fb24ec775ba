// Laws of the distributions, written from their definitions, and a rigorous
// test of an observed frequency.
#pragma once
#include "gen.hpp"
#include <algorithm>

static inline double
phi(double z)
{
	return 0.5 * std::erfc(-z / std::sqrt(2.0));
}
static inline double
clamp01(double p)
{
	return p < 0 ? 0 : p > 1 ? 1 : p;
}
static inline double
log_ratio(double a, double b)
{
	double r = (a - b) / b;
	return r < 1e-2 ? std::log1p(r) : std::log(a) - std::log(b);
}
// P(X < x) for a one-dimensional leaf, written from the definition of the law
static inline double
below(const Dist &d, double x)
{
	bool lg = d.scale == CCS_SCALE_TYPE_LOGARITHMIC;
	bool is_int = d.t == CCS_NUMERIC_TYPE_INT;
	switch (d.kind) {
	case Dist::UNIFORM:
		if (is_int) {
			double l = (double)d.li, u = (double)d.ui, q = d.qi ? (double)d.qi : 1;
			double m = std::max(0.0, std::ceil((x - l) / q)); // grid points below x
			if (lg) {
				double e = std::min(u, l + m * q);
				return clamp01(log_ratio(e, l) / log_ratio(u, l));
			}
			return clamp01(m / std::floor((u - l) / q));
		} else {
			double l = d.lf, u = d.uf, e = x;
			if (d.qf > 0)
				e = l + std::max(0.0, std::ceil((x - l) / d.qf)) * d.qf;
			e = std::max(l, std::min(u, e));
			if (lg)
				return clamp01(log_ratio(e, l) / log_ratio(u, l));
			return clamp01((e - l) / (u - l));
		}
	case Dist::NORMAL: {
		double q = is_int ? (d.qi ? (double)d.qi : 1.0) : d.qf;
		if (lg) {
			if (q > 0) {
				double m = std::ceil(x / q); // X < x <=> X <= (m-1) q <=> rounded below m
				if (m <= 1)
					return 0;
				// upper tails, which stay accurate far from mu
				double lo = phi(-(std::log(q / 2) - d.mu) / d.sigma);
				double hi = phi(-(std::log((m - 0.5) * q) - d.mu) / d.sigma);
				return lo > 0 ? clamp01((lo - hi) / lo) : 1;
			}
			return x <= 0 ? 0 : phi((std::log(x) - d.mu) / d.sigma);
		}
		if (q > 0)
			return phi(((std::ceil(x / q) - 0.5) * q - d.mu) / d.sigma);
		return phi((x - d.mu) / d.sigma);
	}
	case Dist::ROULETTE: {
		double t = 0, a = 0;
		for (size_t i = 0; i < d.areas.size(); i++) {
			t += d.areas[i];
			if ((double)i < x)
				a += d.areas[i];
		}
		return a / t;
	}
	default:
		return 0;
	}
}
struct Cell {
	size_t k;
	double lo, hi; // lo <= X < hi
};
// probability that every component of the list is in its cell
static inline double
prob(const Dist &d, const std::vector<Cell> &cs)
{
	if (cs.empty())
		return 1;
	if (d.kind == Dist::MIXTURE) {
		double t = 0, p = 0;
		for (size_t i = 0; i < d.subs.size(); i++) {
			t += d.areas[i];
			p += d.areas[i] * prob(d.subs[i], cs);
		}
		return p / t;
	}
	if (d.kind == Dist::MULTI) {
		double p   = 1;
		size_t off = 0;
		for (auto &x : d.subs) {
			size_t            n = x.dim();
			std::vector<Cell> in;
			for (auto &c : cs)
				if (c.k >= off && c.k < off + n)
					in.push_back({c.k - off, c.lo, c.hi});
			p *= prob(x, in);
			off += n;
		}
		return p;
	}
	double lo = -INFINITY, hi = INFINITY;
	for (auto &c : cs) {
		lo = std::max(lo, c.lo);
		hi = std::min(hi, c.hi);
	}
	if (!(lo < hi))
		return 0;
	double a = lo == -INFINITY ? 0 : below(d, lo), b = hi == INFINITY ? 1 : below(d, hi);
	return clamp01(b - a);
}
// rejects with probability below 2*exp(-T) when the count really follows p
static inline bool
implausible(size_t count, size_t n, double p)
{
	const double T = 36;
	double f = (double)count / (double)n;
	// tolerance for rounding in the model
	double tol = 1e-7;
	if (std::fabs(f - p) <= tol)
		return false;
	p = clamp01(f > p ? p + tol : p - tol);
	double kl = 0;
	if (f > 0)
		kl += p > 0 ? f * std::log(f / p) : INFINITY;
	if (f < 1)
		kl += p < 1 ? (1 - f) * std::log((1 - f) / (1 - p)) : INFINITY;
	return kl * (double)n > T;
}


// the distribution a parameter gets when none is given
static inline Dist
default_dist(const Param &p)
{
	Dist d;
	d.kind = Dist::UNIFORM;
	d.t    = p.kind == Param::FLOAT ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	if (p.kind == Param::FLOAT)
		d.lf = p.lf, d.uf = p.uf, d.qf = p.qf;
	else if (p.kind == Param::INT)
		d.li = p.li, d.ui = p.ui, d.qi = p.qi;
	else
		d.li = 0, d.ui = (int64_t)p.vals.size();
	return d;
}
struct Atom {
	D      v;
	double p;
};
// values of a parameter drawn with d and their probabilities, when they are
// few; mass is the probability for a raw sample to be in the domain
static inline bool
atoms(const Param &p, const Dist &d, std::vector<Atom> &out, double *mass)
{
	out.clear();
	*mass = 0;
	if (p.kind == Param::FLOAT || p.kind == Param::STR)
		return false;
	int64_t l = p.kind == Param::INT ? p.li : 0, u = p.kind == Param::INT ? p.ui : (int64_t)p.vals.size();
	if ((uint64_t)u - (uint64_t)l > 40)
		return false;
	for (int64_t k = l; k < u; k++) {
		double pr = prob(d, {{0, (double)k - 0.5, (double)k + 0.5}});
		*mass += pr;
		if (pr > 0)
			out.push_back({p.kind == Param::INT ? D::I(k) : p.vals[(size_t)k], pr});
	}
	for (auto &a : out)
		a.p /= *mass;
	return !out.empty();
}
