// P06: interval operations agree with the sets of numbers they denote.
#include "gen.hpp"

static double
gen_b(Src &s)
{
	switch (s.weighted({6, 1, 1, 1})) {
	case 0:
		return (double)s.small_int(4) / 2;
	case 1:
		return s.coin() ? INFINITY : -INFINITY;
	case 2:
		return std::nextafter((double)s.small_int(2) / 2, s.coin() ? 10.0 : -10.0);
	default:
		return s.f64();
	}
}
static int64_t
gen_i(Src &s)
{
	static const int64_t ext[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1};
	return s.chance(1, 5) ? ext[s.draw(4)] : s.chance(1, 8) ? s.i64() : s.small_int(3);
}
static ccs_interval_t
gen_iv(Src &s, bool is_int)
{
	ccs_interval_t v;
	v.type = is_int ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
	if (is_int) {
		v.lower = NI(gen_i(s));
		v.upper = NI(gen_i(s));
		if (v.lower.i > v.upper.i && s.chance(3, 4))
			std::swap(v.lower, v.upper);
	} else {
		v.lower = NF(gen_b(s));
		v.upper = NF(gen_b(s));
		if (v.lower.f > v.upper.f && s.chance(3, 4))
			std::swap(v.lower, v.upper);
	}
	v.lower_included = s.coin();
	v.upper_included = s.coin();
	return v;
}
static std::string
show(const ccs_interval_t &v)
{
	if (v.type == CCS_NUMERIC_TYPE_INT)
		return sfmt("%c%lld, %lld%c", v.lower_included ? '[' : ']', (long long)v.lower.i,
			    (long long)v.upper.i, v.upper_included ? ']' : '[');
	return sfmt("%c%.17g, %.17g%c", v.lower_included ? '[' : ']', v.lower.f, v.upper.f,
		    v.upper_included ? ']' : '[');
}
// membership, written out from the definition
static bool
in(const ccs_interval_t &v, ccs_numeric_t x)
{
	if (v.type == CCS_NUMERIC_TYPE_INT)
		return (x.i > v.lower.i || (v.lower_included && x.i == v.lower.i)) &&
		       (x.i < v.upper.i || (v.upper_included && x.i == v.upper.i));
	return (x.f > v.lower.f || (v.lower_included && x.f == v.lower.f)) &&
	       (x.f < v.upper.f || (v.upper_included && x.f == v.upper.f));
}
static void
points(const ccs_interval_t &v, std::vector<ccs_numeric_t> &out)
{
	if (v.type == CCS_NUMERIC_TYPE_INT) {
		for (int64_t b : {v.lower.i, v.upper.i}) {
			out.push_back(NI(b));
			if (b != INT64_MAX)
				out.push_back(NI(b + 1));
			if (b != INT64_MIN)
				out.push_back(NI(b - 1));
		}
	} else {
		for (double b : {v.lower.f, v.upper.f}) {
			out.push_back(NF(b));
			out.push_back(NF(std::nextafter(b, INFINITY)));
			out.push_back(NF(std::nextafter(b, -INFINITY)));
		}
		double m = v.lower.f / 2 + v.upper.f / 2;
		if (!std::isnan(m))
			out.push_back(NF(m));
	}
}
static bool
empty_set(const ccs_interval_t &v)
{
	if (v.type == CCS_NUMERIC_TYPE_INT) {
		__int128 l = (__int128)v.lower.i + (v.lower_included ? 0 : 1);
		__int128 u = (__int128)v.upper.i - (v.upper_included ? 0 : 1);
		return l > u;
	}
	// over the reals
	if (v.lower.f > v.upper.f)
		return true;
	return v.lower.f == v.upper.f && !(v.lower_included && v.upper_included);
}
static bool
same_set(const ccs_interval_t &a, const ccs_interval_t &b)
{
	if (a.type == CCS_NUMERIC_TYPE_INT) {
		__int128 l1 = (__int128)a.lower.i + (a.lower_included ? 0 : 1);
		__int128 u1 = (__int128)a.upper.i - (a.upper_included ? 0 : 1);
		__int128 l2 = (__int128)b.lower.i + (b.lower_included ? 0 : 1);
		__int128 u2 = (__int128)b.upper.i - (b.upper_included ? 0 : 1);
		return l1 == l2 && u1 == u2;
	}
	return a.lower.f == b.lower.f && a.upper.f == b.upper.f &&
	       !a.lower_included == !b.lower_included && !a.upper_included == !b.upper_included;
}

static void
body(Src &s)
{
	bool           is_int = s.coin();
	ccs_interval_t a = gen_iv(s, is_int), b = gen_iv(s, is_int);
	if (s.chance(1, 4)) { // share a bound
		if (s.coin())
			b.lower = a.lower;
		if (s.coin())
			b.upper = a.upper;
		if (s.chance(1, 4))
			b.lower = a.upper;
	}
	s.log("%s and %s", show(a).c_str(), show(b).c_str());
	ccs_interval_t a0 = a, b0 = b;
	std::vector<ccs_numeric_t> pts;
	points(a, pts);
	points(b, pts);
	for (int k = 0; k < 4; k++)
		pts.push_back(is_int ? NI(gen_i(s)) : NF(gen_b(s)));
	for (auto &x : pts) {
		CHECK((ccs_interval_include(&a, x) != 0) == in(a, x), "membership of %s in %s",
		      is_int ? sfmt("%lld", (long long)x.i).c_str() : sfmt("%.17g", x.f).c_str(),
		      show(a).c_str());
		CHECK((ccs_interval_include(&b, x) != 0) == in(b, x), "membership in %s", show(b).c_str());
	}
	ccs_bool_t ea = -1, eb = -1;
	OK(ccs_interval_empty(&a, &ea));
	OK(ccs_interval_empty(&b, &eb));
	CHECK((ea == CCS_TRUE) == empty_set(a) && (ea == CCS_TRUE || ea == CCS_FALSE), "emptiness of %s",
	      show(a).c_str());
	CHECK((eb == CCS_TRUE) == empty_set(b), "emptiness of %s", show(b).c_str());

	auto pstr = [&](ccs_numeric_t x) {
		return is_int ? sfmt("%lld", (long long)x.i) : sfmt("%.17g", x.f);
	};
	// intersection: exactly the common members; the result may be one of the operands
	ccs_interval_t r = a;
	int            alias = (int)s.draw(3);
	ccs_interval_t ta = a, tb = b, tr;
	memset(&tr, 0x5a, sizeof tr);
	ccs_interval_t *pr = alias == 0 ? &tr : alias == 1 ? &ta : &tb;
	OK(ccs_interval_intersect(&ta, &tb, pr));
	r = *pr;
	CHECK(r.type == a.type, "type of the intersection");
	for (auto &x : pts)
		CHECK(in(r, x) == (in(a, x) && in(b, x)), "%s: intersection %s of %s and %s",
		      pstr(x).c_str(), show(r).c_str(), show(a).c_str(), show(b).c_str());
	ccs_interval_t r2;
	OK(ccs_interval_intersect(&b, &a, &r2));
	if (!empty_set(r) || !empty_set(r2)) {
		CHECK(same_set(r, r2), "intersection is not symmetric");
		ccs_bool_t e = CCS_FALSE;
		OK(ccs_interval_equal(&r, &r2, &e));
		CHECK(e == CCS_TRUE, "intersection in the other order is reported different");
	}

	// union: the smallest interval holding both
	ta = a;
	tb = b;
	memset(&tr, 0x5a, sizeof tr);
	OK(ccs_interval_union(&ta, &tb, pr));
	r = *pr;
	CHECK(r.type == a.type, "type of the union");
	for (auto &x : pts)
		if (in(a, x) || in(b, x))
			CHECK(in(r, x), "%s is in an operand but not in the union %s of %s and %s",
			      pstr(x).c_str(), show(r).c_str(), show(a).c_str(), show(b).c_str());
	if (!empty_set(a) && !empty_set(b)) {
		for (auto &x : pts) {
			// outside the hull on one side: below every member of both, or above
			auto below = [&](const ccs_interval_t &v) {
				if (is_int)
					return x.i < v.lower.i || (x.i == v.lower.i && !v.lower_included);
				return x.f < v.lower.f || (x.f == v.lower.f && !v.lower_included);
			};
			auto above = [&](const ccs_interval_t &v) {
				if (is_int)
					return x.i > v.upper.i || (x.i == v.upper.i && !v.upper_included);
				return x.f > v.upper.f || (x.f == v.upper.f && !v.upper_included);
			};
			if ((below(a) && below(b)) || (above(a) && above(b)))
				CHECK(!in(r, x), "%s lies outside %s and %s but in their union %s",
				      pstr(x).c_str(), show(a).c_str(), show(b).c_str(), show(r).c_str());
		}
		s.nontrivial();
	}

	// equality
	ccs_bool_t eq = -1, eq2 = -1;
	OK(ccs_interval_equal(&a, &b, &eq));
	OK(ccs_interval_equal(&b, &a, &eq2));
	CHECK(eq == CCS_TRUE || eq == CCS_FALSE, "equality gives %d", (int)eq);
	CHECK(eq == eq2, "equality is not symmetric");
	if (!empty_set(a) || !empty_set(b)) {
		bool want = !empty_set(a) && !empty_set(b) && same_set(a, b);
		CHECK((eq == CCS_TRUE) == want, "equality of %s and %s", show(a).c_str(), show(b).c_str());
		s.label_if(want, "equal");
	}
	OK(ccs_interval_equal(&a, &a, &eq));
	CHECK(eq == CCS_TRUE, "%s is not equal to itself", show(a).c_str());
	CHECK(memcmp(&a, &a0, sizeof a) == 0 && memcmp(&b, &b0, sizeof b) == 0, "an operand was modified");

	// mixed types and missing operands are refused
	ccs_interval_t o = gen_iv(s, !is_int);
	ERR(ccs_interval_intersect(&a, &o, &r), CCS_RESULT_ERROR_INVALID_TYPE);
	ERR(ccs_interval_union(&a, &o, &r), CCS_RESULT_ERROR_INVALID_TYPE);
	ERR(ccs_interval_equal(&a, &o, &eq), CCS_RESULT_ERROR_INVALID_TYPE);
	s.label_if(is_int, "integers");
	s.label_if(empty_set(a) || empty_set(b), "an empty operand");
	s.label_if(is_int ? a.lower.i == b.lower.i : a.lower.f == b.lower.f, "same lower bound");
	s.label_if(is_int ? a.upper.i == b.upper.i : a.upper.f == b.upper.f, "same upper bound");
	s.label_if(is_int ? a.upper.i == b.lower.i : a.upper.f == b.lower.f, "touching");
}

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P06";
	c.rule     = "both operands are non-empty intervals";
	c.assumptions = {"NaN bounds are outside the claim; equality of two empty intervals is not claimed"};
	c.quick_cases    = 150000;
	c.thorough_cases = 10000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
