// P33: the Kokkos connector.  Sessions of declarations, nested tuning contexts
// and kernels are driven through the C entry points Kokkos calls, with a clock
// the harness owns; the answers are compared with a model of the declared
// candidates, of what was measured so far, and of which contexts converged.
#include "gen.hpp"
#include <impl/Kokkos_Profiling_C_Interface.h>
#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef Kokkos_Tools_VariableInfo  Info;
typedef Kokkos_Tools_VariableValue Value;
extern "C" {
void kokkosp_provide_tool_programming_interface(uint32_t, Kokkos_Tools_ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, Kokkos_Tools_ToolSettings *);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_parse_args(int, char **);
void kokkosp_print_help(char *);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_input_type(const char *, const size_t, Info *);
void kokkosp_declare_output_type(const char *, const size_t, Info *);
void kokkosp_request_values(size_t, size_t, Value *, size_t, Value *);
void kokkosp_begin_context(size_t);
void kokkosp_end_context(size_t);
}

// ---- the clock ----
static bool    fake = false;
static int64_t now_ns = 0;
extern "C" int
clock_gettime(clockid_t c, struct timespec *t) noexcept
{
	if (!fake)
		return (int)syscall(SYS_clock_gettime, c, t);
	t->tv_sec  = now_ns / 1000000000;
	t->tv_nsec = now_ns % 1000000000;
	return 0;
}
struct Faked {
	Faked() { fake = true; }
	~Faked() { fake = false; }
};

static std::vector<uint32_t> fences;
static void
fence(const uint32_t dev)
{
	fences.push_back(dev);
}

// ---- variables ----
struct Var {
	size_t                 id      = 0;
	bool                   context = false;
	std::string            name;
	Info                   info;
	std::vector<int64_t>   iv;
	std::vector<double>    fv;
	std::unique_ptr<Kokkos_Tools_Tuning_String[]> sv;
	std::vector<std::string> sc;
	// candidates, when they are few: by key
	std::vector<std::string> cands;
	bool                     exact = true; // candidates are compared exactly
	size_t                   ngrid = 0;    // tolerant grid
	double                   gl = 0, gs = 0;
	double                   lo = 0, hi = 0; // wide ranges, for the reach of quarters
	bool                     wide = false;
};
static std::string
key(const Info &i, const Kokkos_Tools_VariableValue_ValueUnion &v)
{
	switch (i.type) {
	case kokkos_value_double:
		return sfmt("%a", v.double_value);
	case kokkos_value_int64:
		return sfmt("%lld", (long long)v.int_value);
	default:
		return "s" + std::string(v.string_value, strnlen(v.string_value, sizeof v.string_value));
	}
}
static std::string
gen_str(Src &s)
{
	if (s.chance(1, 8))
		return std::string(63, (char)('a' + s.draw(3)));
	return s.ident(10);
}
static void
set_str(Kokkos_Tools_Tuning_String &d, const std::string &v)
{
	memset(d, '~', sizeof d);
	memcpy(d, v.c_str(), v.size() + 1);
}
static void
gen_var(Src &s, Var &v)
{
	memset(&v.info, 0, sizeof v.info);
	Info &i = v.info;
	i.type  = (Kokkos_Tools_VariableInfo_ValueType)s.draw(3);
	i.category = (Kokkos_Tools_VariableInfo_StatisticalCategory)s.draw(i.type == kokkos_value_string ? 2 : 4);
	size_t q   = s.draw(v.context ? 3 : 2);
	if (i.type == kokkos_value_string && q == 1)
		q = 0;
	if (q == 0) {
		i.valueQuantity = kokkos_value_set;
		size_t n        = s.size(1, 9);
		std::set<std::string> seen;
		if (i.type == kokkos_value_string)
			v.sv.reset(new Kokkos_Tools_Tuning_String[n]);
		for (size_t k = 0; k < n; k++) {
			Kokkos_Tools_VariableValue_ValueUnion u;
			memset(&u, 0, sizeof u);
			if (i.type == kokkos_value_int64)
				u.int_value = s.chance(1, 3) ? s.i64() : s.small_int();
			else if (i.type == kokkos_value_double) {
				u.double_value = s.chance(1, 3) ? s.f64() : s.small_f();
				if (u.double_value == 0)
					u.double_value = 0; // one zero only
			} else
				set_str(u.string_value, gen_str(s));
			if (!seen.insert(key(i, u)).second)
				continue;
			if (i.type == kokkos_value_int64)
				v.iv.push_back(u.int_value);
			else if (i.type == kokkos_value_double)
				v.fv.push_back(u.double_value);
			else
				memcpy(v.sv[v.cands.size()], u.string_value, sizeof u.string_value);
			v.cands.push_back(key(i, u));
		}
		i.candidates.set.size = v.cands.size();
		if (i.type == kokkos_value_int64)
			i.candidates.set.values.int_value = v.iv.data();
		else if (i.type == kokkos_value_double)
			i.candidates.set.values.double_value = v.fv.data();
		else
			i.candidates.set.values.string_value = v.sv.get();
		return;
	}
	if (q == 2) {
		i.valueQuantity = kokkos_value_unbounded;
		return;
	}
	i.valueQuantity = kokkos_value_range;
	auto &r         = i.candidates.range;
	r.openLower     = s.coin();
	r.openUpper     = s.coin();
	bool step       = s.coin();
	if (i.type == kokkos_value_int64) {
		int64_t l  = s.chance(1, 4) ? s.range(-1000000000000000ll, 1000000000000000ll) : s.small_int();
		int64_t st = step ? 1 + (int64_t)s.draw(s.chance(1, 6) ? 1000000000000ull : 7) : 0;
		int64_t e  = st ? st : 1;
		// number of candidates, then an upper bound that gives them
		int64_t n = s.chance(1, 5) ? s.range(50, 1000000) : s.range(1, 9);
		if (st > 1000000 && n > 100)
			n = 100;
		int64_t first = l + (r.openLower ? e : 0);
		int64_t last  = first + (n - 1) * e;
		int64_t slack = (int64_t)s.draw((uint64_t)e); // 0 .. e-1
		int64_t u     = last + slack + (r.openUpper ? 1 : 0);
		r.lower.int_value = l;
		r.upper.int_value = u;
		r.step.int_value  = st;
		if (n <= 12)
			for (int64_t k = 0; k < n; k++)
				v.cands.push_back(sfmt("%lld", (long long)(first + k * e)));
		v.wide = n > 12;
		v.lo   = (double)first;
		v.hi   = (double)last;
		v.gs   = (double)e;
		v.ngrid = (size_t)n;
		return;
	}
	double l = (double)s.range(-40, 40) / 4;
	if (!step) {
		double u = l + (s.chance(1, 6) ? 1e-6 : (double)s.range(1, 80) / 4);
		if (!r.openLower && !r.openUpper && s.chance(1, 8))
			u = l;
		r.lower.double_value = v.lo = l;
		r.upper.double_value = v.hi = u;
		v.wide  = u > l;
		v.exact = false;
		if (u == l) {
			Kokkos_Tools_VariableValue_ValueUnion x;
			x.double_value = l;
			v.cands.push_back(key(i, x));
		}
		return;
	}
	bool    dec = s.chance(1, 4); // steps that are not exact
	double  st  = dec ? (double)s.range(1, 9) / 10 : (double)s.range(1, 12) / 4;
	int64_t n   = s.range(1, 9);
	double  first = l + (r.openLower ? st : 0);
	double  u = first + (double)(n - 1) * st + st * (double)s.draw(4) / 4 + (r.openUpper ? st / 4 : 0);
	// u lies strictly below the next candidate (the open case: not above)
	if (!r.openUpper && u >= first + (double)n * st)
		u = first + (double)(n - 1) * st;
	if (dec) // away from the candidates, which are rounded
		u = first + ((double)(n - 1) + 0.5) * st;
	r.lower.double_value = l;
	r.upper.double_value = u;
	r.step.double_value  = st;
	v.exact = false;
	v.ngrid = (size_t)n;
	v.gl    = first;
	v.gs    = st;
}
// which candidate a value is: an index, or -1
static long
candidate(const Var &v, const Kokkos_Tools_VariableValue_ValueUnion &x)
{
	const Info &i = v.info;
	if (!v.cands.empty()) {
		auto it = std::find(v.cands.begin(), v.cands.end(), key(i, x));
		return it == v.cands.end() ? -1 : it - v.cands.begin();
	}
	if (i.type == kokkos_value_int64) {
		int64_t d = x.int_value - (int64_t)v.lo, e = (int64_t)v.gs;
		if (d < 0 || d % e || (uint64_t)(d / e) >= v.ngrid)
			return -1;
		return (long)((unsigned __int128)(d / e) * 4 / v.ngrid);
	}
	double d = x.double_value;
	if (v.ngrid) {
		double k = std::round((d - v.gl) / v.gs);
		if (k < 0 || k >= (double)v.ngrid || std::fabs(v.gl + k * v.gs - d) > 1e-9)
			return -1;
		return (long)k;
	}
	auto &r = i.candidates.range;
	if (!(d >= v.lo && d <= v.hi) || (r.openLower && d == v.lo) || (r.openUpper && d == v.hi))
		return -1;
	return std::min(3l, (long)((d - v.lo) / (v.hi - v.lo) * 4));
}
static size_t
num_classes(const Var &v)
{
	if (!v.cands.empty())
		return v.cands.size();
	if (v.wide)
		return 4;
	return v.ngrid;
}
// a value the application may give to a context variable
static Kokkos_Tools_VariableValue_ValueUnion
gen_ctx(Src &s, const Var &v)
{
	Kokkos_Tools_VariableValue_ValueUnion x;
	memset(&x, 0, sizeof x);
	const Info &i = v.info;
	auto &r       = i.candidates.range;
	switch (i.valueQuantity) {
	case kokkos_value_set: {
		size_t k = s.draw(v.cands.size());
		if (i.type == kokkos_value_int64)
			x.int_value = v.iv[k];
		else if (i.type == kokkos_value_double)
			x.double_value = v.fv[k];
		else
			memcpy(x.string_value, v.sv[k], sizeof x.string_value);
		break;
	}
	case kokkos_value_range:
		if (i.type == kokkos_value_int64) {
			// ends are likely
			int64_t k = s.coin() ? (s.coin() ? (int64_t)v.ngrid - 1 : 0) : (int64_t)s.draw(v.ngrid);
			x.int_value = (int64_t)v.lo + k * (int64_t)v.gs;
		} else if (v.ngrid)
			x.double_value = v.gl + (double)s.draw(v.ngrid) * v.gs;
		else {
			double a = v.lo, b = v.hi;
			if (r.openLower)
				a = std::nextafter(a, INFINITY);
			if (r.openUpper)
				b = std::nextafter(b, -INFINITY);
			switch (s.draw(3)) {
			case 0: x.double_value = a; break;
			case 1: x.double_value = b; break;
			default: x.double_value = a + (b - a) / 2;
			}
		}
		break;
	default:
		if (i.type == kokkos_value_int64) {
			x.int_value = s.i64();
			if (x.int_value == INT64_MAX)
				x.int_value--;
		} else if (i.type == kokkos_value_double) {
			x.double_value = s.f64();
			if (x.double_value == 0)
				x.double_value = 0;
		} else
			set_str(x.string_value, s.chance(1, 8) ? std::string() : gen_str(s));
	}
	return x;
}

// ---- regions ----
struct Region {
	std::vector<size_t> ctx, tun; // variable indexes
	std::vector<std::vector<Kokkos_Tools_VariableValue_ValueUnion>> points; // contexts met
	size_t measured = 0, asked = 0, suggested = 0;
	std::map<std::string, std::vector<std::pair<int64_t, std::string>>> hist;
	std::map<size_t, std::set<long>> seen; // variable -> classes proposed
};
struct Open {
	size_t      id = 0;
	size_t      region = 0;
	int64_t     start = 0;
	std::string feat, conf;
	bool        converged = false, effective = false;
};
struct Session {
	std::vector<std::unique_ptr<Var>> vars;
	std::vector<Region>               regions;
	std::vector<Open>                 open;
	size_t next_ctx = 0, next_var = 0;
	bool   conv() const { return open.empty() || open.back().effective; }
};
static bool sug_measured, sug_other, late_better;

static void
request(Src &s, Session &w, size_t ri, size_t pi, uint64_t perm)
{
	Region &r = w.regions[ri];
	auto    pt = r.points[pi];
	std::vector<Value> cv(r.ctx.size()), tv(r.tun.size());
	std::vector<size_t> co(r.ctx.size()), to(r.tun.size());
	for (size_t i = 0; i < co.size(); i++)
		co[i] = i;
	for (size_t i = 0; i < to.size(); i++)
		to[i] = i;
	if (perm) { // the order of the variables does not make a region
		uint64_t h = perm;
		for (size_t i = co.size(); i > 1; i--)
			std::swap(co[i - 1], co[(h = pbt::mix64(h)) % i]);
		for (size_t i = to.size(); i > 1; i--)
			std::swap(to[i - 1], to[(h = pbt::mix64(h)) % i]);
	}
	std::string fk;
	for (size_t i = 0; i < co.size(); i++)
		fk += key(w.vars[r.ctx[i]]->info, pt[i]) + "|";
	for (size_t i = 0; i < co.size(); i++) {
		Var &v        = *w.vars[r.ctx[co[i]]];
		cv[i].type_id = v.id;
		cv[i].value   = pt[co[i]];
		cv[i].metadata = &v.info;
	}
	for (size_t i = 0; i < to.size(); i++) {
		Var &v        = *w.vars[r.tun[to[i]]];
		tv[i].type_id = v.id;
		memset(&tv[i].value, 0, sizeof tv[i].value);
		tv[i].metadata = &v.info;
		// the default of the application, any value
		if (v.info.type == kokkos_value_string)
			memset(tv[i].value.string_value, 'z', sizeof tv[i].value.string_value);
	}
	std::vector<Value> cv0 = cv;
	Open o;
	o.id        = w.next_ctx++;
	o.region    = ri;
	o.feat      = fk;
	o.converged = r.measured >= 500;
	o.effective = w.conv() && o.converged;
	size_t nf = fences.size();
	kokkosp_begin_context(o.id);
	{
		Faked f;
		kokkosp_request_values(o.id, cv.size(), cv.data(), tv.size(), tv.data());
	}
	CHECK(fences.size() == nf, "asking for values fenced");
	o.start = now_ns;
	for (size_t i = 0; i < cv.size(); i++) {
		Var &v = *w.vars[r.ctx[co[i]]];
		CHECK(cv[i].type_id == v.id && cv[i].metadata == &v.info && key(v.info, cv[i].value) == key(v.info, cv0[i].value),
		      "context variable %s was changed", v.name.c_str());
	}
	std::vector<std::string> parts(to.size());
	for (size_t i = 0; i < tv.size(); i++) {
		Var &v = *w.vars[r.tun[to[i]]];
		CHECK(tv[i].type_id == v.id && tv[i].metadata == &v.info, "tuning variable %s was changed", v.name.c_str());
		if (v.info.type == kokkos_value_string)
			CHECK(strnlen(tv[i].value.string_value, 64) < 64, "string value is not terminated");
		long c = candidate(v, tv[i].value);
		CHECK(c >= 0, "tuning variable %s of type %d quantity %d got %s, which is no candidate", v.name.c_str(),
		      v.info.type, v.info.valueQuantity, key(v.info, tv[i].value).c_str());
		if (!o.converged)
			r.seen[r.tun[to[i]]].insert(c);
		parts[to[i]] = key(v.info, tv[i].value);
	}
	for (auto &p : parts)
		o.conf += p + "|";
	if (o.converged) {
		r.suggested++;
		auto it = r.hist.find(fk);
		if (it != r.hist.end()) {
			sug_measured = true;
			int64_t best = INT64_MAX;
			for (auto &e : it->second)
				best = std::min(best, e.first);
			bool ok = false;
			int64_t t = -1;
			for (auto &e : it->second)
				if (e.second == o.conf) {
					ok |= e.first == best;
					if (t < 0 || e.first < t)
						t = e.first;
				}
			CHECK(ok, "converged region %zu proposes %s (best time %lld) for context %s, the best measured time is %lld", ri,
			      o.conf.c_str(), (long long)t, fk.c_str(), (long long)best);
		} else
			sug_other = true;
	} else
		r.asked++;
	w.open.push_back(o);
}
static void
end(Session &w)
{
	Open o    = w.open.back();
	Region &r = w.regions[o.region];
	size_t nf = fences.size();
	{
		Faked f;
		kokkosp_end_context(o.id);
	}
	CHECK(fences.size() == nf, "leaving a context fenced");
	w.open.pop_back();
	if (!o.converged) {
		r.measured++;
		r.hist[o.feat].push_back({now_ns - o.start, o.conf});
	} else {
		for (auto &e : r.hist[o.feat])
			late_better |= now_ns - o.start < e.first;
		if (r.hist[o.feat].empty())
			r.hist.erase(o.feat);
	}
}
static void
kernel(Session &w, uint64_t kind, uint32_t dev, const std::string &name)
{
	static void (*const bg[3])(const char *, const uint32_t, uint64_t *) = {
		kokkosp_begin_parallel_for, kokkosp_begin_parallel_scan, kokkosp_begin_parallel_reduce};
	static void (*const en[3])(const uint64_t) = {
		kokkosp_end_parallel_for, kokkosp_end_parallel_scan, kokkosp_end_parallel_reduce};
	bool     want = !w.conv();
	uint64_t kid  = ~0ull;
	fences.clear();
	bg[kind](name.c_str(), dev, &kid);
	CHECK(fences.size() == want && (!want || fences[0] == dev), "%zu fences (device %u) before a kernel on device %u in %zu contexts, %sconverged",
	      fences.size(), fences.empty() ? 0 : fences[0], dev, w.open.size(), want ? "not all " : "all ");
	en[kind](kid);
	CHECK(fences.size() == 2u * want && (!want || fences[1] == dev), "%zu fences (device %u) around a kernel on device %u in %zu contexts, %sconverged",
	      fences.size(), fences.empty() ? 0 : fences.back(), dev, w.open.size(), want ? "not all " : "all ");
	fences.clear();
}
static void
reach(Session &w)
{
	for (auto &r : w.regions)
		for (size_t vi : r.tun) {
			Var   &v = *w.vars[vi];
			size_t n = num_classes(v);
			if (!n || r.asked < 45 * n)
				continue;
			CHECK(r.seen[vi].size() == n, "only %zu of %zu candidates of %s (type %d quantity %d) were ever proposed in %zu explorations",
			      r.seen[vi].size(), n, v.name.c_str(), v.info.type, v.info.valueQuantity, r.asked);
		}
}

static void
declare(Src &s, Session &w, bool context)
{
	std::unique_ptr<Var> v(new Var);
	v->context = context;
	w.next_var += 1 + s.draw(3);
	v->id   = w.next_var;
	v->name = "v" + std::to_string(v->id);
	gen_var(s, *v);
	std::string nm = v->name; // the name given does not outlive the call
	s.log("declare %s %s: type %d category %d quantity %d\n", context ? "context" : "tuning", nm.c_str(), v->info.type,
	      v->info.category, v->info.valueQuantity);
	if (v->info.valueQuantity == kokkos_value_range) {
		auto &r = v->info.candidates.range;
		if (v->info.type == kokkos_value_int64)
			s.log("   %s%lld, %lld%s step %lld\n", r.openLower ? "(" : "[", (long long)r.lower.int_value,
			      (long long)r.upper.int_value, r.openUpper ? ")" : "]", (long long)r.step.int_value);
		else
			s.log("   %s%g, %g%s step %g\n", r.openLower ? "(" : "[", r.lower.double_value, r.upper.double_value,
			      r.openUpper ? ")" : "]", r.step.double_value);
	}
	(context ? kokkosp_declare_input_type : kokkosp_declare_output_type)(nm.c_str(), v->id, &v->info);
	std::fill(nm.begin(), nm.end(), '#');
	w.vars.push_back(std::move(v));
}
// indexes of a region, an existing one or a new one; -1: none can be made
static long
region(Src &s, Session &w)
{
	if (!w.regions.empty() && (w.regions.size() >= 5 || s.coin()))
		return (long)s.draw(w.regions.size());
	std::vector<size_t> c, t;
	for (size_t i = 0; i < w.vars.size(); i++)
		(w.vars[i]->context ? c : t).push_back(i);
	if (t.empty())
		return w.regions.empty() ? -1 : 0;
	Region r;
	for (size_t i : c)
		if (s.coin())
			r.ctx.push_back(i);
	for (size_t i : t)
		if (s.coin())
			r.tun.push_back(i);
	if (r.tun.empty())
		r.tun.push_back(t[s.draw(t.size())]);
	for (size_t i = 0; i < w.regions.size(); i++)
		if (w.regions[i].ctx == r.ctx && w.regions[i].tun == r.tun)
			return (long)i;
	w.regions.push_back(std::move(r));
	s.log("region %zu\n", w.regions.size() - 1);
	return (long)w.regions.size() - 1;
}
static size_t
point(Src &s, Session &w, Region &r)
{
	if (!r.points.empty() && (r.points.size() >= 4 || s.coin()))
		return s.draw(r.points.size());
	std::vector<Kokkos_Tools_VariableValue_ValueUnion> p;
	for (size_t i : r.ctx)
		p.push_back(gen_ctx(s, *w.vars[i]));
	r.points.push_back(p);
	return r.points.size() - 1;
}
static int64_t
gen_elapsed(Src &s)
{
	switch (s.draw(4)) {
	case 0: return s.range(0, 3);
	case 1: return s.range(0, 3000);
	case 2: return s.range(0, 3000000000ll);
	default: return s.range(999999990ll, 1000000010ll);
	}
}
static void
body(Src &s)
{
	sug_measured = sug_other = late_better = false;
	long     live0 = pbt::vp_live_allocs;
	bool     left_open = false, nested = false;
	size_t   nsess = s.chance(1, 4) ? 2 : 1, next_ctx = 0, maxm = 0;
	uint64_t shape = 0;
	now_ns = s.range(0, 3000000000ll);
	for (size_t q = 0; q < nsess; q++) {
		Session w;
		w.next_ctx = next_ctx;
		Kokkos_Tools_ToolProgrammingInterface ti;
		memset(&ti, 0, sizeof ti);
		ti.fence = fence;
		fences.clear();
		kokkosp_init_library(0, KOKKOSP_INTERFACE_VERSION, 0, nullptr);
		Kokkos_Tools_ToolSettings st;
		memset(&st, 1, sizeof st);
		kokkosp_request_tool_settings(1, &st);
		CHECK(!st.requires_global_fencing, "the connector asks for global fences");
		kokkosp_provide_tool_programming_interface(1, ti);
		kokkosp_parse_args(0, nullptr);
		size_t nc = s.size(0, 3), nt = s.size(1, 3);
		for (size_t i = 0; i < nc; i++)
			declare(s, w, true);
		for (size_t i = 0; i < nt; i++)
			declare(s, w, false);
		size_t ops = s.size(1, 24);
		for (size_t k = 0; k < ops; k++) {
			size_t op = s.weighted({1, 4, 4, 4, 1, 5, 1});
			shape     = pbt::hcomb(shape, op);
			switch (op) {
			case 0: // later variables
				if (w.vars.size() < 12)
					declare(s, w, s.coin());
				break;
			case 1: { // a context is entered
				long ri;
				if (w.open.size() >= 4 || (ri = region(s, w)) < 0)
					break;
				size_t pi = point(s, w, w.regions[(size_t)ri]);
				nested |= !w.open.empty();
				s.log("%*senter region %ld point %zu\n", (int)w.open.size(), "", ri, pi);
				request(s, w, (size_t)ri, pi, s.draw(4));
				break;
			}
			case 2: // and left
				if (w.open.empty())
					break;
				now_ns += gen_elapsed(s);
				s.log("%*sleave\n", (int)w.open.size() - 1, "");
				end(w);
				break;
			case 3:
				kernel(w, s.draw(3), (uint32_t)(s.coin() ? s.draw(4) : s.draw(1ull << 32)), s.ident(5));
				break;
			case 4: { // a context without tuning values
				Faked f;
				kokkosp_begin_context(w.next_ctx);
				kokkosp_end_context(w.next_ctx++);
				break;
			}
			case 5: { // many turns in one region
				long ri;
				if (w.open.size() >= 4 || (ri = region(s, w)) < 0)
					break;
				Region  &r  = w.regions[(size_t)ri];
				size_t   np = 1 + s.draw(3);
				std::vector<size_t> pts;
				for (size_t i = 0; i < np; i++)
					pts.push_back(point(s, w, r));
				size_t left = r.measured < 500 ? 500 - r.measured : 0, n;
				switch (s.draw(5)) {
				case 0: n = s.size(1, 20); break;
				case 1: n = left ? left - 1 : 1; break;
				case 2: n = left; break;
				case 3: n = left + s.size(1, 6); break;
				default: n = s.size(20, 200);
				}
				uint64_t h    = s.draw(0);
				int64_t  span = s.pick(std::vector<int64_t>{5, 40, 1000, 3000000000ll});
				bool     kern = s.coin();
				s.log("%*s%zu turns in region %ld\n", (int)w.open.size(), "", n, ri);
				for (size_t i = 0; i < n; i++) {
					h = pbt::mix64(h);
					request(s, w, (size_t)ri, pts[h % np], (h >> 8) & 3);
					if (kern && ((h >> 16) & 7) == 0)
						kernel(w, (h >> 20) % 3, (uint32_t)(h >> 32), "k");
					h = pbt::mix64(h);
					now_ns += (int64_t)(h % (uint64_t)span);
					end(w);
				}
				break;
			}
			default:
				now_ns += gen_elapsed(s);
			}
		}
		reach(w);
		left_open |= !w.open.empty();
		if (s.coin())
			while (!w.open.empty()) {
				kernel(w, 0, 7, "k");
				end(w);
			}
		if (w.open.empty())
			kernel(w, 1, 3, "k");
		for (auto &r : w.regions)
			maxm = std::max(maxm, r.measured);
		kokkosp_finalize_library();
		next_ctx = s.coin() ? 0 : w.next_ctx;
		CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain after the library was finalized", pbt::vp_live_allocs - live0);
	}
	s.nontrivial(sug_measured || (nested && maxm >= 20));
	s.feature(shape);
	s.label_if(sug_measured, "suggestion for a measured context");
	s.label_if(sug_other, "suggestion for a context never measured");
	s.label_if(nested, "nested contexts");
	s.label_if(left_open, "contexts open at the end");
	s.label_if(late_better, "better time after convergence");
	s.label_if(maxm == 499, "499 measurements");
	s.label_if(maxm == 500, "500 measurements");
}
int
main(int argc, char **argv)
{
	std::cout.setstate(std::ios::failbit); // the connector is talkative
	pbt::Config c;
	c.property = "P33";
	c.rule = "one or two sessions of up to 24 operations (declare a variable, enter, leave, run a kernel, hundreds of turns in a region); non-trivial: a converged region had to propose its best measurement, or contexts were nested and a region measured 20 times";
	c.assumptions = {"one request for values per context, and contexts are left in the opposite order of entering",
			 "ranges stay away from the ends of the 64-bit integers; context values are candidates of their variables",
			 "a candidate is expected to be proposed once the region explored 45 times the number of candidates (or quarters of a wide range)"};
	c.quick_cases    = 3000;
	c.thorough_cases = 100000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
