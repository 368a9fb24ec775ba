// Choice-sequence property-based testing engine.
//
// A case is a function of a finite sequence of integer choices (Src).  Cases
// are generated at random, or by mutating choice sequences that reached new
// code in the library under test (edge counters compiled into the library).
// Every case runs in a forked worker, so that a crash, a sanitizer report, an
// exit() or a hang of the library is an observed failure of that case and not
// of the engine.  A failing sequence is shrunk by re-running candidates in
// forked children, confirmed, and written as a replay file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/types.h>

namespace pbt {

struct Fail {
	std::string msg;
};
struct Discard {};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

std::string sfmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

inline uint64_t
mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t
hcomb(uint64_t a, uint64_t b)
{
	return mix64(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)));
}
inline uint64_t
hstr(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ull;
	return mix64(h);
}

class Src {
public:
	enum Mode { RANDOM, REPLAY };
	// shared recording area
	uint64_t *rec     = nullptr;
	uint64_t *rec_len = nullptr;
	size_t    rec_cap = 0;
	const uint64_t *in     = nullptr;
	size_t          in_len = 0;
	size_t          pos    = 0;
	Mode            mode   = RANDOM;
	uint64_t        state  = 1;
	bool            verbose = false;
	std::string     trace;
	// case facts
	bool                   is_nontrivial = false;
	uint64_t               shape         = 0;
	std::vector<const char *> labels;
	uint64_t               flags = 0;

	uint64_t
	raw()
	{
		state += 0x9e3779b97f4a7c15ull;
		uint64_t z = state;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	// uniform in [0, n); n == 0 means the full 64 bit range
	uint64_t
	draw(uint64_t n)
	{
		uint64_t v;
		if (pos < in_len) {
			v = in[pos];
			if (n)
				v %= n;
		} else if (mode == REPLAY) {
			v = 0;
		} else {
			v = raw();
			if (n)
				v = (uint64_t)(((unsigned __int128)v * n) >> 64);
		}
		if (pos >= rec_cap)
			throw Discard();
		rec[pos] = v;
		pos++;
		*rec_len = pos;
		return v;
	}
	// inclusive
	int64_t
	range(int64_t lo, int64_t hi)
	{
		return lo + (int64_t)draw((uint64_t)hi - (uint64_t)lo + 1);
	}
	bool
	chance(uint64_t num, uint64_t den)
	{ // shrinks to false
		return draw(den) >= den - num;
	}
	bool
	coin()
	{
		return draw(2) == 1;
	}
	template <class T>
	const T &
	pick(const std::vector<T> &v)
	{
		return v[draw(v.size())];
	}
	size_t
	weighted(std::initializer_list<int> w)
	{
		int t = 0;
		for (int x : w)
			t += x;
		int64_t d = (int64_t)draw((uint64_t)t);
		size_t  i = 0;
		for (int x : w) {
			if (d < x)
				return i;
			d -= x;
			i++;
		}
		return i - 1;
	}
	// geometric-ish size in [lo, hi]
	size_t
	size(size_t lo, size_t hi)
	{
		return (size_t)range((int64_t)lo, (int64_t)hi);
	}
	int64_t small_int(int64_t m = 20);
	int64_t i64();
	double  unit(); // [0,1)
	double  f64(); // finite, biased to boundary values
	double  small_f(); // multiples of 1/4 in a small range, or arbitrary
	std::string ident(size_t max = 8);
	std::string text(size_t max = 12);

	void
	log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void
	nontrivial(bool c = true)
	{
		if (c)
			is_nontrivial = true;
	}
	void
	feature(uint64_t h)
	{
		shape = hcomb(shape, h);
	}
	void
	label(const char *l)
	{
		for (const char *k : labels)
			if (!strcmp(k, l))
				return;
		labels.push_back(l);
	}
	void
	label_if(bool c, const char *l)
	{
		if (c)
			label(l);
	}
};

struct Config {
	const char *property;
	const char *rule; // non-triviality rule
	std::vector<const char *> assumptions;
	uint64_t quick_cases;    // per worker
	uint64_t thorough_cases; // per worker
	int      quick_cap_s;    // wall clock cap
	int      thorough_cap_s;
	double   case_timeout_s = 20;
	std::function<void(Src &)> body;
	// known findings are recognised by the body itself: it calls
	// known("<text>") when it meets exactly the listed one.
	int workers = 8;
	const char *level = "exploration";
};

void known(const char *text); // report a listed known finding met in this case

int run_main(int argc, char **argv, const Config &cfg);

// allocation accounting of the library under test (see rt.cpp)
extern "C" {
extern long  vp_live_allocs;
extern long  vp_alloc_calls;
extern long  vp_fail_at;      // fail the n-th allocation from now (0: never)
extern int   vp_failed;
extern int   vp_trace_alloc;
// when set, read and write calls of the library go there
extern ssize_t (*vp_read_hook)(int, void *, size_t);
extern ssize_t (*vp_write_hook)(int, const void *, size_t);
}

} // namespace pbt
