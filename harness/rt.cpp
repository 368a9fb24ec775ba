// Engine implementation: generation loop, workers, shrinking, replay, evidence,
// and the allocation accounting used by every property.
#include "pbt.hpp"
#include <cinttypes>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstddef>

extern "C" const char *
__asan_default_options()
{
	return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:"
	       "quarantine_size_mb=4:malloc_context_size=8:"
	       "max_malloc_fill_size=1048576:malloc_fill_byte=190:"
	       "detect_stack_use_after_return=0:handle_abort=0:exitcode=99:"
	       "print_summary=1:symbolize=0:handle_segv=1";
}
extern "C" const char *
__ubsan_default_options()
{
	return "halt_on_error=1:exitcode=98:print_stacktrace=0";
}

// ---- coverage counters of the library ----
static unsigned char *cov_start[64], *cov_end[64];
static int            cov_n;
extern "C" void
__sanitizer_cov_8bit_counters_init(unsigned char *start, unsigned char *end)
{
	for (int i = 0; i < cov_n; i++)
		if (cov_start[i] == start)
			return;
	if (start != end && cov_n < 64) {
		cov_start[cov_n] = start;
		cov_end[cov_n++] = end;
	}
}

// ---- allocation accounting (linker --wrap) ----
extern "C" {
long vp_live_allocs = 0;
long vp_alloc_calls = 0;
long vp_fail_at     = 0;
int  vp_failed      = 0;
int  vp_trace_alloc = 0;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void  __real_free(void *);
char *__real_strdup(const char *);
struct gsl_rng_type_;
// reads and writes of the library can be scripted by a property
ssize_t (*vp_read_hook)(int, void *, size_t)        = nullptr;
ssize_t (*vp_write_hook)(int, const void *, size_t) = nullptr;
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t
__wrap_read(int fd, void *p, size_t n)
{
	return vp_read_hook ? vp_read_hook(fd, p, n) : __real_read(fd, p, n);
}
ssize_t
__wrap_write(int fd, const void *p, size_t n)
{
	return vp_write_hook ? vp_write_hook(fd, p, n) : __real_write(fd, p, n);
}
void *__real_gsl_rng_alloc(const void *);
void *__real_gsl_rng_clone(const void *);
void  __real_gsl_rng_free(void *);

static inline bool
vp_should_fail()
{
	__atomic_fetch_add(&vp_alloc_calls, 1, __ATOMIC_RELAXED);
	if (vp_fail_at > 0 && --vp_fail_at == 0) {
		vp_failed++;
		return true;
	}
	return false;
}
void *
__wrap_malloc(size_t n)
{
	if (vp_should_fail())
		return nullptr;
	void *p = __real_malloc(n);
	if (p)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void *
__wrap_calloc(size_t a, size_t b)
{
	if (vp_should_fail())
		return nullptr;
	void *p = __real_calloc(a, b);
	if (p)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void *
__wrap_realloc(void *o, size_t n)
{
	if (vp_should_fail())
		return nullptr;
	void *p = __real_realloc(o, n);
	if (p && !o)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	else if (!p && o && n == 0)
		__atomic_fetch_sub(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void
__wrap_free(void *p)
{
	if (p)
		__atomic_fetch_sub(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	__real_free(p);
}
char *
__wrap_strdup(const char *s)
{
	if (vp_should_fail())
		return nullptr;
	char *p = __real_strdup(s);
	if (p)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void *
__wrap_gsl_rng_alloc(const void *t)
{
	void *p = __real_gsl_rng_alloc(t);
	if (p)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void *
__wrap_gsl_rng_clone(const void *t)
{
	void *p = __real_gsl_rng_clone(t);
	if (p)
		__atomic_fetch_add(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	return p;
}
void
__wrap_gsl_rng_free(void *p)
{
	if (p)
		__atomic_fetch_sub(&vp_live_allocs, 1, __ATOMIC_RELAXED);
	__real_gsl_rng_free(p);
}
}

namespace pbt {

void
fail(const char *fmt, ...)
{
	char    buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Fail{buf};
}
std::string
sfmt(const char *fmt, ...)
{
	char    buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}
void
Src::log(const char *fmt, ...)
{
	if (!verbose)
		return;
	char    buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	trace += buf;
	trace += '\n';
	if (verbose && getenv("VP_LIVE")) {
		fprintf(stderr, "  %s\n", buf);
	}
}
int64_t
Src::small_int(int64_t m)
{
	// zig-zag so that 0 is simplest
	uint64_t v = draw((uint64_t)(2 * m + 1));
	return (v & 1) ? -(int64_t)((v + 1) / 2) : (int64_t)(v / 2);
}
int64_t
Src::i64()
{
	switch (weighted({8, 4, 2, 2, 2})) {
	case 0:
		return small_int(20);
	case 1:
		return small_int(100000);
	case 2: {
		static const int64_t b[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1,
					    INT64_MIN + 1, INT32_MAX, INT32_MIN,
					    (int64_t)1 << 32, -((int64_t)1 << 32),
					    (int64_t)1 << 53, ((int64_t)1 << 53) + 1,
					    UINT32_MAX, 1 << 24};
		return b[draw(sizeof b / sizeof *b)];
	}
	case 3: {
		int sh = (int)draw(63);
		int64_t v = (int64_t)((uint64_t)1 << sh) + small_int(2);
		return coin() ? -v : v;
	}
	default:
		return (int64_t)draw(0);
	}
}
double
Src::unit()
{
	return (double)draw((uint64_t)1 << 53) / (double)((uint64_t)1 << 53);
}
double
Src::small_f()
{
	switch (weighted({6, 3, 2})) {
	case 0:
		return (double)small_int(40) / 4.0;
	case 1:
		return (double)small_int(1000);
	default:
		return (unit() - 0.5) * 20.0;
	}
}
double
Src::f64()
{
	switch (weighted({8, 3, 2, 2})) {
	case 0:
		return small_f();
	case 1:
		return (unit() - 0.5) * std::ldexp(1.0, (int)range(-40, 60));
	case 2: {
		static const double b[] = {-0.0, 0.1, 1e-300, 4.9406564584124654e-324,
					   1.7976931348623157e308,
					   -1.7976931348623157e308, 9007199254740992.0,
					   9007199254740993.0, 9223372036854775807.0,
					   -9223372036854775808.0, 2.2250738585072014e-308,
					   0.30000000000000004};
		return b[draw(sizeof b / sizeof *b)];
	}
	default: {
		uint64_t u = draw(0);
		double   d;
		memcpy(&d, &u, 8);
		return std::isfinite(d) ? d : 1.0;
	}
	}
}
std::string
Src::ident(size_t max)
{
	size_t      n = (size_t)range(1, (int64_t)max);
	std::string r;
	for (size_t i = 0; i < n; i++)
		r += (char)('a' + draw(26));
	return r;
}
std::string
Src::text(size_t max)
{
	size_t      n = (size_t)draw(max + 2);
	std::string r;
	if (n > max) { // now and then a long one, often with a prefix seen before
		n = (size_t)draw(max + 1);
		if (chance(1, 2))
			r = std::string(draw(chance(1, 2) ? 12 : 140), 'a');
	}
	for (size_t i = 0; i < n; i++) {
		uint64_t k = draw(8);
		if (k < 6)
			r += (char)('a' + draw(26));
		else if (k == 6)
			r += (char)(32 + draw(95));
		else
			r += (char)(1 + draw(255));
	}
	return r;
}

// ---------------------------------------------------------------- runner --
static const size_t MAXC   = 1 << 16;
static const size_t MAXMSG = 8192;

struct Shared {
	volatile uint64_t cases;
	volatile uint64_t nontrivial;
	volatile uint64_t discards;
	volatile uint64_t mutated;
	volatile uint64_t corpus;
	volatile uint64_t edges;
	volatile uint64_t case_seed;
	volatile uint64_t rec_len;
	volatile int      status; // 0 running, 1 done, 2 failed(msg)
	volatile int      known;
	volatile uint64_t in_case;
	char              msg[MAXMSG];
	char              knownmsg[MAXMSG];
	uint64_t          rec[MAXC];
};

static Shared *cur_shared;

void
known(const char *text)
{
	if (cur_shared) {
		cur_shared->known++;
		snprintf(cur_shared->knownmsg, MAXMSG, "%s", text);
	}
}

static Shared *
new_shared()
{
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(1);
	}
	return (Shared *)p;
}

static double
now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

static std::string
jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += (char)c;
	}
	return r + "\"";
}

// run one case in this process; returns failure message or ""
struct CaseOut {
	bool        failed = false, discard = false;
	std::string msg;
};
static CaseOut
run_case(const Config &cfg, Src &s, Shared *sh)
{
	CaseOut o;
	s.rec         = sh->rec;
	s.rec_len     = (uint64_t *)&sh->rec_len;
	s.rec_cap     = MAXC;
	sh->rec_len   = 0;
	sh->in_case   = 1;
	cur_shared    = sh;
	try {
		cfg.body(s);
	} catch (Fail &f) {
		o.failed = true;
		o.msg    = f.msg;
	} catch (Discard &) {
		o.discard = true;
	}
	sh->in_case = 0;
	return o;
}

static void
set_limits()
{
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
}

static void
case_timer(double s)
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec  = (long)s;
	it.it_value.tv_usec = (long)((s - (double)(long)s) * 1e6);
	setitimer(ITIMER_REAL, &it, nullptr);
}

struct Verdict {
	bool        failed = false;
	std::string msg;   // what
	std::string cls;   // coarse class used while shrinking
	std::string trace;
	std::string err;   // stderr of the child
	std::vector<uint64_t> choices;
};

static std::string
read_all(int fd)
{
	std::string r;
	char        b[4096];
	lseek(fd, 0, SEEK_SET);
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0)
		r.append(b, (size_t)n);
	return r;
}

static int
tmp_fd()
{
	return memfd_create("vp", 0);
}

static Verdict
run_isolated(const Config &cfg, const std::vector<uint64_t> &ch, Shared *sh, bool verbose)
{
	Verdict v;
	int     ferr = tmp_fd(), ftr = tmp_fd();
	sh->status  = 0;
	sh->msg[0]  = 0;
	sh->rec_len = 0;
	pid_t pid   = fork();
	if (pid == 0) {
		dup2(ferr, 2);
		dup2(ferr, 1);
		set_limits();
		case_timer(cfg.case_timeout_s);
		Src s;
		s.mode    = Src::REPLAY;
		s.in      = ch.data();
		s.in_len  = ch.size();
		s.verbose = verbose;
		CaseOut o = run_case(cfg, s, sh);
		if (verbose) {
			std::string t = s.trace;
			if (write(ftr, t.data(), t.size()) < 0) {
			}
		}
		if (o.failed) {
			snprintf(sh->msg, MAXMSG, "%s", o.msg.c_str());
			sh->status = 2;
			_exit(77);
		}
		sh->status = 1;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	size_t n = sh->rec_len;
	v.choices.assign(sh->rec, sh->rec + n);
	if (sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		v.failed = false;
	} else if (sh->status == 2) {
		v.failed = true;
		v.msg    = sh->msg;
		v.cls    = "oracle";
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
		v.failed = true;
		v.msg    = "the library did not return within the case time limit (hang)";
		v.cls    = "hang";
	} else if (WIFSIGNALED(st)) {
		v.failed = true;
		v.msg    = sfmt("the process was killed by signal %d", WTERMSIG(st));
		v.cls    = "crash";
	} else {
		v.failed = true;
		v.msg    = sfmt("the process ended inside the library (exit status %d)",
				WEXITSTATUS(st));
		v.cls    = WEXITSTATUS(st) == 99 ? "crash" : "exit";
	}
	v.err = read_all(ferr);
	if (v.failed && v.err.find("AddressSanitizer") != std::string::npos) {
		size_t a = v.err.find("AddressSanitizer");
		size_t b = v.err.find('\n', a);
		v.msg += " [" + v.err.substr(a, b - a) + "]";
	}
	if (verbose)
		v.trace = read_all(ftr);
	close(ferr);
	close(ftr);
	return v;
}

static std::vector<uint64_t>
shrink(const Config &cfg, std::vector<uint64_t> best, const std::string &cls, Shared *sh,
       double budget, std::string *msg, int *tries)
{
	double t0    = now();
	auto   left  = [&]() { return now() - t0 < budget; };
	auto   attempt = [&](const std::vector<uint64_t> &c) {
		(*tries)++;
		Verdict v = run_isolated(cfg, c, sh, false);
		if (v.failed && (v.cls == cls)) {
			// keep what was consumed
			std::vector<uint64_t> n = v.choices;
			while (!n.empty() && n.back() == 0)
				n.pop_back();
			bool better = n.size() < best.size() ||
				      (n.size() == best.size() && n < best);
			if (better) {
				best = n;
				*msg = v.msg;
				return true;
			}
		}
		return false;
	};
	bool progress = true;
	if (cls == "hang")
		budget = std::min(budget, 45.0);
	while (progress && left()) {
		progress = false;
		// delete chunks
		for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) {
			for (size_t i = 0; i + k <= best.size() && left();) {
				std::vector<uint64_t> c = best;
				c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
				if (attempt(c))
					progress = true;
				else
					i += k;
			}
			if (k == 1)
				break;
		}
		// zero chunks
		for (size_t k = std::min<size_t>(16, best.size()); k >= 1 && left(); k /= 2) {
			for (size_t i = 0; i + k <= best.size() && left(); i += k) {
				std::vector<uint64_t> c = best;
				bool any = false;
				for (size_t j = i; j < i + k; j++) {
					any |= c[j] != 0;
					c[j] = 0;
				}
				if (any && attempt(c))
					progress = true;
			}
			if (k == 1)
				break;
		}
		// minimise values
		for (size_t i = 0; i < best.size() && left(); i++) {
			uint64_t lo = 0;
			while (i < best.size() && best[i] > lo && left()) {
				uint64_t cur = best[i];
				uint64_t mid = lo + (cur - lo) / 2;
				std::vector<uint64_t> c = best;
				c[i] = mid;
				if (attempt(c)) {
					progress = true;
				} else {
					if (cur - 1 > mid) {
						c    = best;
						c[i] = cur - 1;
						if (attempt(c)) {
							progress = true;
							continue;
						}
					}
					lo = mid + 1;
				}
			}
		}
	}
	return best;
}

// -------------------------------------------------------------- worker ----
static unsigned char
bucket(unsigned char c)
{
	if (c == 0)
		return 0;
	if (c <= 3)
		return (unsigned char)(1u << (c - 1));
	if (c <= 7)
		return 8;
	if (c <= 15)
		return 16;
	if (c <= 31)
		return 32;
	if (c <= 127)
		return 64;
	return 128;
}

static void
worker(const Config &cfg, int id, uint64_t seed, uint64_t cases, double deadline,
       uint64_t start_from_mutations, Shared *sh, const std::string &outfile)
{
	set_limits();
	std::unordered_set<uint64_t> shapes;
	std::map<std::string, uint64_t> labels;
	std::vector<std::vector<uint64_t>> corpus;
	std::vector<std::string> samples;
	std::vector<unsigned char> seen;
	size_t total = 0;
	for (int i = 0; i < cov_n; i++)
		total += (size_t)(cov_end[i] - cov_start[i]);
	seen.assign(total, 0);
	uint64_t st = mix64(seed * 1000003 + (uint64_t)id + 1);
	uint64_t edges = 0;
	(void)start_from_mutations;
	for (uint64_t c = 0; c < cases; c++) {
		if (now() > deadline)
			break;
		Src s;
		s.state = mix64(st + c);
		std::vector<uint64_t> seedv;
		// one case in two mutates a sequence that reached new code
		uint64_t r = mix64(s.state ^ 0xabcdef);
		if (!corpus.empty() && (r & 1)) {
			sh->mutated++;
			const std::vector<uint64_t> &b =
				corpus[(r >> 8) % corpus.size()];
			seedv = b;
			uint64_t q  = mix64(r);
			auto     nx = [&]() { return q = mix64(q); };
			int      nm = 1 + (int)(nx() % 4);
			for (int k = 0; k < nm; k++) {
				size_t n = seedv.size();
				switch (nx() % 6) {
				case 0: // truncate, continue with fresh choices
					if (n)
						seedv.resize(nx() % n);
					break;
				case 1:
				case 2:
					if (n)
						seedv[nx() % n] = nx() >> (nx() % 64);
					break;
				case 3:
					if (n > 1) {
						size_t i = nx() % n,
						       l = 1 + nx() % std::min<size_t>(8, n - i);
						seedv.erase(seedv.begin() + (long)i,
							    seedv.begin() + (long)(i + l));
					}
					break;
				case 4:
					if (n > 1) {
						size_t i = nx() % n,
						       l = 1 + nx() % std::min<size_t>(16, n - i);
						std::vector<uint64_t> piece(
							seedv.begin() + (long)i,
							seedv.begin() + (long)(i + l));
						seedv.insert(seedv.begin() + (long)i,
							     piece.begin(), piece.end());
					}
					break;
				default: {
					const std::vector<uint64_t> &o =
						corpus[nx() % corpus.size()];
					if (!o.empty() && n) {
						size_t i = nx() % n, j = nx() % o.size();
						seedv.resize(i);
						seedv.insert(seedv.end(),
							     o.begin() + (long)j, o.end());
					}
				}
				}
			}
			if (seedv.size() > MAXC / 2)
				seedv.resize(MAXC / 2);
			s.in     = seedv.data();
			s.in_len = seedv.size();
		}
		for (int i = 0; i < cov_n; i++)
			memset(cov_start[i], 0, (size_t)(cov_end[i] - cov_start[i]));
		bool want_sample = samples.size() < 3 && c >= 5;
		s.verbose = want_sample;
		case_timer(cfg.case_timeout_s);
		sh->cases++;
		CaseOut o = run_case(cfg, s, sh);
		if (o.failed) {
			snprintf(sh->msg, MAXMSG, "%s", o.msg.c_str());
			sh->status = 2;
			_exit(77);
		}
		if (o.discard) {
			sh->discards++;
			continue;
		}
		for (auto l : s.labels)
			labels[l]++;
		if (s.is_nontrivial) {
			sh->nontrivial++;
			// a case is identified by its choice sequence
			uint64_t h = s.shape;
			size_t   n = sh->rec_len;
			for (size_t i = 0; i < n; i++)
				h = (h ^ sh->rec[i]) * 1099511628211ull;
			shapes.insert(mix64(h));
			if (want_sample && s.trace.size() > 20)
				samples.push_back(s.trace.substr(0, 1500));
		}
		bool   fresh = false;
		size_t off   = 0;
		for (int i = 0; i < cov_n; i++) {
			size_t len = (size_t)(cov_end[i] - cov_start[i]);
			for (size_t j = 0; j < len; j++) {
				unsigned char v = cov_start[i][j];
				if (v) {
					unsigned char b = bucket(v);
					if (!(seen[off + j] & b)) {
						if (!seen[off + j])
							edges++;
						seen[off + j] |= b;
						fresh = true;
					}
				}
			}
			off += len;
		}
		if (fresh && sh->rec_len < 20000) {
			corpus.emplace_back(sh->rec, sh->rec + sh->rec_len);
			sh->corpus = corpus.size();
			sh->edges  = edges;
		}
	}
	case_timer(0);
	FILE *f = fopen(outfile.c_str(), "w");
	if (f) {
		fprintf(f, "E");
		for (size_t j = 0; j < seen.size(); j++)
			if (seen[j])
				fprintf(f, " %zu", j);
		fprintf(f, " %zu\n", seen.size());
		for (auto h : shapes)
			fprintf(f, "H %" PRIx64 "\n", h);
		for (auto &l : labels)
			fprintf(f, "L %" PRIu64 " %s\n", l.second, l.first.c_str());
		for (auto &t : samples)
			fprintf(f, "S %s\n", jstr(t).c_str());
		fclose(f);
	}
	sh->status = 1;
	_exit(0);
}

static bool
load_choices(const char *path, std::vector<uint64_t> *ch)
{
	FILE *f = fopen(path, "r");
	if (!f)
		return false;
	char line[1 << 16];
	bool ok = false;
	while (fgets(line, sizeof line, f)) {
		if (strncmp(line, "choices:", 8) == 0) {
			ok = true;
			char *p = line + 8, *e;
			for (;;) {
				uint64_t v = strtoull(p, &e, 10);
				if (e == p)
					break;
				ch->push_back(v);
				p = e;
			}
		} else if (strncmp(line, "more:", 5) == 0) {
			char *p = line + 5, *e;
			for (;;) {
				uint64_t v = strtoull(p, &e, 10);
				if (e == p)
					break;
				ch->push_back(v);
				p = e;
			}
		}
	}
	fclose(f);
	return ok;
}

int
run_main(int argc, char **argv, const Config &cfg)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	const char *tier_s  = getenv("VERIF_TIER");
	const char *seed_s  = getenv("VERIF_SEED");
	const char *verif   = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
	bool        thorough = tier_s && strcmp(tier_s, "thorough") == 0;
	uint64_t    seed    = seed_s ? strtoull(seed_s, nullptr, 10) : 1;
	uint64_t    cases   = thorough ? cfg.thorough_cases : cfg.quick_cases;
	double      cap     = thorough ? cfg.thorough_cap_s : cfg.quick_cap_s;
	int         W       = cfg.workers;
	bool        stats   = false;
	std::string replay;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--replay" && i + 1 < argc)
			replay = argv[++i];
		else if (a == "--cases" && i + 1 < argc)
			cases = strtoull(argv[++i], nullptr, 10);
		else if (a == "--cap" && i + 1 < argc)
			cap = atof(argv[++i]);
		else if (a == "--seed" && i + 1 < argc)
			seed = strtoull(argv[++i], nullptr, 10);
		else if (a == "--workers" && i + 1 < argc)
			W = atoi(argv[++i]);
		else if (a == "--stats")
			stats = true;
	}
	double  t0  = now();
	Shared *iso = new_shared();
	if (!replay.empty()) {
		std::vector<uint64_t> ch;
		if (!load_choices(replay.c_str(), &ch)) {
			fprintf(stderr, "cannot read %s\n", replay.c_str());
			return 2;
		}
		Verdict v = run_isolated(cfg, ch, iso, true);
		printf("%s", v.trace.c_str());
		fprintf(stderr, "%s", v.err.c_str());
		if (v.failed) {
			printf("property violated: %s\n", v.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", cfg.property, replay.c_str());
			return 1;
		}
		printf("replay passes\n");
		return 0;
	}
	std::vector<Shared *> sh((size_t)W);
	std::vector<pid_t>    pid((size_t)W, 0);
	std::vector<int>      errfd((size_t)W);
	std::vector<std::string> outf((size_t)W);
	char tmpdir[] = "/tmp/vp-run-XXXXXX";
	if (!mkdtemp(tmpdir)) {
		perror("mkdtemp");
		return 2;
	}
	fflush(stdout);
	fflush(stderr);
	for (int i = 0; i < W; i++) {
		sh[(size_t)i]    = new_shared();
		errfd[(size_t)i] = tmp_fd();
		outf[(size_t)i]  = sfmt("%s/w%d", tmpdir, i);
		pid_t p = fork();
		if (p == 0) {
			dup2(errfd[(size_t)i], 2);
			dup2(errfd[(size_t)i], 1);
			worker(cfg, i, seed, cases, t0 + cap, 0, sh[(size_t)i], outf[(size_t)i]);
		}
		pid[(size_t)i] = p;
	}
	int  alive = W, bad = -1;
	std::string bad_cls, bad_msg;
	std::vector<uint64_t> bad_choices;
	while (alive > 0) {
		int   st = 0;
		pid_t p  = waitpid(-1, &st, 0);
		if (p < 0)
			break;
		int w = -1;
		for (int i = 0; i < W; i++)
			if (pid[(size_t)i] == p)
				w = i;
		if (w < 0)
			continue;
		alive--;
		pid[(size_t)w] = 0;
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[(size_t)w]->status == 1;
		if (!ok && bad < 0) {
			bad     = w;
			bad_cls = sh[(size_t)w]->status == 2 ? "oracle" :
				  (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ? "hang" :
										 "crash";
			bad_msg = sh[(size_t)w]->status == 2 ?
					  std::string(sh[(size_t)w]->msg) :
					  sfmt("worker ended with status 0x%x", st);
			bad_choices.assign(sh[(size_t)w]->rec,
					   sh[(size_t)w]->rec + sh[(size_t)w]->rec_len);
			for (int i = 0; i < W; i++)
				if (pid[(size_t)i])
					kill(pid[(size_t)i], SIGKILL);
		}
	}
	uint64_t tot = 0, nt = 0, disc = 0, mut = 0, corp = 0;
	std::unordered_set<uint64_t>    distinct;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string>        samples;
	std::set<size_t>                edgeset;
	size_t                          alledges = 0;
	int                             knowns = 0;
	std::set<std::string>           knownmsgs;
	for (int i = 0; i < W; i++) {
		Shared *s = sh[(size_t)i];
		tot += s->cases;
		nt += s->nontrivial;
		disc += s->discards;
		mut += s->mutated;
		corp += s->corpus;
		knowns += s->known;
		if (s->known)
			knownmsgs.insert(s->knownmsg);
		FILE *f = fopen(outf[(size_t)i].c_str(), "r");
		if (f) {
			char *line = nullptr;
			size_t cap2 = 0;
			ssize_t n;
			while ((n = getline(&line, &cap2, f)) > 0) {
				if (line[n - 1] == '\n')
					line[n - 1] = 0;
				if (line[0] == 'H')
					distinct.insert(strtoull(line + 2, nullptr, 16));
				else if (line[0] == 'L') {
					char *e;
					uint64_t v = strtoull(line + 2, &e, 10);
					labels[e + 1] += v;
				} else if (line[0] == 'S') {
					if (samples.size() < 3)
						samples.push_back(line + 2);
				} else if (line[0] == 'E') {
					char *p = line + 1, *e;
					std::vector<size_t> v;
					for (;;) {
						size_t x = strtoull(p, &e, 10);
						if (e == p)
							break;
						v.push_back(x);
						p = e;
					}
					if (!v.empty()) {
						alledges = v.back();
						v.pop_back();
						edgeset.insert(v.begin(), v.end());
					}
				}
			}
			free(line);
			fclose(f);
			unlink(outf[(size_t)i].c_str());
		}
	}
	rmdir(tmpdir);
	int         violations = 0;
	std::string rpath;
	if (bad >= 0) {
		fprintf(stderr, "case failed in worker %d: %s\n", bad, bad_msg.c_str());
		// confirm in isolation, shrink, confirm three times
		Verdict v = run_isolated(cfg, bad_choices, iso, false);
		for (int k = 0; k < 2 && !v.failed; k++)
			v = run_isolated(cfg, bad_choices, iso, false);
		bool        confirmed = false;
		std::string msg       = bad_msg;
		std::vector<uint64_t> best = bad_choices;
		std::string how = "choice sequence";
		int tries = 0;
		if (v.failed) {
			msg = v.msg;
			while (!best.empty() && best.back() == 0)
				best.pop_back();
			best = shrink(cfg, best, v.cls, iso, 60.0, &msg, &tries);
			int good = 0;
			for (int k = 0; k < 3; k++) {
				v = run_isolated(cfg, best, iso, true);
				good += v.failed;
			}
			confirmed = good == 3;
		}
		if (!confirmed) {
			// state carried over between cases: repeat the worker's
			// whole run from the same seed
			uint64_t fc   = sh[(size_t)bad]->cases;
			int      good = 0;
			for (int k = 0; k < 2; k++) {
				Shared *s2 = new_shared();
				pid_t p = fork();
				if (p == 0) {
					int nul = open("/dev/null", O_WRONLY);
					dup2(nul, 2);
					dup2(nul, 1);
					worker(cfg, bad, seed, fc, now() + cap + 60, 0, s2,
					       "/dev/null");
				}
				int st = 0;
				waitpid(p, &st, 0);
				if (s2->status != 1 && s2->cases == fc)
					good++;
			}
			if (good == 2) {
				confirmed = true;
				how = sfmt("history of %llu cases of worker %d from seed %llu",
					   (unsigned long long)fc, bad,
					   (unsigned long long)seed);
				best = bad_choices;
				v    = Verdict();
				v.failed = true;
			}
		}
		if (confirmed) {
			violations = 1;
			uint64_t h = 7;
			for (auto x : best)
				h = hcomb(h, x);
			std::string dir = std::string(verif) + "/replays";
			mkdir(dir.c_str(), 0777);
			rpath = sfmt("%s/%s-%016llx.txt", dir.c_str(), cfg.property,
				     (unsigned long long)h);
			FILE *f = fopen(rpath.c_str(), "w");
			if (f) {
				fprintf(f, "property: %s\nfailure: %s\nreproduces by: %s\n",
					cfg.property, msg.c_str(), how.c_str());
				fprintf(f, "shrink attempts: %d, final length: %zu\n", tries,
					best.size());
				fprintf(f, "choices:");
				for (size_t i = 0; i < best.size(); i++) {
					if (i && i % 1000 == 0)
						fprintf(f, "\nmore:");
					fprintf(f, " %llu", (unsigned long long)best[i]);
				}
				fprintf(f, "\n--- trace of the case\n%s", v.trace.c_str());
				fprintf(f, "--- stderr\n%.6000s\n", v.err.c_str());
				fclose(f);
			}
			printf("failure: %s\n", msg.c_str());
			printf("%s", v.trace.substr(0, 6000).c_str());
		} else {
			fprintf(stderr,
				"note: the failure did not reproduce; not reported as a violation\n");
		}
	}
	double wall = now() - t0;
	// evidence
	std::string ed = std::string(verif) + "/evidence";
	mkdir(ed.c_str(), 0777);
	std::string ep = ed + "/" + cfg.property + ".json";
	FILE *f = fopen(ep.c_str(), "w");
	if (f) {
		fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n"
			   " \"level\": \"%s\",\n",
			jstr(cfg.property).c_str(), thorough ? "thorough" : "quick",
			(unsigned long long)seed, cfg.level);
		fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n"
			   "  \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n",
			(unsigned long long)tot, distinct.size(), jstr(cfg.rule).c_str());
		fprintf(f, "  \"nontrivial_cases\": %llu,\n  \"discarded\": %llu,\n"
			   "  \"coverage_guided_mutations\": %llu,\n  \"corpus_sequences\": %llu,\n"
			   "  \"library_edges_reached\": %zu,\n  \"library_edges_total\": %zu,\n",
			(unsigned long long)nt, (unsigned long long)disc, (unsigned long long)mut,
			(unsigned long long)corp, edgeset.size(), alledges);
		fprintf(f, "  \"labels\": {");
		bool first = true;
		for (auto &l : labels) {
			fprintf(f, "%s\n   %s: %llu", first ? "" : ",", jstr(l.first).c_str(),
				(unsigned long long)l.second);
			first = false;
		}
		fprintf(f, "},\n  \"samples\": [");
		first = true;
		for (auto &s : samples) {
			fprintf(f, "%s\n   %s", first ? "" : ",", s.c_str());
			first = false;
		}
		fprintf(f, "]\n },\n \"assumptions\": [");
		first = true;
		for (auto a : cfg.assumptions) {
			fprintf(f, "%s%s", first ? "" : ", ", jstr(a).c_str());
			first = false;
		}
		fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
		fclose(f);
	}
	for (auto &k : knownmsgs)
		printf("KNOWN-FINDING: property=%s %s\n", cfg.property, k.c_str());
	if (stats) {
		printf("edges %zu/%zu\n", edgeset.size(), alledges);
		for (auto &l : labels)
			printf("  label %-40s %8llu (%.1f%%)\n", l.first.c_str(),
			       (unsigned long long)l.second,
			       100.0 * (double)l.second / (double)(tot ? tot : 1));
	}
	printf("%s: %llu cases (%llu non-trivial, %zu distinct, %llu discarded) in %.1f s, seed %llu\n",
	       cfg.property, (unsigned long long)tot, (unsigned long long)nt, distinct.size(),
	       (unsigned long long)disc, wall, (unsigned long long)seed);
	if (violations) {
		printf("VIOLATION property=%s replay=%s\n", cfg.property, rpath.c_str());
		return 1;
	}
	return 0;
}

} // namespace pbt
