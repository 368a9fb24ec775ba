// P29: errors are reported in the thread that caused them, and only there.
// Several threads, stepped one operation at a time or running freely, against a
// model of what each thread's error has to be.
#include "world.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace world;

#define CODES(X)                                                                                                        \
	X(SUCCESS) X(AGAIN) X(ERROR_INVALID_OBJECT) X(ERROR_INVALID_VALUE) X(ERROR_INVALID_TYPE) X(ERROR_INVALID_SCALE)  \
	X(ERROR_INVALID_DISTRIBUTION) X(ERROR_INVALID_EXPRESSION) X(ERROR_INVALID_PARAMETER)                             \
	X(ERROR_INVALID_CONFIGURATION) X(ERROR_INVALID_NAME) X(ERROR_INVALID_CONDITION) X(ERROR_INVALID_TUNER)           \
	X(ERROR_INVALID_GRAPH) X(ERROR_TYPE_NOT_COMPARABLE) X(ERROR_INVALID_BOUNDS) X(ERROR_OUT_OF_BOUNDS)               \
	X(ERROR_SAMPLING_UNSUCCESSFUL) X(ERROR_OUT_OF_MEMORY) X(ERROR_UNSUPPORTED_OPERATION) X(ERROR_INVALID_EVALUATION) \
	X(ERROR_INVALID_FEATURES) X(ERROR_INVALID_FEATURES_TUNER) X(ERROR_INVALID_FILE_PATH) X(ERROR_NOT_ENOUGH_DATA)    \
	X(ERROR_DUPLICATE_HANDLE) X(ERROR_INVALID_HANDLE) X(ERROR_SYSTEM) X(ERROR_EXTERNAL) X(ERROR_INVALID_TREE)        \
	X(ERROR_INVALID_TREE_SPACE) X(ERROR_INVALID_TREE_TUNER)
static const struct {
	ccs_result_t code;
	const char  *name;
} codes[] = {
#define X(c) {CCS_RESULT_##c, "CCS_RESULT_" #c},
	CODES(X)
#undef X
};
static const size_t ncodes = sizeof codes / sizeof *codes;

struct Elem {
	std::string file, func;
	int         line;
};
// the expected contents of one error
struct Err {
	ccs_error_stack_t h = nullptr; // known once fetched or created by us
	ccs_result_t      code = CCS_RESULT_SUCCESS;
	bool              known_msg = false; // raised by us: everything is known
	std::string       msg;
	std::vector<Elem> elems; // those we pushed, after `own`
	size_t            own = 0; // elements pushed by the library
};
// names given as file and function have to stay where they are
static const char *const words[] = {"a.c", "some/file.c", "f", "outer", "inner_function", "", "x"};

static void
check_err(const Err &e, ccs_error_stack_t h, const char *who)
{
	ccs_result_t c = CCS_RESULT_SUCCESS;
	CHECK(ccs_error_stack_get_code(h, &c) == CCS_RESULT_SUCCESS && c == e.code, "%s: the error has code %s instead of %s", who, rname(c), rname(e.code));
	const char *m = nullptr;
	CHECK(ccs_error_stack_get_message(h, &m) == CCS_RESULT_SUCCESS && m, "%s: no message", who);
	if (e.known_msg)
		CHECK(e.msg == m, "%s: the message is '%s' instead of '%s'", who, m, e.msg.c_str());
	size_t                  n = 99999;
	ccs_error_stack_elem_t *v = nullptr;
	CHECK(ccs_error_stack_get_elems(h, &n, &v) == CCS_RESULT_SUCCESS, "%s: no elements", who);
	if (e.known_msg)
		CHECK(n == e.elems.size(), "%s: %zu elements instead of %zu", who, n, e.elems.size());
	else
		CHECK(n > e.elems.size(), "%s: %zu elements, %zu of them pushed by the program", who, n, e.elems.size());
	CHECK(!n == !v, "%s: %zu elements at %p", who, n, (void *)v);
	size_t base = n - e.elems.size();
	for (size_t i = 0; i < base; i++)
		CHECK(v[i].file && *v[i].file && v[i].func && *v[i].func && v[i].line > 0, "%s: element %zu of the trace is incomplete", who, i);
	for (size_t i = base; i < n; i++) {
		const Elem &x = e.elems[i - base];
		CHECK(x.file == v[i].file && x.func == v[i].func && x.line == v[i].line, "%s: element %zu of the trace is %s:%d:%s instead of %s:%d:%s", who, i, v[i].file,
		      v[i].line, v[i].func, x.file.c_str(), x.line, x.func.c_str());
	}
}

// ---- failing calls ----
struct Objs { // of one thread
	ccs_parameter_t           p = nullptr;
	ccs_configuration_space_t cs = nullptr;
	ccs_rng_t                 rng = nullptr;
	ccs_map_t                 map = nullptr;
	ccs_tree_t                tree = nullptr;
	ccs_expression_t          ex = nullptr;
	Objs()
	{
		ccs_numeric_t lo, hi, z;
		lo.i = 0, hi.i = 9, z.i = 0;
		OK(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_INT, lo, hi, z, z, &p));
		OK(ccs_create_configuration_space("cs", &cs));
		OK(ccs_create_rng(&rng));
		OK(ccs_create_map(&map));
		OK(ccs_create_tree(2, ccs_int(1), &tree));
		ccs_datum_t n[2] = {ccs_int(1), ccs_string("x")};
		OK(ccs_create_expression(CCS_EXPRESSION_TYPE_ADD, 2, n, &ex));
	}
	Objs(const Objs &) = delete;
	~Objs()
	{
		for (ccs_object_t o : {(ccs_object_t)p, (ccs_object_t)cs, (ccs_object_t)rng, (ccs_object_t)map, (ccs_object_t)tree, (ccs_object_t)ex})
			ccs_release_object(o);
	}
};
static const size_t nfailing = 14;
static ccs_result_t
failing(Objs &o, size_t k)
{
	switch (k) {
	case 0: return ccs_retain_object(nullptr);
	case 1: return ccs_parameter_get_name(o.p, nullptr);
	case 2: return ccs_parameter_get_name((ccs_parameter_t)o.rng, nullptr);
	case 3: {
		ccs_parameter_t p;
		return ccs_context_get_parameter((ccs_context_t)o.cs, 3, &p);
	}
	case 4: return ccs_map_del(o.map, ccs_int(4));
	case 5: return ccs_tree_set_weight(o.tree, -1.0);
	case 6: {
		ccs_tree_t t;
		return ccs_tree_get_child(o.tree, 2, &t);
	}
	case 7: {
		ccs_datum_t d;
		return ccs_expression_eval(o.ex, 0, nullptr, &d);
	}
	case 8: {
		ccs_numeric_t   lo, hi, z;
		ccs_parameter_t p;
		lo.i = 5, hi.i = 1, z.i = 0;
		return ccs_create_numerical_parameter("q", CCS_NUMERIC_TYPE_INT, lo, hi, z, z, &p);
	}
	case 9: {
		ccs_configuration_t c;
		ccs_datum_t         d = ccs_int(1);
		return ccs_create_configuration(o.cs, 1, &d, &c);
	}
	case 10: {
		ccs_object_t x;
		return ccs_object_deserialize(&x, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, (size_t)3, "abc", CCS_DESERIALIZE_OPTION_END);
	}
	case 11: {
		ccs_object_t x;
		return ccs_object_deserialize(&x, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "/nonexistent/file", CCS_DESERIALIZE_OPTION_END);
	}
	case 12: {
		const char *n;
		return ccs_get_result_name((ccs_result_t)-1000, &n);
	}
	default: {
		char c;
		return ccs_object_serialize(o.p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, (size_t)1, &c, CCS_SERIALIZE_OPTION_END);
	}
	}
}
static void
working(Objs &o, size_t k)
{
	ccs_result_t r = CCS_RESULT_SUCCESS;
	switch (k % 4) {
	case 0: {
		const char *n = nullptr;
		r = ccs_parameter_get_name(o.p, &n);
		break;
	}
	case 1: r = ccs_map_set(o.map, ccs_int((int64_t)k), ccs_int(1)); break;
	case 2: {
		unsigned long v;
		r = ccs_rng_get(o.rng, &v);
		break;
	}
	default: r = ccs_tree_set_weight(o.tree, 2.0);
	}
	CHECK(r == CCS_RESULT_SUCCESS, "a valid call failed with %s", rname(r));
}

// ---- one thread's operations ----
struct Op {
	size_t k = 0, a = 0, b = 0, c = 0;
	std::string text;
};
struct Th {
	Objs              objs;
	bool              has = false;
	Err               cur; // the thread's error, when it has one
	std::vector<Err>  kept; // fetched or created: ours
};
struct Shared {
	std::vector<Err> passed; // handed from thread to thread
	size_t           failures = 0, moves = 0;
};
static void
do_op(Th &t, Shared &sh, const Op &op, bool alone)
{
	switch (op.k) {
	case 0:
	case 1: { // a failing call
		ccs_result_t r = failing(t.objs, op.a % nfailing);
		CHECK(r < 0, "failing call %zu succeeded", op.a % nfailing);
		t.has = true;
		t.cur = Err();
		t.cur.code = r;
		if (alone)
			sh.failures++;
		break;
	}
	case 2: working(t.objs, op.a); break;
	case 3: { // fetch
		ccs_error_stack_t e = ccs_get_thread_error();
		CHECK(!!e == t.has, "%s", t.has ? "the thread's error is missing" : "the thread has an error it did not cause");
		if (e) {
			int32_t rc = 0;
			OK(ccs_object_get_refcount(e, &rc));
			CHECK(rc == 1, "a fetched error has %d references", (int)rc);
			check_err(t.cur, e, "fetched");
			t.cur.h = e;
			t.kept.push_back(t.cur);
			t.has = false;
			CHECK(!ccs_get_thread_error(), "a fetched error is still there");
		}
		break;
	}
	case 4:
		ccs_clear_thread_error();
		t.has = false;
		break;
	case 5: { // raised by the program
		Err e;
		e.code      = codes[op.a % ncodes].code;
		e.known_msg = true;
		const char *w = words[op.b % 7];
		ccs_result_t r;
		switch (op.c % 4) {
		case 0:
			r     = ccs_create_thread_error(e.code, "%s is %d%%", w, (int)op.b);
			e.msg = pbt::sfmt("%s is %d%%", w, (int)op.b);
			break;
		case 1: r = ccs_create_thread_error(e.code, nullptr); break;
		case 2:
			e.msg = std::string(1 + op.b * 37 % 700, 'm');
			r     = ccs_create_thread_error(e.code, "%s%zu%s", e.msg.c_str(), op.b, "tail");
			e.msg += pbt::sfmt("%zutail", op.b);
			break;
		default:
			r     = ccs_create_thread_error(e.code, "plain");
			e.msg = "plain";
		}
		CHECK(r == CCS_RESULT_SUCCESS, "raising an error failed with %s", rname(r));
		t.cur = e;
		t.has = true;
		break;
	}
	case 6: { // push on the thread's error
		const char  *f = words[op.a % 7], *g = words[op.b % 7];
		int          n = op.c % 11 == 7 ? 20 + (int)op.b % 50 : 1 + (int)(op.c % 5);
		for (int i = 0; i < n; i++) {
			ccs_result_t r = ccs_thread_error_stack_push(f, (int)op.c + i, g);
			CHECK((r == CCS_RESULT_SUCCESS) == t.has, "pushing on the thread's error returned %s, the thread has %s", rname(r), t.has ? "one" : "none");
			if (t.has)
				t.cur.elems.push_back(Elem{f, g, (int)op.c + i});
		}
		break;
	}
	case 7: { // an error of our own
		Err e;
		e.code      = codes[op.a % ncodes].code;
		e.known_msg = true;
		e.msg       = pbt::sfmt("error number %zu", op.b);
		CHECK(ccs_create_error_stack(&e.h, e.code, "error number %zu", op.b) == CCS_RESULT_SUCCESS && e.h, "no error");
		t.kept.push_back(e);
		break;
	}
	case 8: // push on an error of ours
		if (!t.kept.empty()) {
			Err &e = t.kept[op.a % t.kept.size()];
			const char *f = words[op.b % 7], *g = words[op.c % 7];
			CHECK(ccs_error_stack_push(e.h, f, (int)op.b, g) == CCS_RESULT_SUCCESS, "pushing failed");
			e.elems.push_back(Elem{f, g, (int)op.b});
		}
		break;
	case 9: // hand an error of ours to the thread
		if (!t.kept.empty()) {
			size_t i = op.a % t.kept.size();
			Err    e = t.kept[i];
			t.kept.erase(t.kept.begin() + (long)i);
			CHECK(ccs_set_thread_error(e.h) == CCS_RESULT_SUCCESS, "setting the thread's error failed");
			t.cur = e;
			t.has = true;
		}
		break;
	case 10: // not an error
		CHECK(ccs_set_thread_error(nullptr) < 0 && ccs_set_thread_error((ccs_error_stack_t)t.objs.p) < 0, "something that is not an error was accepted");
		break;
	case 11: // release an error of ours
		if (!t.kept.empty()) {
			size_t i = op.a % t.kept.size();
			check_err(t.kept[i], t.kept[i].h, "released");
			OK(ccs_release_object(t.kept[i].h));
			t.kept.erase(t.kept.begin() + (long)i);
		}
		break;
	case 12: // pass one to another thread
		if (alone && !t.kept.empty()) {
			sh.passed.push_back(t.kept.back());
			t.kept.pop_back();
		}
		break;
	default: // take one
		if (alone && !sh.passed.empty()) {
			t.kept.push_back(sh.passed.back());
			sh.passed.pop_back();
			sh.moves++;
		}
	}
	for (auto &e : t.kept)
		check_err(e, e.h, "kept");
}
static void
finish(Th &t)
{
	ccs_error_stack_t e = ccs_get_thread_error();
	CHECK(!!e == t.has, "%s", t.has ? "the thread's error is missing at the end" : "the thread has an error it did not cause at the end");
	if (e) {
		check_err(t.cur, e, "last");
		OK(ccs_release_object(e));
	}
	for (auto &k : t.kept) {
		check_err(k, k.h, "kept to the end");
		OK(ccs_release_object(k.h));
	}
	t.kept.clear();
	t.has = false;
}

// a thread that runs what it is given, one job at a time
struct Worker {
	std::mutex              m;
	std::condition_variable cv;
	std::function<void()>   job;
	bool                    busy = false, stop = false;
	std::exception_ptr      ex;
	std::thread             th;
	Worker()
	{
		th = std::thread([this] {
			std::unique_lock<std::mutex> l(m);
			for (;;) {
				cv.wait(l, [this] { return busy || stop; });
				if (!busy)
					return;
				try {
					job();
				} catch (...) {
					ex = std::current_exception();
				}
				busy = false;
				cv.notify_all();
			}
		});
	}
	void
	run(std::function<void()> f)
	{
		std::unique_lock<std::mutex> l(m);
		job  = f;
		busy = true;
		cv.notify_all();
		cv.wait(l, [this] { return !busy; });
		if (ex) {
			auto e = ex;
			ex     = nullptr;
			std::rethrow_exception(e);
		}
	}
	~Worker()
	{
		{
			std::unique_lock<std::mutex> l(m);
			stop = true;
			cv.notify_all();
		}
		th.join();
	}
};

static Op
gen_op(Src &s, bool alone)
{
	static const char *const names[] = {"fail", "fail", "work", "fetch", "clear", "raise", "push", "create", "push own", "set", "set wrong", "release", "pass", "take"};
	Op op;
	op.k = s.weighted({5, 3, 2, 4, 2, 3, 3, 2, 2, 3, 1, 2, alone ? 2 : 0, alone ? 2 : 0});
	op.a = s.draw(64);
	op.b = s.draw(64);
	op.c = s.draw(64);
	op.text = pbt::sfmt("%s %zu %zu %zu", names[op.k], op.a, op.b, op.c);
	return op;
}

static void
names()
{
	std::set<std::string> seen;
	size_t                n = 0;
	for (int c = -100; c <= 100; c++) {
		const char  *m = nullptr;
		ccs_result_t r = ccs_get_result_name((ccs_result_t)c, &m);
		const char  *want = nullptr;
		for (auto &k : codes)
			if ((int)k.code == c)
				want = k.name;
		if (want) {
			CHECK(r == CCS_RESULT_SUCCESS && m && !strcmp(m, want), "code %d is named '%s' instead of '%s'", c, m ? m : "", want);
			CHECK(seen.insert(m).second, "two codes are named %s", m);
			n++;
		} else {
			CHECK(r < 0, "code %d, which is not one, has a name", c);
			ccs_clear_thread_error();
		}
	}
	CHECK(n == ncodes, "%zu names", n);
}

static void
stepped(Src &s)
{
	size_t               n = 2 + s.draw(3);
	std::vector<Worker>  ws(n - 1); // thread 0 is ours
	std::vector<Th>      ts(n);
	Shared               sh;
	size_t               steps = 1 + s.draw(30), switches = 0, last = 0;
	for (size_t i = 0; i < steps; i++) {
		size_t k  = s.draw(n);
		Op     op = gen_op(s, true);
		s.log("thread %zu: %s", k, op.text.c_str());
		switches += k != last;
		last = k;
		if (k == 0)
			do_op(ts[0], sh, op, true);
		else
			ws[k - 1].run([&] { do_op(ts[k], sh, op, true); });
	}
	for (size_t k = 0; k < n; k++)
		if (k == 0)
			finish(ts[0]);
		else
			ws[k - 1].run([&] { finish(ts[k]); });
	for (auto &e : sh.passed) {
		check_err(e, e.h, "passed");
		OK(ccs_release_object(e.h));
	}
	s.nontrivial(switches > 2 && sh.failures > 1);
	s.label_if(sh.moves, "an error went from a thread to another");
	s.label("stepped");
}
static void
free_running(Src &s)
{
	size_t                       n = 2 + s.draw(3);
	std::vector<Th>              ts(n);
	std::vector<std::vector<Op>> ops(n);
	size_t                       m = 2 + s.draw(20), fails = 0;
	for (size_t k = 0; k < n; k++)
		for (size_t i = 0; i < m; i++) {
			ops[k].push_back(gen_op(s, false));
			fails += ops[k].back().k < 2;
			s.log("thread %zu: %s", k, ops[k].back().text.c_str());
		}
	std::vector<std::exception_ptr> ex(n);
	std::vector<std::thread>        th;
	for (size_t k = 0; k < n; k++)
		th.emplace_back([&, k] {
			Shared none;
			try {
				for (int rep = 0; rep < 8; rep++)
					for (auto &op : ops[k])
						do_op(ts[k], none, op, false);
				finish(ts[k]);
			} catch (...) {
				ex[k] = std::current_exception();
			}
		});
	for (auto &t : th)
		t.join();
	for (auto &e : ex)
		if (e)
			std::rethrow_exception(e);
	s.nontrivial(fails > 1);
	s.label("running freely");
}
// any call of the library that fails, made in another thread than ours
static void
elsewhere(Src &s)
{
	World w;
	w.src = &s;
	K k   = (K)s.draw(K_KINDS);
	s.log("%s", k_names[k]);
	if (k == K_RNG) {
		Pool p;
		gen_rng(s, p);
		w.take(p);
	} else
		w.add_graph(s, k);
	size_t n = 1 + s.draw(8), refused = 0;
	for (size_t step = 0; step < n; step++) {
		w.walk();
		const Fn &f = pick_fn(w, s, s.coin());
		Call      c;
		if (!gen_args(w, s, f, c))
			continue;
		if (s.chance(2, 3)) { // no outputs, or no object
			std::vector<size_t> v;
			for (size_t i = 0; i < f.tok.size(); i++)
				if (strchr("orcn", f.tok[i]))
					v.push_back(i);
			if (!v.empty()) {
				size_t i = s.pick(v);
				if (strchr("on", f.tok[i]))
					c.s[i].p = nullptr;
				else
					c.s[i].null = true;
			}
		}
		s.log("%s", c.str().c_str());
		bool mine = s.coin();
		ccs_clear_thread_error();
		if (mine)
			OK(ccs_create_thread_error(CCS_RESULT_ERROR_EXTERNAL, "mine"));
		ccs_result_t       r = CCS_RESULT_SUCCESS;
		std::exception_ptr ex;
		std::thread        th([&] {
                        try {
                                r                   = c.run();
                                ccs_error_stack_t e = ccs_get_thread_error();
                                if (r < 0) {
                                        CHECK(e, "%s failed with %s and left no error", f.name, rname(r));
                                        Err x;
                                        x.code = r;
                                        check_err(x, e, f.name);
                                }
                                if (e)
                                        ccs_release_object(e);
                        } catch (...) {
                                ex = std::current_exception();
                        }
                });
		th.join();
		if (ex)
			std::rethrow_exception(ex);
		refused += r < 0;
		if (r >= 0)
			for (auto o : c.created())
				w.own(o, false);
		ccs_error_stack_t e = ccs_get_thread_error();
		CHECK(!!e == mine, "a call of another thread %s the error of this one", mine ? "took" : "left");
		if (e) {
			Err x;
			x.code = CCS_RESULT_ERROR_EXTERNAL, x.known_msg = true, x.msg = "mine";
			check_err(x, e, "mine");
			OK(ccs_release_object(e));
		}
	}
	ccs_clear_thread_error();
	s.nontrivial(refused > 0);
	s.label("any public call");
}

static void
body(Src &s)
{
	long before = pbt::vp_live_allocs;
	switch (s.weighted({4, 1, 3, 1})) {
	case 0: stepped(s); break;
	case 1: free_running(s); break;
	case 2: elsewhere(s); break;
	default: names();
	}
	ccs_clear_thread_error();
	CHECK(pbt::vp_live_allocs == before, "%ld allocations remain", pbt::vp_live_allocs - before);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P29";
	c.rule = "two to four threads stepped through up to 30 generated operations (or running freely), public calls failing in a thread of their own, and the names of the codes; non-trivial: failing calls in several threads with switches in between, or a call that failed in another thread";
	c.assumptions = {"objects are not shared between running threads (references are not atomic)", "operations of stepped threads interleave as wholes; inside an operation only the freely running cases interleave"};
	c.quick_cases    = 8000;
	c.thorough_cases = 300000;
	c.quick_cap_s    = 45;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
