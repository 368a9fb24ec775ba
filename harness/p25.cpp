// P25: user defined tuners and tree spaces are driven exactly through their
// callbacks.  The callbacks record what they are given, hand back scripted
// results, and fail when the case says so.
#include "gen.hpp"
#include <list>
using pbt::Src;

struct Rec {
	char                op = 0; // d(el) a(sk) t(ell) o(ptima) h(istory) s(uggest) w(rite state) r(ead state) c(hild)
	void               *t = nullptr, *data = nullptr, *f = nullptr;
	size_t              n = 0;
	void               *arr = nullptr, *ret = nullptr;
	std::vector<void *> in;      // elements given (tell, restored history)
	std::vector<size_t> opt;     // restored optima, as indexes in the history
	std::string         bytes;   // restored state
	void               *parent = nullptr;
	bool                failed = false;
};
// what stands behind one user defined object
struct Data {
	int                 id = 0;
	std::vector<void *> hist; // retained
	std::vector<size_t> opt;
	std::string         blob;
	int                 dels = 0;
};
struct Ctl {
	std::vector<Rec>    log;
	long                fail_in = 0; // the n-th callback from now fails
	ccs_result_t        err     = CCS_RESULT_SUCCESS;
	bool                raise   = false;
	bool                scripted = false; // hand back `out` and `count` instead of the contents
	std::vector<void *> out;
	size_t              count = 0;
	ccs_tree_t          child = nullptr;
};
static Ctl *g;

static ccs_result_t
enter(Rec &r)
{
	bool bad = g->fail_in && --g->fail_in == 0;
	r.failed = bad;
	g->log.push_back(r);
	if (bad) {
		if (g->raise)
			ccs_create_thread_error(g->err, "refused by the user");
		return g->err;
	}
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
lst(size_t n, void **arr, size_t *ret, const std::vector<void *> &v)
{
	if (arr) {
		if (n < v.size())
			return CCS_RESULT_ERROR_INVALID_VALUE;
		for (size_t i = 0; i < v.size(); i++)
			arr[i] = v[i];
	}
	if (ret)
		*ret = v.size();
	return CCS_RESULT_SUCCESS;
}

template <class T> struct X;
template <> struct X<ccs_tuner_t> {
	typedef ccs_evaluation_t    Ev;
	typedef ccs_configuration_t Cf;
	typedef ccs_user_defined_tuner_vector_t V;
	static const ccs_object_type_t type = CCS_OBJECT_TYPE_TUNER;
	static const bool feat = false;
	static ccs_result_t data(ccs_tuner_t t, void **d) { return ccs_user_defined_tuner_get_tuner_data(t, d); }
	static ccs_result_t ask(ccs_tuner_t t, ccs_features_t, size_t n, Cf *c, size_t *r) { return ccs_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(ccs_tuner_t t, size_t n, Ev *e) { return ccs_tuner_tell(t, n, e); }
	static ccs_result_t optima(ccs_tuner_t t, ccs_features_t, size_t n, Ev *e, size_t *r) { return ccs_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(ccs_tuner_t t, ccs_features_t, size_t n, Ev *e, size_t *r) { return ccs_tuner_get_history(t, n, e, r); }
	static ccs_result_t suggest(ccs_tuner_t t, ccs_features_t, Cf *c) { return ccs_tuner_suggest(t, c); }
};
template <> struct X<ccs_features_tuner_t> {
	typedef ccs_features_evaluation_t Ev;
	typedef ccs_configuration_t       Cf;
	typedef ccs_user_defined_features_tuner_vector_t V;
	static const ccs_object_type_t type = CCS_OBJECT_TYPE_FEATURES_TUNER;
	static const bool feat = true;
	static ccs_result_t data(ccs_features_tuner_t t, void **d) { return ccs_user_defined_features_tuner_get_tuner_data(t, d); }
	static ccs_result_t ask(ccs_features_tuner_t t, ccs_features_t f, size_t n, Cf *c, size_t *r) { return ccs_features_tuner_ask(t, f, n, c, r); }
	static ccs_result_t tell(ccs_features_tuner_t t, size_t n, Ev *e) { return ccs_features_tuner_tell(t, n, e); }
	static ccs_result_t optima(ccs_features_tuner_t t, ccs_features_t f, size_t n, Ev *e, size_t *r) { return ccs_features_tuner_get_optima(t, f, n, e, r); }
	static ccs_result_t history(ccs_features_tuner_t t, ccs_features_t f, size_t n, Ev *e, size_t *r) { return ccs_features_tuner_get_history(t, f, n, e, r); }
	static ccs_result_t suggest(ccs_features_tuner_t t, ccs_features_t f, Cf *c) { return ccs_features_tuner_suggest(t, f, c); }
};
template <> struct X<ccs_tree_tuner_t> {
	typedef ccs_tree_evaluation_t    Ev;
	typedef ccs_tree_configuration_t Cf;
	typedef ccs_user_defined_tree_tuner_vector_t V;
	static const ccs_object_type_t type = CCS_OBJECT_TYPE_TREE_TUNER;
	static const bool feat = false;
	static ccs_result_t data(ccs_tree_tuner_t t, void **d) { return ccs_user_defined_tree_tuner_get_tuner_data(t, d); }
	static ccs_result_t ask(ccs_tree_tuner_t t, ccs_features_t, size_t n, Cf *c, size_t *r) { return ccs_tree_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(ccs_tree_tuner_t t, size_t n, Ev *e) { return ccs_tree_tuner_tell(t, n, e); }
	static ccs_result_t optima(ccs_tree_tuner_t t, ccs_features_t, size_t n, Ev *e, size_t *r) { return ccs_tree_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(ccs_tree_tuner_t t, ccs_features_t, size_t n, Ev *e, size_t *r) { return ccs_tree_tuner_get_history(t, n, e, r); }
	static ccs_result_t suggest(ccs_tree_tuner_t t, ccs_features_t, Cf *c) { return ccs_tree_tuner_suggest(t, c); }
};

// the spaces of an object being deleted are still there for its callback
static void
alive(ccs_object_t o)
{
	int32_t n = 0;
	OK(ccs_object_get_refcount(o, &n));
	CHECK(n >= 1, "a space is gone before the delete callback");
}
static void
spaces(ccs_tuner_t t)
{
	ccs_configuration_space_t c = nullptr;
	ccs_objective_space_t     o = nullptr;
	OK(ccs_tuner_get_configuration_space(t, &c));
	OK(ccs_tuner_get_objective_space(t, &o));
	alive(c), alive(o);
}
static void
spaces(ccs_features_tuner_t t)
{
	ccs_configuration_space_t c = nullptr;
	ccs_objective_space_t     o = nullptr;
	ccs_features_space_t      f = nullptr;
	OK(ccs_features_tuner_get_configuration_space(t, &c));
	OK(ccs_features_tuner_get_objective_space(t, &o));
	OK(ccs_features_tuner_get_features_space(t, &f));
	alive(c), alive(o), alive(f);
}
static void
spaces(ccs_tree_tuner_t t)
{
	ccs_tree_space_t      c = nullptr;
	ccs_objective_space_t o = nullptr;
	OK(ccs_tree_tuner_get_tree_space(t, &c));
	OK(ccs_tree_tuner_get_objective_space(t, &o));
	alive(c), alive(o);
}
template <class T> struct CB {
	typedef typename X<T>::Ev Ev;
	typedef typename X<T>::Cf Cf;
	static Rec
	rec(char op, T t)
	{
		Rec r;
		r.op = op;
		r.t  = t;
		CHECK(X<T>::data(t, &r.data) == CCS_RESULT_SUCCESS, "the user's data is out of reach in callback %c", op);
		return r;
	}
	static ccs_result_t
	del(T t)
	{
		Rec r = rec('d', t);
		spaces(t);
		g->log.push_back(r);
		if (Data *d = (Data *)r.data) {
			d->dels++;
			for (void *e : d->hist)
				OK(ccs_release_object(e));
			d->hist.clear();
		}
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t
	list(char op, T t, ccs_features_t f, size_t n, void **arr, size_t *ret)
	{
		Rec r = rec(op, t);
		r.f = f, r.n = n, r.arr = arr, r.ret = ret;
		ccs_result_t e = enter(r);
		if (e < 0)
			return e;
		if (g->scripted) {
			for (size_t i = 0; arr && i < n && i < g->out.size(); i++)
				arr[i] = g->out[i];
			if (ret)
				*ret = g->count;
			return CCS_RESULT_SUCCESS;
		}
		Data *d = (Data *)r.data;
		if (op == 'h')
			return lst(n, arr, ret, d->hist);
		std::vector<void *> o;
		for (size_t i : d->opt)
			o.push_back(d->hist[i]);
		return lst(n, arr, ret, o);
	}
	static ccs_result_t fask(T t, ccs_features_t f, size_t n, Cf *c, size_t *r) { return list('a', t, f, n, (void **)c, r); }
	static ccs_result_t fopt(T t, ccs_features_t f, size_t n, Ev *c, size_t *r) { return list('o', t, f, n, (void **)c, r); }
	static ccs_result_t fhis(T t, ccs_features_t f, size_t n, Ev *c, size_t *r) { return list('h', t, f, n, (void **)c, r); }
	static ccs_result_t ask(T t, size_t n, Cf *c, size_t *r) { return list('a', t, nullptr, n, (void **)c, r); }
	static ccs_result_t opt(T t, size_t n, Ev *c, size_t *r) { return list('o', t, nullptr, n, (void **)c, r); }
	static ccs_result_t his(T t, size_t n, Ev *c, size_t *r) { return list('h', t, nullptr, n, (void **)c, r); }
	static ccs_result_t
	tell(T t, size_t n, Ev *ev)
	{
		Rec r = rec('t', t);
		r.n   = n;
		r.arr = ev;
		for (size_t i = 0; i < n; i++)
			r.in.push_back(ev[i]);
		ccs_result_t e = enter(r);
		if (e < 0)
			return e;
		if (!g->scripted)
			for (size_t i = 0; i < n; i++) {
				OK(ccs_retain_object(ev[i]));
				((Data *)r.data)->hist.push_back(ev[i]);
			}
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t
	fsug(T t, ccs_features_t f, Cf *c)
	{
		Rec r = rec('s', t);
		r.f = f, r.ret = c;
		ccs_result_t e = enter(r);
		if (e < 0)
			return e;
		*c = (Cf)g->out[0];
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t sug(T t, Cf *c) { return fsug(t, nullptr, c); }
	static ccs_result_t
	ser(T t, size_t n, void *p, size_t *ret)
	{
		Rec r = rec('w', t);
		r.n = n, r.arr = p, r.ret = ret;
		ccs_result_t e = enter(r);
		if (e < 0)
			return e;
		Data *d = (Data *)r.data;
		if (p) {
			CHECK(n == d->blob.size(), "asked to write %zu bytes of state after announcing %zu", n, d->blob.size());
			memcpy(p, d->blob.data(), n);
		}
		if (ret)
			*ret = d->blob.size();
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t
	des(T t, size_t nh, Ev *h, size_t no, Ev *o, size_t n, const void *p)
	{
		Rec r = rec('r', t);
		CHECK((h || !nh) && (o || !no) && (p || !n), "restored from a null array");
		for (size_t i = 0; i < nh; i++)
			r.in.push_back(h[i]);
		for (size_t i = 0; i < no; i++) {
			size_t k = 0;
			while (k < nh && h[k] != o[i])
				k++;
			CHECK(k < nh, "optimum %zu given back is not one of the evaluations given back", i);
			r.opt.push_back(k);
		}
		if (n)
			r.bytes.assign((const char *)p, n);
		ccs_result_t e = enter(r);
		if (e < 0)
			return e;
		Data *d = (Data *)r.data;
		if (d) {
			for (size_t i = 0; i < nh; i++) {
				OK(ccs_retain_object(h[i]));
				d->hist.push_back(h[i]);
			}
			d->opt  = r.opt;
			d->blob = r.bytes;
		}
		return CCS_RESULT_SUCCESS;
	}
};
static void
fill(ccs_user_defined_tuner_vector_t &v)
{
	typedef CB<ccs_tuner_t> C;
	v = {C::del, C::ask, C::tell, C::opt, C::his, C::sug, C::ser, C::des};
}
static void
fill(ccs_user_defined_tree_tuner_vector_t &v)
{
	typedef CB<ccs_tree_tuner_t> C;
	v = {C::del, C::ask, C::tell, C::opt, C::his, C::sug, C::ser, C::des};
}
static void
fill(ccs_user_defined_features_tuner_vector_t &v)
{
	typedef CB<ccs_features_tuner_t> C;
	v = {C::del, C::fask, C::tell, C::fopt, C::fhis, C::fsug, C::ser, C::des};
}

// ---- the spaces ----
// what can be made in the spaces of one tuner (a copy has spaces of its own)
struct Spaces {
	ccs_configuration_space_t             cs = nullptr;
	ccs_features_space_t                  fs = nullptr;
	ccs_objective_space_t                 os = nullptr;
	ccs_tree_space_t                      ts = nullptr;
	std::vector<ccs_configuration_t>      confs;
	std::vector<ccs_tree_configuration_t> trees;
	std::vector<ccs_features_t>           feats;
	void
	get(ccs_tuner_t t)
	{
		OK(ccs_tuner_get_configuration_space(t, &cs));
		OK(ccs_tuner_get_objective_space(t, &os));
	}
	void
	get(ccs_features_tuner_t t)
	{
		OK(ccs_features_tuner_get_configuration_space(t, &cs));
		OK(ccs_features_tuner_get_features_space(t, &fs));
		OK(ccs_features_tuner_get_objective_space(t, &os));
	}
	void
	get(ccs_tree_tuner_t t)
	{
		OK(ccs_tree_tuner_get_tree_space(t, &ts));
		OK(ccs_tree_tuner_get_objective_space(t, &os));
	}
	void
	make(Pool &pool)
	{
		for (int i = 0; i < 4; i++) {
			ccs_datum_t v = ccs_int(i);
			size_t      p = (size_t)i - 1;
			if (cs) {
				ccs_configuration_t c = nullptr;
				OK(ccs_create_configuration(cs, 1, &v, &c));
				confs.push_back(pool.add(c));
			}
			if (ts) {
				ccs_tree_configuration_t t = nullptr;
				OK(ccs_create_tree_configuration(ts, i ? 1 : 0, i ? &p : nullptr, &t));
				trees.push_back(pool.add(t));
			}
			if (fs) {
				ccs_features_t ft = nullptr;
				OK(ccs_create_features(fs, 1, &v, &ft));
				feats.push_back(pool.add(ft));
			}
		}
	}
};
struct Base {
	Pool                                  pool;
	ccs_configuration_space_t             cs = nullptr;
	ccs_features_space_t                  fs = nullptr, fs2 = nullptr;
	ccs_objective_space_t                 os = nullptr;
	ccs_tree_space_t                      ts = nullptr;
	ccs_features_t                        foreign = nullptr; // other parameters
	std::map<void *, int>                 ids;
	int                                   next = 0;
	ccs_parameter_t
	num(const char *n, int hi)
	{
		ccs_parameter_t p = nullptr;
		OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_INT, I(0), I(hi), I(0), I(0), &p));
		return pool.add(p);
	}
	Base()
	{
		ccs_parameter_t x = num("x", 100), f = num("f", 100), f2 = num("f", 3), y = num("y", 1000000);
		OK(ccs_create_configuration_space("cs", &cs));
		pool.add(cs);
		OK(ccs_configuration_space_add_parameter(cs, x, nullptr));
		OK(ccs_create_features_space("fs", &fs));
		pool.add(fs);
		OK(ccs_features_space_add_parameter(fs, f));
		OK(ccs_create_features_space("fs2", &fs2));
		pool.add(fs2);
		OK(ccs_features_space_add_parameter(fs2, f2));
		OK(ccs_create_objective_space("os", &os));
		pool.add(os);
		OK(ccs_objective_space_add_parameter(os, y));
		ccs_expression_t e = nullptr;
		OK(ccs_create_variable(y, &e));
		pool.add(e);
		OK(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE));
		ccs_tree_t root = nullptr, ch = nullptr;
		OK(ccs_create_tree(3, ccs_int(1), &root));
		pool.add(root);
		OK(ccs_create_tree(0, ccs_int(2), &ch));
		pool.add(ch);
		OK(ccs_tree_set_child(root, 1, ch));
		OK(ccs_create_static_tree_space("ts", root, &ts));
		pool.add(ts);
		ccs_datum_t v = ccs_int(1);
		OK(ccs_create_features(fs2, 1, &v, &foreign));
		pool.add(foreign);
	}
	static ccs_numeric_t I(int64_t i) { ccs_numeric_t n; n.i = i; return n; }
	void *
	eval(ccs_tuner_t, Src &s, Spaces &k)
	{
		ccs_evaluation_t e = nullptr;
		ccs_datum_t      v = ccs_int(next);
		OK(ccs_create_evaluation(k.os, s.pick(k.confs), CCS_RESULT_SUCCESS, 1, &v, &e));
		pool.add(e);
		ids[e] = next++;
		return e;
	}
	void *
	eval(ccs_features_tuner_t, Src &s, Spaces &k)
	{
		ccs_features_evaluation_t e = nullptr;
		ccs_datum_t               v = ccs_int(next);
		OK(ccs_create_features_evaluation(k.os, s.pick(k.confs), s.pick(k.feats), CCS_RESULT_SUCCESS, 1, &v, &e));
		pool.add(e);
		ids[e] = next++;
		return e;
	}
	void *
	eval(ccs_tree_tuner_t, Src &s, Spaces &k)
	{
		ccs_tree_evaluation_t e = nullptr;
		ccs_datum_t           v = ccs_int(next);
		OK(ccs_create_tree_evaluation(k.os, s.pick(k.trees), CCS_RESULT_SUCCESS, 1, &v, &e));
		pool.add(e);
		ids[e] = next++;
		return e;
	}
	static int
	id(void *e)
	{
		ccs_datum_t v = ccs_none;
		OK(ccs_binding_get_value((ccs_binding_t)e, 0, &v));
		CHECK(v.type == CCS_DATA_TYPE_INT, "an evaluation lost its value");
		return (int)v.value.i;
	}
	void *cf(ccs_tuner_t, Src &s, Spaces &k) { return s.pick(k.confs); }
	void *cf(ccs_features_tuner_t, Src &s, Spaces &k) { return s.pick(k.confs); }
	void *cf(ccs_tree_tuner_t, Src &s, Spaces &k) { return s.pick(k.trees); }
	ccs_result_t create(const char *n, ccs_user_defined_tuner_vector_t *v, void *d, ccs_tuner_t *t) { return ccs_create_user_defined_tuner(n, cs, os, v, d, t); }
	ccs_result_t create(const char *n, ccs_user_defined_features_tuner_vector_t *v, void *d, ccs_features_tuner_t *t) { return ccs_create_user_defined_features_tuner(n, cs, fs, os, v, d, t); }
	ccs_result_t create(const char *n, ccs_user_defined_tree_tuner_vector_t *v, void *d, ccs_tree_tuner_t *t) { return ccs_create_user_defined_tree_tuner(n, ts, os, v, d, t); }
};
static const ccs_result_t errs[] = {CCS_RESULT_ERROR_INVALID_VALUE, CCS_RESULT_ERROR_OUT_OF_MEMORY, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
				    CCS_RESULT_ERROR_EXTERNAL, CCS_RESULT_ERROR_SYSTEM, CCS_RESULT_ERROR_INVALID_TREE_TUNER, CCS_RESULT_ERROR_INVALID_OBJECT};
static int32_t
refs_of(void *o)
{
	int32_t n = 0;
	OK(ccs_object_get_refcount(o, &n));
	return n;
}
static void
arm(Src &s, uint64_t num, uint64_t den, size_t within)
{
	g->log.clear();
	g->fail_in = s.chance(num, den) ? 1 + (long)s.draw(within) : 0;
	if (g->fail_in) {
		g->err   = errs[s.draw(sizeof errs / sizeof *errs)];
		g->raise = s.coin();
	}
}
static bool
failed()
{
	return !g->log.empty() && g->log.back().failed;
}
// the thread's error, if any, is the one reported
static void
check_error(ccs_result_t r, bool raised)
{
	ccs_error_stack_t e = ccs_get_thread_error();
	if (raised)
		CHECK(e, "the error raised by the callback disappeared");
	if (e) {
		ccs_result_t c = CCS_RESULT_SUCCESS;
		OK(ccs_error_stack_get_code(e, &c));
		CHECK(c == r, "the call returned %s, its error says %s", rname(r), rname(c));
		if (raised) {
			const char *m = nullptr;
			OK(ccs_error_stack_get_message(e, &m));
			CHECK(m && !strcmp(m, "refused by the user"), "the message of the callback became '%s'", m ? m : "");
		}
		OK(ccs_release_object(e));
	}
}

struct Stats {
	size_t forwarded = 0, failures = 0, absent = 0, copies = 0;
};

template <class T>
struct Tun {
	T                     h = nullptr;
	Data                 *d = nullptr; // null: created without data
	typename X<T>::V      v = {};
	Spaces                sp;
};

template <class T>
static void
run(Src &s, Stats &st)
{
	typedef typename X<T>::Ev Ev;
	typedef typename X<T>::Cf Cf;
	typedef typename X<T>::V  V;
	Base                 b;
	std::list<Data>      datas;
	std::vector<Tun<T>>  tuns;
	auto add = [&](T h, Data *d, const V &v) {
		Tun<T> t;
		t.h = h, t.d = d, t.v = v;
		t.sp.get(h);
		t.sp.make(b.pool);
		tuns.push_back(t);
	};
	size_t nt = 1 + s.draw(2);
	for (size_t i = 0; i < nt; i++) {
		V *v = (V *)malloc(sizeof(V)); // only read while creating
		fill(*v);
		bool bare = s.chance(1, 6);
		if (s.chance(1, 3))
			v->suggest = nullptr;
		if (bare || s.chance(1, 4))
			v->serialize_user_state = nullptr;
		if (bare || s.chance(1, 4))
			v->deserialize_state = nullptr;
		if (s.chance(1, 8)) { // a mandatory callback is missing
			V w = *v;
			switch (s.draw(5)) {
			case 0: w.del = nullptr; break;
			case 1: w.ask = nullptr; break;
			case 2: w.tell = nullptr; break;
			case 3: w.get_optima = nullptr; break;
			default: w.get_history = nullptr;
			}
			T no = nullptr;
			CHECK(b.create("t", &w, nullptr, &no) < 0 && !no, "a tuner without a mandatory callback was accepted");
			ccs_clear_thread_error();
		}
		datas.emplace_back();
		Data *d = &datas.back();
		d->id   = (int)i;
		if (v->serialize_user_state) {
			d->blob = s.text(s.coin() ? 3 : 40);
			if (s.coin())
				d->blob += std::string("\0x\0", 3);
		}
		void *data = bare ? nullptr : d;
		T     t    = nullptr;
		size_t before = g->log.size();
		OK(b.create(i ? "second" : "first", v, data, &t));
		CHECK(g->log.size() == before, "creating a tuner called callback %c", g->log.back().op);
		V keep = *v;
		memset((void *)v, 0xa5, sizeof(V));
		free(v);
		add(t, bare ? nullptr : d, keep);
		s.log("tuner %zu:%s%s%s%s", i, keep.suggest ? " suggest" : "", keep.serialize_user_state ? " write" : "", keep.deserialize_state ? " read" : "", bare ? " no data" : "");
	}
	auto one = [&](Tun<T> &t, const char *what, char op, ccs_result_t r) -> Rec {
		CHECK(g->log.size() == 1, "%s made %zu calls of the user's callbacks", what, g->log.size());
		Rec k = g->log[0];
		CHECK(k.op == op, "%s called callback %c", what, k.op);
		CHECK(k.t == t.h, "%s gave another tuner to its callback", what);
		CHECK(k.data == t.d, "%s: the user's data is not the one of this tuner", what);
		if (k.failed) {
			st.failures++;
			CHECK(r == g->err, "%s: the callback failed with %s, the call returned %s", what, rname(g->err), rname(r));
			check_error(r, g->raise);
		} else {
			CHECK(r == CCS_RESULT_SUCCESS, "%s: the callback succeeded, the call returned %s", what, rname(r));
			CHECK(!ccs_get_thread_error(), "%s succeeded but left an error", what);
		}
		st.forwarded++;
		return k;
	};
	auto none = [&](const char *what, ccs_result_t r) {
		CHECK(g->log.empty(), "%s was to be refused but called callback %c", what, g->log[0].op);
		CHECK(r < 0, "%s was to be refused", what);
		ccs_clear_thread_error();
	};
	size_t steps = 1 + s.draw(14);
	for (size_t step = 0; step < steps && !tuns.empty(); step++) {
		Tun<T> &t = tuns[s.draw(tuns.size())];
		g->scripted = true;
		g->out.clear();
		size_t         n    = s.draw(5);
		bool           null_arr = n == 0 ? s.coin() : s.chance(1, 12);
		bool           null_ret = s.chance(1, 3);
		ccs_features_t f    = X<T>::feat ? s.pick(t.sp.feats) : nullptr;
		bool           wrong = X<T>::feat && s.chance(1, 8), nof = false;
		if (wrong)
			f = b.foreign;
		std::vector<void *> arr(n + 2, (void *)&datas);
		size_t              got = 77777;
		size_t              op  = s.weighted({3, 3, 3, 3, 3, 2, 2, 2});
		g->count = s.draw(9);
		arm(s, 1, 4, 1);
		if (op <= 2) { // ask, get_optima, get_history
			char c = "aoh"[op];
			const char *what = op == 0 ? "ask" : op == 1 ? "get_optima" : "get_history";
			if (X<T>::feat && op && s.chance(1, 3)) {
				f     = nullptr;
				nof   = true;
				wrong = false;
			}
			size_t k = s.draw(n + 1); // the callback may fill less
			for (size_t i = 0; i < k; i++)
				g->out.push_back(op == 0 ? b.cf((T) nullptr, s, t.sp) : b.eval((T) nullptr, s, t.sp));
			std::vector<int32_t> rc;
			for (void *o : g->out)
				rc.push_back(refs_of(o));
			void **a = null_arr ? nullptr : arr.data();
			size_t *q = null_ret ? nullptr : &got;
			s.log("%s of tuner %d: %zu%s%s%s fails %ld %s", what, t.d ? t.d->id : -1, n, null_arr ? " no array" : "", null_ret ? " no count" : "", wrong ? " other features" : nof ? " no features" : "", g->fail_in, rname(g->err));
			ccs_result_t r = op == 0 ? X<T>::ask(t.h, f, n, (Cf *)a, q) : op == 1 ? X<T>::optima(t.h, f, n, (Ev *)a, q) : X<T>::history(t.h, f, n, (Ev *)a, q);
			if ((n && !a) || (!a && !q) || (wrong && op == 0)) {
				none(what, r);
				continue;
			}
			Rec e = one(t, what, c, r);
			CHECK(e.n == n, "%s: the callback was given room for %zu instead of %zu", what, e.n, n);
			CHECK(!e.arr == !a && !e.ret == !q, "%s: an output of the caller was not given to the callback", what);
			CHECK(!X<T>::feat || e.f == f, "%s: the callback was given other features", what);
			if (r < 0)
				continue;
			for (size_t i = 0; i < k && a; i++)
				CHECK(arr[i] == g->out[i], "%s: element %zu is not what the callback gave", what, i);
			for (size_t i = n; i < n + 2; i++)
				CHECK(arr[i] == (void *)&datas, "%s wrote past the caller's array", what);
			CHECK(!q || got == g->count, "%s: the callback counted %zu, the caller was told %zu", what, g->count, got);
			for (size_t i = 0; i < k; i++)
				CHECK(refs_of(g->out[i]) == rc[i], "%s changed the references of what the callback gave", what);
		} else if (op == 3) { // tell
			bool keep = t.d && s.chance(2, 3);
			g->scripted = !keep;
			std::vector<Ev> e;
			for (size_t i = 0; i < n; i++)
				e.push_back((Ev)b.eval((T) nullptr, s, t.sp));
			Ev *a = null_arr ? nullptr : e.data();
			std::vector<int32_t> rc;
			for (auto o : e)
				rc.push_back(refs_of(o));
			s.log("tell tuner %d: %zu%s%s fails %ld %s", t.d ? t.d->id : -1, n, null_arr ? " no array" : "", keep ? " kept" : "", g->fail_in, rname(g->err));
			ccs_result_t r = X<T>::tell(t.h, n, a);
			if (n && !a) {
				none("tell", r);
				continue;
			}
			Rec k = one(t, "tell", 't', r);
			CHECK(k.in.size() == n, "the callback was told %zu evaluations instead of %zu", k.in.size(), n);
			for (size_t i = 0; i < n; i++) {
				CHECK(k.in[i] == e[i], "the callback was told another evaluation");
				CHECK(refs_of(e[i]) == rc[i] + (r >= 0 && keep), "telling changed the references of an evaluation");
			}
			if (r >= 0 && keep)
				for (size_t i = t.d->hist.size() - n; i < t.d->hist.size(); i++)
					if (s.coin())
						t.d->opt.insert(t.d->opt.begin() + (long)s.draw(t.d->opt.size() + 1), i);
		} else if (op == 4) { // suggest
			g->out.push_back(b.cf((T) nullptr, s, t.sp));
			int32_t rc = refs_of(g->out[0]);
			Cf      c  = nullptr;
			bool    nop = s.chance(1, 12);
			s.log("suggest of tuner %d%s%s fails %ld %s", t.d ? t.d->id : -1, nop ? " no output" : "", wrong ? " other features" : "", g->fail_in, rname(g->err));
			ccs_result_t r = X<T>::suggest(t.h, f, nop ? nullptr : &c);
			if (!t.v.suggest) {
				none("suggest", r);
				if (!nop && !wrong)
					CHECK(r == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "suggest without a callback returned %s", rname(r));
				st.absent++;
				continue;
			}
			if (nop || wrong) {
				none("suggest", r);
				continue;
			}
			Rec k = one(t, "suggest", 's', r);
			CHECK(!X<T>::feat || k.f == f, "suggest: the callback was given other features");
			if (r >= 0) {
				CHECK(c == (Cf)g->out[0], "suggest handed out something else than the callback gave");
				CHECK(refs_of(c) == rc, "suggest changed the references of what the callback gave");
			}
		} else if (op == 5) { // data and accessors
			void *d = (void *)&datas;
			OK(X<T>::data(t.h, &d));
			CHECK(d == t.d, "the user's data is not the one given");
			CHECK(g->log.empty(), "reading the user's data called callback %c", g->log[0].op);
			OK(ccs_retain_object(t.h));
			OK(ccs_release_object(t.h));
			CHECK(g->log.empty(), "a release that was not the last called callback %c", g->log[0].op);
		} else if (op == 6) { // copy through a stream
			if (!t.d)
				continue;
			g->scripted = false;
			arm(s, 1, 5, 8);
			size_t sz = 0;
			std::vector<void *> hist = t.d->hist;
			std::string         blob = t.d->blob;
			s.log("copy tuner %d with %zu evaluations, %zu bytes; fails %ld %s", t.d->id, hist.size(), blob.size(), g->fail_in, rname(g->err));
			ccs_result_t r = ccs_object_serialize(t.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END);
			std::vector<char> buf;
			if (r >= 0) {
				buf.assign(sz, (char)0x5a);
				r = ccs_object_serialize(t.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(), CCS_SERIALIZE_OPTION_END);
			}
			for (auto &k : g->log) {
				CHECK(k.t == t.h && k.data == t.d, "serializing called a callback of another tuner");
				CHECK(k.op == 'h' || k.op == 'o' || k.op == 'w', "serializing called callback %c", k.op);
				CHECK(!k.f, "serializing asked for the evaluations of some features only");
			}
			CHECK(t.d->hist == hist && t.d->blob == blob, "serializing changed the tuner");
			if (failed()) {
				st.failures++;
				CHECK(r == g->err, "the callback failed with %s, the serialization returned %s", rname(g->err), rname(r));
				check_error(r, g->raise);
				continue;
			}
			CHECK(r == CCS_RESULT_SUCCESS, "serialization failed with %s", rname(r));
			datas.emplace_back();
			Data *d = &datas.back();
			d->id   = 100 + (int)datas.size();
			arm(s, 1, 4, 1);
			V   *v = (V *)malloc(sizeof(V));
			*v     = t.v;
			T    c = nullptr;
			bool nv = s.chance(1, 10);
			r = nv ? ccs_object_deserialize((ccs_object_t *)&c, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(), CCS_DESERIALIZE_OPTION_END) :
				 ccs_object_deserialize((ccs_object_t *)&c, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(),
							CCS_DESERIALIZE_OPTION_VECTOR, v, CCS_DESERIALIZE_OPTION_DATA, d, CCS_DESERIALIZE_OPTION_END);
			memset((void *)v, 0xa5, sizeof(V));
			free(v);
			if (nv) {
				none("deserializing without a vector", r);
				continue;
			}
			std::vector<void *> in;
			std::vector<size_t> opt;
			std::string         bytes;
			size_t              reads = 0;
			char                way   = t.v.deserialize_state ? 'r' : 't';
			bool                bad = false;
			for (auto &k : g->log) {
				CHECK(k.data == d, "deserializing used the data of another tuner");
				if (k.op == 'd' && bad)
					continue;
				CHECK(k.op == way, "deserializing called callback %c", k.op);
				in.insert(in.end(), k.in.begin(), k.in.end());
				opt   = k.opt;
				bytes = k.bytes;
				reads++;
				bad |= k.failed;
			}
			CHECK(way == 't' || reads == 1, "the state was restored %zu times", reads);
			CHECK(in.size() == hist.size(), "%zu evaluations were given back out of %zu", in.size(), hist.size());
			if (way == 'r') {
				CHECK(opt == t.d->opt, "the optima given back are not the ones of the tuner");
				CHECK(bytes == (t.v.serialize_user_state ? blob : std::string()), "the state given back is not the one written");
			}
			if (bad) {
				st.failures++;
				CHECK(r == g->err, "the callback failed with %s, the deserialization returned %s", rname(g->err), rname(r));
				check_error(r, g->raise);
				CHECK(!c, "a failed deserialization handed out a tuner");
				CHECK(d->dels == 1, "the tuner that could not be restored was deleted %d times", d->dels);
				continue;
			}
			CHECK(r == CCS_RESULT_SUCCESS, "deserialization failed with %s", rname(r));
			CHECK(c && d->dels == 0, "no tuner");
			void *cd = nullptr;
			OK(X<T>::data(c, &cd));
			CHECK(cd == d, "the copy does not hold the data given");
			for (size_t i = 0; i < hist.size(); i++)
				CHECK(Base::id(d->hist[i]) == b.ids.at(hist[i]), "evaluation %zu given back is another one", i);
			if (way == 't') {
				d->opt = t.d->opt;
				d->blob = blob;
			}
			for (void *e : d->hist)
				b.ids[e] = Base::id(e);
			st.copies++;
			V keep = t.v;
			add(c, d, keep);
		} else { // release
			size_t i = (size_t)(&t - tuns.data());
			Tun<T> k = t;
			tuns.erase(tuns.begin() + (long)i);
			if (s.coin()) {
				OK(ccs_retain_object(k.h));
				OK(ccs_release_object(k.h));
				CHECK(g->log.empty(), "a release that was not the last called callback %c", g->log[0].op);
			}
			s.log("release tuner %d", k.d ? k.d->id : -1);
			g->fail_in = 0;
			OK(ccs_release_object(k.h));
			CHECK(g->log.size() == 1 && g->log[0].op == 'd' && g->log[0].t == k.h && g->log[0].data == k.d, "the last release did not call the delete callback, once");
		}
	}
	g->scripted = false;
	while (!tuns.empty()) {
		size_t i = s.draw(tuns.size());
		Tun<T> k = tuns[i];
		tuns.erase(tuns.begin() + (long)i);
		arm(s, 0, 1, 1);
		OK(ccs_release_object(k.h));
		CHECK(g->log.size() == 1 && g->log[0].op == 'd' && g->log[0].t == k.h && g->log[0].data == k.d, "the last release did not call the delete callback, once");
	}
	for (auto &d : datas)
		CHECK(d.dels <= 1, "a tuner was deleted %d times", d.dels);
}

// ---- dynamic tree spaces ----
static ccs_result_t
ts_del(ccs_tree_space_t t)
{
	Rec r;
	r.op = 'd', r.t = t;
	CHECK(ccs_dynamic_tree_space_get_tree_space_data(t, &r.data) == CCS_RESULT_SUCCESS, "the user's data is out of reach when deleting");
	g->log.push_back(r);
	ccs_tree_t root = nullptr;
	OK(ccs_tree_space_get_tree(t, &root));
	alive(root);
	if (r.data)
		((Data *)r.data)->dels++;
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
ts_child(ccs_tree_space_t t, ccs_tree_t parent, size_t index, ccs_tree_t *out)
{
	Rec r;
	r.op = 'c', r.t = t, r.parent = parent, r.n = index, r.ret = out;
	OK(ccs_dynamic_tree_space_get_tree_space_data(t, &r.data));
	ccs_tree_t c = nullptr;
	OK(ccs_tree_get_child(parent, index, &c));
	CHECK(!c, "asked for a child that exists already");
	ccs_result_t e = enter(r);
	if (e < 0)
		return e;
	CHECK(out, "no place for the child");
	return ccs_create_tree(1 + (index + g->count) % 3, ccs_int(1000 + (int64_t)g->log.size()), out);
}
static ccs_result_t
ts_ser(ccs_tree_space_t t, size_t n, void *p, size_t *ret)
{
	Rec r;
	r.op = 'w', r.t = t, r.n = n, r.arr = p, r.ret = ret;
	OK(ccs_dynamic_tree_space_get_tree_space_data(t, &r.data));
	ccs_result_t e = enter(r);
	if (e < 0)
		return e;
	Data *d = (Data *)r.data;
	if (p) {
		CHECK(n == d->blob.size(), "asked to write %zu bytes of state after announcing %zu", n, d->blob.size());
		memcpy(p, d->blob.data(), n);
	}
	if (ret)
		*ret = d->blob.size();
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t
ts_des(ccs_tree_space_t t, size_t n, const void *p)
{
	Rec r;
	r.op = 'r', r.t = t, r.n = n;
	OK(ccs_dynamic_tree_space_get_tree_space_data(t, &r.data));
	CHECK(p || !n, "restored from nothing");
	if (n)
		r.bytes.assign((const char *)p, n);
	ccs_result_t e = enter(r);
	if (e < 0)
		return e;
	((Data *)r.data)->blob = r.bytes;
	return CCS_RESULT_SUCCESS;
}
static size_t
count_nodes(ccs_tree_t t)
{
	size_t n = 0, k = 1;
	OK(ccs_tree_get_arity(t, &n));
	for (size_t i = 0; i < n; i++) {
		ccs_tree_t c = nullptr;
		OK(ccs_tree_get_child(t, i, &c));
		if (c)
			k += count_nodes(c);
	}
	return k;
}
struct TS {
	ccs_tree_space_t h;
	Data            *d;
	ccs_dynamic_tree_space_vector_t v;
};
static void
run_ts(Src &s, Stats &st)
{
	Pool            pool;
	std::list<Data> datas;
	std::vector<TS> sp;
	size_t          n = 1 + s.draw(2);
	for (size_t i = 0; i < n; i++) {
		ccs_tree_t root = nullptr;
		OK(ccs_create_tree(s.draw(4), ccs_int((int64_t)i), &root));
		pool.add(root);
		ccs_dynamic_tree_space_vector_t *v = (ccs_dynamic_tree_space_vector_t *)malloc(sizeof *v);
		*v = {ts_del, ts_child, ts_ser, ts_des};
		if (s.chance(1, 4))
			v->serialize_user_state = nullptr;
		if (s.chance(1, 4))
			v->deserialize_state = nullptr;
		if (s.chance(1, 6)) {
			ccs_dynamic_tree_space_vector_t w = *v;
			(s.coin() ? *(void **)&w.del : *(void **)&w.get_child) = nullptr;
			ccs_tree_space_t no = nullptr;
			CHECK(ccs_create_dynamic_tree_space("t", root, &w, nullptr, &no) < 0 && !no, "a tree space without a mandatory callback was accepted");
			ccs_clear_thread_error();
		}
		datas.emplace_back();
		Data *d = &datas.back();
		d->id   = (int)i;
		if (v->serialize_user_state)
			d->blob = s.text(s.coin() ? 3 : 30);
		TS t;
		OK(ccs_create_dynamic_tree_space("space", root, v, d, &t.h));
		t.d = d;
		t.v = *v;
		memset((void *)v, 0xa5, sizeof *v);
		free(v);
		sp.push_back(t);
	}
	CHECK(g->log.empty(), "creating a tree space called callback %c", g->log[0].op);
	size_t steps = 1 + s.draw(12);
	for (size_t step = 0; step < steps && !sp.empty(); step++) {
		TS        &t = sp[s.draw(sp.size())];
		ccs_tree_t root = nullptr;
		OK(ccs_tree_space_get_tree(t.h, &root));
		g->count = s.draw(3);
		size_t op = s.weighted({4, 3, 3, 3, 2, 1});
		if (op <= 3) {
			std::vector<size_t> pos(s.draw(4));
			for (auto &p : pos)
				p = s.draw(3);
			// what exists on the way
			ccs_tree_t cur = root;
			size_t     k   = 0;
			bool       inval = false;
			while (k < pos.size()) {
				size_t a = 0;
				OK(ccs_tree_get_arity(cur, &a));
				if (pos[k] >= a) {
					inval = true;
					break;
				}
				ccs_tree_t c = nullptr;
				OK(ccs_tree_get_child(cur, pos[k], &c));
				if (!c)
					break;
				cur = c;
				k++;
			}
			size_t     nodes = count_nodes(root);
			arm(s, 1, 3, 2);
			std::string txt;
			for (auto p : pos)
				txt += pbt::sfmt(" %zu", p);
			static const char *const names[] = {"get_node_at_position", "get_values_at_position", "check_position", "tree_configuration_check"};
			s.log("%s of space %d at%s (%zu steps exist%s), fails %ld %s", names[op], t.d->id, txt.c_str(), k, inval ? ", then invalid" : "", g->fail_in, rname(g->err));
			ccs_tree_t               node = nullptr;
			std::vector<ccs_datum_t> vals(pos.size() + 1, ccs_none);
			ccs_bool_t               ok = 2;
			ccs_tree_configuration_t conf = nullptr;
			const size_t            *p = pos.empty() ? nullptr : pos.data();
			ccs_result_t             r;
			switch (op) {
			case 0: r = ccs_tree_space_get_node_at_position(t.h, pos.size(), p, &node); break;
			case 1: r = ccs_tree_space_get_values_at_position(t.h, pos.size(), p, vals.size(), vals.data()); break;
			case 2: r = ccs_tree_space_check_position(t.h, pos.size(), p, &ok); break;
			default:
				OK(ccs_create_tree_configuration(t.h, pos.size(), p, &conf));
				CHECK(g->log.empty(), "creating a tree configuration called callback %c", g->log[0].op);
				r = ccs_tree_configuration_check(conf, &ok);
			}
			// the calls descend from where the tree ended
			size_t made = 0;
			for (auto &c : g->log) {
				CHECK(c.op == 'c', "%s called callback %c", names[op], c.op);
				CHECK(c.t == t.h && c.data == t.d, "%s used another space or its data", names[op]);
				CHECK(!inval, "%s asked for a child although the position leaves the tree before", names[op]);
				CHECK(k + made < pos.size(), "%s asked for more children than the position has", names[op]);
				CHECK(c.parent == cur && c.n == pos[k + made], "%s asked for child %zu of the wrong node, or the wrong child", names[op], c.n);
				size_t a = 0;
				OK(ccs_tree_get_arity(cur, &a));
				CHECK(c.n < a, "%s asked for child %zu of a node with %zu", names[op], c.n, a);
				st.forwarded++;
				if (c.failed) {
					CHECK(&c == &g->log.back(), "%s went on after the callback failed", names[op]);
					break;
				}
				ccs_tree_t ch = nullptr;
				OK(ccs_tree_get_child(cur, c.n, &ch));
				CHECK(ch, "%s: the child given by the callback is not in the tree", names[op]);
				CHECK(refs_of(ch) == 1, "%s: the child given by the callback has %d references", names[op], (int)refs_of(ch));
				cur = ch;
				made++;
			}
			CHECK(count_nodes(root) == nodes + made, "%s changed the tree elsewhere", names[op]);
			if (failed()) {
				st.failures++;
				CHECK(r == g->err, "the callback failed with %s, %s returned %s", rname(g->err), names[op], rname(r));
				check_error(r, g->raise);
				CHECK(!node, "%s failed but gave something", names[op]);
			} else if (k + made == pos.size()) {
				CHECK(r == CCS_RESULT_SUCCESS, "%s failed with %s", names[op], rname(r));
				CHECK(op != 0 || node == cur, "%s gave another node", names[op]);
				CHECK(op < 2 || ok == CCS_TRUE, "%s calls a position of the tree invalid", names[op]);
			} else {
				CHECK(op >= 2 ? r == CCS_RESULT_SUCCESS && ok == CCS_FALSE : r < 0, "%s accepted a position out of the tree", names[op]);
				ccs_clear_thread_error();
			}
			if (conf)
				OK(ccs_release_object(conf));
		} else if (op == 4) { // copy
			arm(s, 1, 4, 4);
			size_t sz = 0;
			s.log("copy space %d with %zu bytes; fails %ld %s", t.d->id, t.d->blob.size(), g->fail_in, rname(g->err));
			ccs_result_t r = ccs_object_serialize(t.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END);
			std::vector<char> buf;
			if (r >= 0) {
				buf.assign(sz, (char)0x5a);
				r = ccs_object_serialize(t.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(), CCS_SERIALIZE_OPTION_END);
			}
			for (auto &k : g->log)
				CHECK(k.op == 'w' && k.t == t.h && k.data == t.d, "serializing called callback %c, or the one of another space", k.op);
			if (failed()) {
				st.failures++;
				CHECK(r == g->err, "the callback failed with %s, the serialization returned %s", rname(g->err), rname(r));
				check_error(r, g->raise);
				continue;
			}
			CHECK(r == CCS_RESULT_SUCCESS, "serialization failed with %s", rname(r));
			datas.emplace_back();
			Data *d = &datas.back();
			d->id   = 100 + (int)datas.size();
			arm(s, 1, 4, 1);
			TS c;
			c.h = nullptr, c.d = d, c.v = t.v;
			ccs_dynamic_tree_space_vector_t *v = (ccs_dynamic_tree_space_vector_t *)malloc(sizeof *v);
			*v = t.v;
			bool nv = s.chance(1, 10);
			r = nv ? ccs_object_deserialize((ccs_object_t *)&c.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(), CCS_DESERIALIZE_OPTION_END) :
				 ccs_object_deserialize((ccs_object_t *)&c.h, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, buf.data(),
							CCS_DESERIALIZE_OPTION_VECTOR, v, CCS_DESERIALIZE_OPTION_DATA, d, CCS_DESERIALIZE_OPTION_END);
			memset((void *)v, 0xa5, sizeof *v);
			free(v);
			if (nv) {
				CHECK(g->log.empty() && r < 0, "deserializing without a vector was accepted");
				ccs_clear_thread_error();
				continue;
			}
			bool bad = !g->log.empty() && g->log[0].failed;
			if (t.v.deserialize_state) {
				CHECK(!g->log.empty() && g->log[0].op == 'r' && g->log[0].data == d, "the state was not restored into the copy");
				CHECK(g->log[0].bytes == (t.v.serialize_user_state ? t.d->blob : std::string()), "the state given back is not the one written");
				CHECK(g->log.size() == (bad ? 2u : 1u), "deserializing made %zu calls of the callbacks", g->log.size());
			} else
				CHECK(g->log.empty(), "deserializing called callback %c", g->log[0].op);
			if (bad) {
				st.failures++;
				CHECK(r == g->err, "the callback failed with %s, the deserialization returned %s", rname(g->err), rname(r));
				check_error(r, g->raise);
				CHECK(!c.h && d->dels == 1, "the space that could not be restored was given, or deleted %d times", d->dels);
				continue;
			}
			CHECK(r == CCS_RESULT_SUCCESS && c.h, "deserialization failed with %s", rname(r));
			void *cd = nullptr;
			OK(ccs_dynamic_tree_space_get_tree_space_data(c.h, &cd));
			CHECK(cd == d, "the copy does not hold the data given");
			ccs_tree_t cr = nullptr;
			OK(ccs_tree_space_get_tree(c.h, &cr));
			CHECK(count_nodes(cr) == count_nodes(root), "the copy has another tree");
			if (!t.v.deserialize_state)
				d->blob = t.d->blob;
			st.copies++;
			sp.push_back(c);
		} else {
			TS k = t;
			sp.erase(sp.begin() + (&t - sp.data()));
			arm(s, 0, 1, 1);
			s.log("release space %d", k.d->id);
			OK(ccs_release_object(k.h));
			CHECK(g->log.size() == 1 && g->log[0].op == 'd' && g->log[0].t == k.h && g->log[0].data == k.d, "the last release did not call the delete callback, once");
		}
	}
	for (auto &k : sp) {
		arm(s, 0, 1, 1);
		OK(ccs_release_object(k.h));
		CHECK(g->log.size() == 1 && g->log[0].op == 'd' && g->log[0].t == k.h && g->log[0].data == k.d, "the last release did not call the delete callback, once");
	}
}

static void
body(Src &s)
{
	long  before = pbt::vp_live_allocs;
	Ctl   ctl;
	Stats st;
	g = &ctl;
	size_t kind = s.draw(4);
	switch (kind) {
	case 0: run<ccs_tuner_t>(s, st); break;
	case 1: run<ccs_features_tuner_t>(s, st); break;
	case 2: run<ccs_tree_tuner_t>(s, st); break;
	default: run_ts(s, st);
	}
	ccs_clear_thread_error();
	CHECK(pbt::vp_live_allocs == before, "%ld allocations remain", pbt::vp_live_allocs - before);
	s.nontrivial(st.forwarded >= 2 && (st.failures || st.copies || st.absent));
	s.label_if(st.failures, "a callback failed");
	s.label_if(st.copies, "copied through a stream");
	s.label_if(st.absent, "optional callback absent");
	s.feature(kind * 1000 + st.forwarded * 100 + st.failures * 10 + st.copies);
	g = nullptr;
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P25";
	c.rule = "up to 14 operations on one to a few user defined tuners, features tuners, tree tuners or dynamic tree spaces with recording callbacks, a quarter of them failing; non-trivial: at least two operations reached a callback, and a callback failed, was absent, or the object was copied through a stream";
	c.assumptions = {"the delete callback itself succeeds"};
	c.quick_cases    = 60000;
	c.thorough_cases = 1000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
