// A world of live objects, the ownership edges between them as the public
// accessors show them, and a table of the public functions that can be called
// on them with generated arguments.
#pragma once
#include "objs.hpp"
#include <array>
#include <utility>

namespace world {
using namespace objs;

// ---- what an object refers to, seen through the public interface ----
template <class T, class F>
static inline void
add_list(std::vector<ccs_object_t> &out, F get)
{
	size_t n = 0;
	OK(get(0, nullptr, &n));
	std::vector<T> v(n);
	if (n)
		OK(get(n, v.data(), nullptr));
	for (auto x : v)
		if (x)
			out.push_back((ccs_object_t)x);
}
template <class T, class X>
static inline void
add_one(std::vector<ccs_object_t> &out, ccs_object_t o, ccs_result_t (*get)(T, X *))
{
	X x = nullptr;
	OK(get((T)o, &x));
	if (x)
		out.push_back((ccs_object_t)x);
}
static inline std::vector<ccs_object_t>
links(ccs_object_t o)
{
	std::vector<ccs_object_t> out;
	ccs_object_type_t         t;
	OK(ccs_object_get_type(o, &t));
	auto context = [&]() {
		add_list<ccs_parameter_t>(out, [&](size_t n, ccs_parameter_t *p, size_t *r) { return ccs_context_get_parameters((ccs_context_t)o, n, p, r); });
	};
	switch (t) {
	case CCS_OBJECT_TYPE_DISTRIBUTION: {
		ccs_distribution_type_t dt;
		auto                    d = (ccs_distribution_t)o;
		OK(ccs_distribution_get_type(d, &dt));
		if (dt == CCS_DISTRIBUTION_TYPE_MIXTURE)
			add_list<ccs_distribution_t>(out, [&](size_t n, ccs_distribution_t *p, size_t *r) { return ccs_mixture_distribution_get_distributions(d, n, p, r); });
		else if (dt == CCS_DISTRIBUTION_TYPE_MULTIVARIATE)
			add_list<ccs_distribution_t>(out, [&](size_t n, ccs_distribution_t *p, size_t *r) { return ccs_multivariate_distribution_get_distributions(d, n, p, r); });
		break;
	}
	case CCS_OBJECT_TYPE_EXPRESSION: {
		ccs_expression_type_t et;
		auto                  e = (ccs_expression_t)o;
		OK(ccs_expression_get_type(e, &et));
		if (et == CCS_EXPRESSION_TYPE_VARIABLE)
			add_one(out, o, ccs_variable_get_parameter);
		else if (et != CCS_EXPRESSION_TYPE_LITERAL)
			add_list<ccs_expression_t>(out, [&](size_t n, ccs_expression_t *p, size_t *r) { return ccs_expression_get_nodes(e, n, p, r); });
		break;
	}
	case CCS_OBJECT_TYPE_FEATURES_SPACE: context(); break;
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: {
		auto c = (ccs_configuration_space_t)o;
		context();
		size_t n = out.size();
		add_one(out, o, ccs_configuration_space_get_rng);
		for (size_t i = 0; i < n; i++) {
			ccs_distribution_t d = nullptr;
			size_t             k;
			OK(ccs_configuration_space_get_parameter_distribution(c, i, &d, &k));
			out.push_back((ccs_object_t)d);
			ccs_expression_t e = nullptr;
			OK(ccs_configuration_space_get_condition(c, i, &e));
			if (e)
				out.push_back((ccs_object_t)e);
		}
		add_list<ccs_expression_t>(out, [&](size_t k, ccs_expression_t *p, size_t *r) { return ccs_configuration_space_get_forbidden_clauses(c, k, p, r); });
		break;
	}
	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: {
		context();
		size_t n = 0;
		OK(ccs_objective_space_get_objectives((ccs_objective_space_t)o, 0, nullptr, nullptr, &n));
		for (size_t i = 0; i < n; i++) {
			ccs_expression_t     e = nullptr;
			ccs_objective_type_t ot;
			OK(ccs_objective_space_get_objective((ccs_objective_space_t)o, i, &e, &ot));
			out.push_back((ccs_object_t)e);
		}
		break;
	}
	case CCS_OBJECT_TYPE_CONFIGURATION: add_one(out, o, ccs_configuration_get_configuration_space); break;
	case CCS_OBJECT_TYPE_FEATURES: add_one(out, o, ccs_features_get_features_space); break;
	case CCS_OBJECT_TYPE_EVALUATION:
		add_one(out, o, ccs_evaluation_get_objective_space);
		add_one(out, o, ccs_evaluation_get_configuration);
		break;
	case CCS_OBJECT_TYPE_FEATURES_EVALUATION:
		add_one(out, o, ccs_features_evaluation_get_objective_space);
		add_one(out, o, ccs_features_evaluation_get_configuration);
		add_one(out, o, ccs_features_evaluation_get_features);
		break;
	case CCS_OBJECT_TYPE_TREE_EVALUATION:
		add_one(out, o, ccs_tree_evaluation_get_objective_space);
		add_one(out, o, ccs_tree_evaluation_get_configuration);
		break;
	case CCS_OBJECT_TYPE_TREE:
		add_list<ccs_tree_t>(out, [&](size_t n, ccs_tree_t *p, size_t *r) { return ccs_tree_get_children((ccs_tree_t)o, n, p, r); });
		break;
	case CCS_OBJECT_TYPE_TREE_SPACE:
		add_one(out, o, ccs_tree_space_get_tree);
		add_one(out, o, ccs_tree_space_get_rng);
		break;
	case CCS_OBJECT_TYPE_TREE_CONFIGURATION: add_one(out, o, ccs_tree_configuration_get_tree_space); break;
	case CCS_OBJECT_TYPE_TUNER:
		add_one(out, o, ccs_tuner_get_configuration_space);
		add_one(out, o, ccs_tuner_get_objective_space);
		add_list<ccs_evaluation_t>(out, [&](size_t n, ccs_evaluation_t *p, size_t *r) { return ccs_tuner_get_history((ccs_tuner_t)o, n, p, r); });
		add_list<ccs_evaluation_t>(out, [&](size_t n, ccs_evaluation_t *p, size_t *r) { return ccs_tuner_get_optima((ccs_tuner_t)o, n, p, r); });
		break;
	case CCS_OBJECT_TYPE_FEATURES_TUNER:
		add_one(out, o, ccs_features_tuner_get_configuration_space);
		add_one(out, o, ccs_features_tuner_get_features_space);
		add_one(out, o, ccs_features_tuner_get_objective_space);
		add_list<ccs_features_evaluation_t>(out, [&](size_t n, ccs_features_evaluation_t *p, size_t *r) { return ccs_features_tuner_get_history((ccs_features_tuner_t)o, nullptr, n, p, r); });
		add_list<ccs_features_evaluation_t>(out, [&](size_t n, ccs_features_evaluation_t *p, size_t *r) { return ccs_features_tuner_get_optima((ccs_features_tuner_t)o, nullptr, n, p, r); });
		break;
	case CCS_OBJECT_TYPE_TREE_TUNER:
		add_one(out, o, ccs_tree_tuner_get_tree_space);
		add_one(out, o, ccs_tree_tuner_get_objective_space);
		add_list<ccs_tree_evaluation_t>(out, [&](size_t n, ccs_tree_evaluation_t *p, size_t *r) { return ccs_tree_tuner_get_history((ccs_tree_tuner_t)o, n, p, r); });
		add_list<ccs_tree_evaluation_t>(out, [&](size_t n, ccs_tree_evaluation_t *p, size_t *r) { return ccs_tree_tuner_get_optima((ccs_tree_tuner_t)o, n, p, r); });
		break;
	case CCS_OBJECT_TYPE_MAP: {
		size_t n = 0;
		OK(ccs_map_get_pairs((ccs_map_t)o, 0, nullptr, nullptr, &n));
		std::vector<ccs_datum_t> k(n), v(n);
		if (n)
			OK(ccs_map_get_pairs((ccs_map_t)o, n, k.data(), v.data(), nullptr));
		for (auto l : {&k, &v})
			for (auto &d : *l)
				if (d.type == CCS_DATA_TYPE_OBJECT && !(d.flags & CCS_DATUM_FLAG_ID) && d.value.o)
					out.push_back(d.value.o);
		break;
	}
	default: break;
	}
	return out;
}

// ---- objects known to the harness ----
struct World;
struct Node {
	ccs_object_t             h = nullptr;
	ccs_object_type_t        t = CCS_OBJECT_TYPE_RNG;
	size_t                   id = 0;
	long                     user  = 0; // references held by the user
	bool                     alive = true;
	std::vector<size_t>      cbs;  // callbacks attached, in order
	std::vector<size_t>      ran;  // callbacks that ran, in order
	void                    *ud = nullptr;
	std::string              trouble;
};
struct CbData {
	Node  *n;
	size_t k;
};
struct World {
	std::list<Graph>               graphs;
	std::list<Node>                nodes;
	std::map<ccs_object_t, Node *> by_h;
	std::list<CbData>              cbd;
	std::vector<Node *>            live; // reachable, in a stable order
	bool                           track = false; // attach callbacks
	Src                           *src = nullptr;
	std::vector<ccs_object_t>      held; // when not tracking

	static void
	on_destroy(ccs_object_t o, void *u)
	{
		CbData *c = (CbData *)u;
		Node   *n = c->n;
		n->ran.push_back(c->k);
		n->alive = false;
		if (o != n->h)
			n->trouble = "a destruction callback was given another object";
		ccs_object_type_t t = (ccs_object_type_t)-1;
		void             *d = nullptr;
		if (ccs_object_get_type(o, &t) < 0 || t != n->t)
			n->trouble = "the type could not be read in a destruction callback";
		if (ccs_object_get_user_data(o, &d) < 0 || d != n->ud)
			n->trouble = "the user data could not be read in a destruction callback";
	}
	void
	attach(Node *n)
	{
		cbd.push_back({n, n->cbs.size()});
		// the same callback with the same data can be attached several times
		for (size_t i = src && src->chance(1, 4) ? 2 : 1; i; i--) {
			OK(ccs_object_set_destroy_callback(n->h, on_destroy, &cbd.back()));
			n->cbs.push_back(cbd.back().k);
		}
	}
	Node *
	see(ccs_object_t o, bool fresh)
	{
		auto it = by_h.find(o);
		if (it != by_h.end()) {
			CHECK(it->second->alive, "%s %p (#%zu) is referred to after it was destroyed", type_name(it->second->t), o, it->second->id);
			CHECK(!fresh, "a new object is one that existed already (#%zu)", it->second->id);
			return it->second;
		}
		nodes.emplace_back();
		Node *n = &nodes.back();
		n->h    = o;
		n->id   = nodes.size() - 1;
		OK(ccs_object_get_type(o, &n->t));
		by_h[o] = n;
		if (track) {
			OK(ccs_object_get_user_data(o, &n->ud));
			if (!n->ud && src->chance(1, 4)) {
				n->ud = ud_make(sfmt("data of %zu", n->id));
				OK(ccs_object_set_user_data(o, n->ud));
			}
			size_t k = 1 + src->draw(3);
			for (size_t i = 0; i < k; i++)
				attach(n);
		}
		return n;
	}
	static const char *
	type_name(ccs_object_type_t t)
	{
		for (int k = 0; k < K_KINDS; k++)
			if (k_types[k] == t)
				return k_names[k];
		return "object";
	}
	// the user gets a reference
	Node *
	own(ccs_object_t o, bool fresh)
	{
		Node *n = see(o, fresh);
		n->user++;
		return n;
	}
	void
	take(Pool &pool)
	{
		for (auto o : pool.objs)
			own(o, false);
		pool.objs.clear();
	}
	void
	add_graph(Src &s, K k)
	{
		graphs.emplace_back();
		Pool pool;
		gen_any(s, pool, graphs.back(), k);
		take(pool);
	}
	// everything the user can reach
	void
	walk()
	{
		std::set<Node *>    seen;
		std::vector<Node *> todo;
		live.clear();
		for (auto &n : nodes)
			if (n.user > 0) {
				CHECK(n.alive, "%s #%zu was destroyed while the user had %ld references to it", type_name(n.t), n.id, n.user);
				seen.insert(&n);
				todo.push_back(&n);
			}
		while (!todo.empty()) {
			Node *n = todo.back();
			todo.pop_back();
			live.push_back(n);
			for (auto o : links(n->h)) {
				Node *m = see(o, false);
				if (seen.insert(m).second)
					todo.push_back(m);
			}
		}
	}
	bool
	reaches(Node *a, Node *b)
	{
		std::set<ccs_object_t>    seen;
		std::vector<ccs_object_t> todo = {a->h};
		while (!todo.empty()) {
			ccs_object_t o = todo.back();
			todo.pop_back();
			if (o == b->h)
				return true;
			if (!seen.insert(o).second)
				continue;
			for (auto l : links(o))
				todo.push_back(l);
		}
		return false;
	}
	Node *
	pick(Src &s, ccs_object_type_t t)
	{
		std::vector<Node *> c;
		for (auto n : live)
			if (n->t == t)
				c.push_back(n);
		return c.empty() ? nullptr : s.pick(c);
	}
	void
	release(Node *n)
	{
		CHECK(n->user > 0, "harness: no reference to release");
		n->user--;
		OK(ccs_release_object(n->h));
	}
	void
	release_all()
	{
		for (auto &n : nodes)
			while (n.user > 0) {
				n.user--;
				ccs_release_object(n.h);
			}
	}
	~World() { release_all(); }
};

// ---- the public functions ----
enum { H_NONE = -1, H_CONTEXT = -2, H_BINDING = -3, H_OBJECT = -4 };
template <class T> struct HT { static const int v = H_NONE; };
#define HT_(T, V) template <> struct HT<T> { static const int v = (int)V; };
HT_(ccs_rng_t, CCS_OBJECT_TYPE_RNG)
HT_(ccs_distribution_t, CCS_OBJECT_TYPE_DISTRIBUTION)
HT_(ccs_parameter_t, CCS_OBJECT_TYPE_PARAMETER)
HT_(ccs_expression_t, CCS_OBJECT_TYPE_EXPRESSION)
HT_(ccs_configuration_space_t, CCS_OBJECT_TYPE_CONFIGURATION_SPACE)
HT_(ccs_configuration_t, CCS_OBJECT_TYPE_CONFIGURATION)
HT_(ccs_features_space_t, CCS_OBJECT_TYPE_FEATURES_SPACE)
HT_(ccs_features_t, CCS_OBJECT_TYPE_FEATURES)
HT_(ccs_objective_space_t, CCS_OBJECT_TYPE_OBJECTIVE_SPACE)
HT_(ccs_evaluation_t, CCS_OBJECT_TYPE_EVALUATION)
HT_(ccs_features_evaluation_t, CCS_OBJECT_TYPE_FEATURES_EVALUATION)
HT_(ccs_tuner_t, CCS_OBJECT_TYPE_TUNER)
HT_(ccs_features_tuner_t, CCS_OBJECT_TYPE_FEATURES_TUNER)
HT_(ccs_map_t, CCS_OBJECT_TYPE_MAP)
HT_(ccs_tree_t, CCS_OBJECT_TYPE_TREE)
HT_(ccs_tree_space_t, CCS_OBJECT_TYPE_TREE_SPACE)
HT_(ccs_tree_configuration_t, CCS_OBJECT_TYPE_TREE_CONFIGURATION)
HT_(ccs_tree_evaluation_t, CCS_OBJECT_TYPE_TREE_EVALUATION)
HT_(ccs_tree_tuner_t, CCS_OBJECT_TYPE_TREE_TUNER)
HT_(ccs_context_t, H_CONTEXT)
HT_(ccs_binding_t, H_BINDING)
HT_(ccs_object_t, H_OBJECT)
#undef HT_

struct ArgInfo {
	int    handle  = H_NONE; // a handle of this type
	int    phandle = H_NONE; // a pointer to handles of this type
	size_t esz     = 1;      // size of what a pointer points to
};
template <class T>
static inline ArgInfo
arg_info()
{
	ArgInfo a;
	a.handle = HT<T>::v;
	if constexpr (std::is_pointer_v<T>) {
		typedef std::remove_const_t<std::remove_pointer_t<T>> E;
		a.phandle = HT<E>::v;
		if constexpr (!std::is_void_v<E> && HT<T>::v == H_NONE && !std::is_function_v<E>)
			a.esz = sizeof(E);
	}
	return a;
}
struct Slot {
	void         *p = nullptr;
	uint64_t      z = 0;
	double        f = 0;
	ccs_datum_t   d = ccs_none;
	ccs_numeric_t n = NI(0);
	std::string   data; // contents of an input array
	size_t        cap = 0; // bytes of an output array
	bool          null = false;
	char          tok = 0;
	int           arg = 0; // number after the letter
	std::unique_ptr<char[]> buf;
};
template <class T>
static inline T
conv(const Slot &s)
{
	typedef std::remove_const_t<T> U;
	if constexpr (std::is_same_v<U, ccs_datum_t>)
		return s.d;
	else if constexpr (std::is_same_v<U, ccs_numeric_t>)
		return s.n;
	else if constexpr (std::is_pointer_v<U>)
		return (U)s.p;
	else if constexpr (std::is_floating_point_v<U>)
		return (U)s.f;
	else
		return (U)s.z;
}
struct Call;
struct Fn {
	const char          *name;
	std::vector<char>    tok;
	std::vector<int>     targ;
	std::vector<ArgInfo> args;
	std::function<ccs_result_t(const std::vector<Slot> &)> call;
	bool (*smart)(World &, Src &, Call &) = nullptr; // adjusts generated arguments
};
template <class... A, size_t... I>
static inline ccs_result_t
invoke_fn(ccs_result_t (*f)(A...), const std::vector<Slot> &s, std::index_sequence<I...>)
{
	return f(conv<A>(s[I])...);
}
template <class... A>
static inline Fn
make_fn(const char *name, ccs_result_t (*f)(A...), const char *spec, bool (*smart)(World &, Src &, Call &) = nullptr)
{
	Fn r;
	r.name = name;
	r.args = {arg_info<A>()...};
	for (const char *c = spec; *c; c++) {
		if (*c == ' ')
			continue;
		if (*c >= '0' && *c <= '9') {
			r.targ.back() = r.targ.back() * 10 + (*c - '0');
			continue;
		}
		r.tok.push_back(*c);
		r.targ.push_back(0);
	}
	if (r.tok.size() != sizeof...(A)) {
		fprintf(stderr, "table entry of %s: %zu tokens for %zu arguments\n", name, r.tok.size(), sizeof...(A));
		abort();
	}
	r.call = [f](const std::vector<Slot> &s) { return invoke_fn(f, s, std::index_sequence_for<A...>()); };
	r.smart = smart;
	return r;
}

struct Call {
	const Fn         *fn = nullptr;
	std::vector<Slot> s;
	size_t            listed = SIZE_MAX; // length of the list a query function gives
	ccs_result_t
	run()
	{
		for (size_t i = 0; i < s.size(); i++) {
			Slot &a = s[i];
			switch (a.tok) {
			case 'h': case 'd': case 'q': case 'w': case 'x': case 'j':
				a.p = nullptr;
				if (!a.null) { // exactly sized
					a.buf.reset(new char[a.data.size() ? a.data.size() : 1]);
					memcpy(a.buf.get(), a.data.data(), a.data.size());
					if (a.data.empty())
						a.buf.reset(new char[0]);
					a.p = a.buf.get();
				}
				break;
			case 'A': case 'C': case 'c': case 'r': case 'R': case 'y':
				a.p = nullptr;
				if (!a.null) {
					a.buf.reset(new char[a.cap]);
					memset(a.buf.get(), 0x5a, a.cap);
					a.p = a.buf.get();
				}
				break;
			default: break;
			}
		}
		return fn->call(s);
	}
	// objects the call created for the caller
	std::vector<ccs_object_t>
	created()
	{
		std::vector<ccs_object_t> v;
		for (auto &a : s)
			if ((a.tok == 'c' || a.tok == 'C') && a.p)
				for (size_t k = 0; k < a.cap / sizeof(void *); k++) {
					ccs_object_t o;
					memcpy(&o, (char *)a.p + k * sizeof o, sizeof o);
					if (o && !unwritten(o))
						v.push_back(o);
				}
		return v;
	}
	static bool
	unwritten(ccs_object_t o)
	{
		ccs_object_t u;
		memset(&u, 0x5a, sizeof u);
		return o == u;
	}
	// all output bytes, as text
	std::string
	outputs()
	{
		std::string t;
		for (auto &a : s)
			if (strchr("ArRy", a.tok) && a.p)
				t.append((char *)a.p, a.cap);
		return t;
	}
	void
	set_cap(size_t i, size_t n)
	{
		s[i].cap = n * fn->args[i].esz;
	}
	template <class T>
	void
	set_data(size_t i, const std::vector<T> &v)
	{
		s[i].data.assign((const char *)v.data(), v.size() * sizeof(T));
		s[i].null = v.empty();
	}
	std::string
	str() const
	{
		std::string t = std::string(fn->name) + "(";
		for (size_t i = 0; i < s.size(); i++) {
			const Slot &a = s[i];
			if (i)
				t += ", ";
			switch (a.tok) {
			case 'o': case 'O': t += a.p ? sfmt("%p", a.p) : "NULL"; break;
			case 'v': t += D::of(a.d).str(); break;
			case 'n': t += a.p ? sfmt("\"%s\"", (const char *)a.p) : "NULL"; break;
			case 'f': t += sfmt("%g", a.f); break;
			case 'u': t += sfmt("numeric %lld", (long long)a.n.i); break;
			case 'z': case 'i': case 'e': t += sfmt("%lld", (long long)a.z); break;
			case 'h': case 'd': case 'q': case 'w': case 'x': case 'j':
				t += a.null ? "NULL" : sfmt("in[%zu bytes]", a.data.size());
				break;
			default: t += a.null ? "NULL" : sfmt("out[%zu bytes]", a.cap);
			}
		}
		return t + ")";
	}
};

// ---- argument generators ----
static inline D
domain_value(Src &s, ccs_parameter_t p)
{
	ccs_parameter_type_t t;
	OK(ccs_parameter_get_type(p, &t));
	std::vector<ccs_datum_t> v;
	size_t                   n = 0;
	switch (t) {
	case CCS_PARAMETER_TYPE_NUMERICAL: {
		ccs_numeric_type_t nt;
		ccs_numeric_t      l, u, q;
		OK(ccs_numerical_parameter_get_properties(p, &nt, &l, &u, &q));
		v.push_back(nt == CCS_NUMERIC_TYPE_INT ? ccs_int(l.i) : ccs_float(l.f));
		break;
	}
	case CCS_PARAMETER_TYPE_CATEGORICAL:
		OK(ccs_categorical_parameter_get_values(p, 0, nullptr, &n));
		v.resize(n);
		OK(ccs_categorical_parameter_get_values(p, n, v.data(), nullptr));
		break;
	case CCS_PARAMETER_TYPE_ORDINAL:
		OK(ccs_ordinal_parameter_get_values(p, 0, nullptr, &n));
		v.resize(n);
		OK(ccs_ordinal_parameter_get_values(p, n, v.data(), nullptr));
		break;
	case CCS_PARAMETER_TYPE_DISCRETE:
		OK(ccs_discrete_parameter_get_values(p, 0, nullptr, &n));
		v.resize(n);
		OK(ccs_discrete_parameter_get_values(p, n, v.data(), nullptr));
		break;
	default: return D::S(sfmt("text %d", (int)s.draw(4)));
	}
	ccs_datum_t d;
	OK(ccs_parameter_get_default_value(p, &d));
	v.push_back(d);
	return D::of(s.pick(v));
}
static inline std::vector<ccs_parameter_t>
params_of(ccs_context_t c)
{
	size_t n = 0;
	OK(ccs_context_get_num_parameters(c, &n));
	std::vector<ccs_parameter_t> p(n);
	if (n)
		OK(ccs_context_get_parameters(c, n, p.data(), nullptr));
	return p;
}
static inline std::vector<ccs_datum_t>
domain_values(Src &s, ccs_context_t c)
{
	std::vector<ccs_datum_t> v;
	for (auto p : params_of(c))
		v.push_back((s.chance(1, 12) ? odd_value(s) : domain_value(s, p)).stable());
	if (s.chance(1, 3)) // to be copied, and checked first
		for (auto &d : v)
			if (s.coin())
				d.flags |= CCS_DATUM_FLAG_TRANSIENT;
	return v;
}
static inline ccs_datum_t
any_value(World &w, Src &s)
{
	if (s.coin())
		if (Node *p = w.pick(s, CCS_OBJECT_TYPE_PARAMETER))
			return domain_value(s, (ccs_parameter_t)p->h).stable();
	return (s.chance(1, 4) ? odd_value(s) : gen_scalar(s)).stable();
}
static inline const char *
any_name(World &w, Src &s)
{
	if (s.coin())
		if (Node *p = w.pick(s, CCS_OBJECT_TYPE_PARAMETER)) {
			const char *n = nullptr;
			OK(ccs_parameter_get_name((ccs_parameter_t)p->h, &n));
			return intern(n);
		}
	return intern(sfmt("name%d", (int)s.draw(20)));
}
static inline Node *
pick_handle(World &w, Src &s, int ht)
{
	if (ht >= 0)
		return w.pick(s, (ccs_object_type_t)ht);
	std::vector<Node *> c;
	for (auto n : w.live) {
		bool ok = ht == H_OBJECT;
		if (ht == H_CONTEXT)
			ok = n->t == CCS_OBJECT_TYPE_CONFIGURATION_SPACE || n->t == CCS_OBJECT_TYPE_FEATURES_SPACE || n->t == CCS_OBJECT_TYPE_OBJECTIVE_SPACE;
		if (ht == H_BINDING)
			ok = n->t == CCS_OBJECT_TYPE_CONFIGURATION || n->t == CCS_OBJECT_TYPE_FEATURES || n->t == CCS_OBJECT_TYPE_EVALUATION ||
			     n->t == CCS_OBJECT_TYPE_FEATURES_EVALUATION || n->t == CCS_OBJECT_TYPE_TREE_EVALUATION;
		if (ok)
			c.push_back(n);
	}
	return c.empty() ? nullptr : s.pick(c);
}
// fills in the arguments; false when the world has no object for one of them
static inline bool
gen_args(World &w, Src &s, const Fn &f, Call &c)
{
	c.fn = &f;
	c.s.clear();
	c.s.resize(f.tok.size());
	size_t zn = 0; // size given by the last z
	for (size_t i = 0; i < f.tok.size(); i++) {
		Slot          &a  = c.s[i];
		const ArgInfo &ai = f.args[i];
		a.tok = f.tok[i];
		a.arg = f.targ[i];
		switch (a.tok) {
		case 'O': // may be null
			if (s.chance(1, 3))
				break;
			[[fallthrough]];
		case 'o': {
			Node *n = pick_handle(w, s, ai.handle);
			if (!n) {
				if (a.tok == 'O')
					break;
				return false;
			}
			a.p = n->h;
			break;
		}
		case 'n': a.p = (void *)any_name(w, s); break;
		case 'v': a.d = any_value(w, s); break;
		case 'i': a.z = s.chance(1, 20) ? (uint64_t)s.i64() : s.draw(4); break;
		case 'e': a.z = s.chance(1, 30) ? (uint64_t)s.range(-3, 40) : s.draw((uint64_t)(a.arg ? a.arg : 1)); break;
		case 'f': a.f = s.chance(1, 6) ? s.f64() : (double)s.draw(4) / 2; break;
		case 'u': a.n = NI(s.small_int()); break;
		case 'z': a.z = zn = s.draw(4); break;
		case 'h': {
			std::vector<ccs_object_t> v;
			for (size_t k = 0; k < zn; k++) {
				Node *n = pick_handle(w, s, ai.phandle);
				if (!n)
					return false;
				v.push_back(n->h);
			}
			c.set_data(i, v);
			break;
		}
		case 'd': {
			std::vector<ccs_datum_t> v;
			for (size_t k = 0; k < zn; k++)
				v.push_back(any_value(w, s));
			c.set_data(i, v);
			break;
		}
		case 'q': {
			std::vector<size_t> v;
			for (size_t k = 0; k < zn; k++)
				v.push_back(s.chance(1, 12) ? (size_t)s.i64() : s.draw(3));
			c.set_data(i, v);
			break;
		}
		case 'w': {
			std::vector<double> v;
			for (size_t k = 0; k < zn; k++)
				v.push_back(s.chance(1, 12) ? s.f64() : (double)s.draw(4));
			c.set_data(i, v);
			break;
		}
		case 'x': {
			std::vector<ccs_numeric_t> v;
			for (size_t k = 0; k < zn; k++)
				v.push_back(s.coin() ? NI(s.small_int()) : NF(s.small_f()));
			c.set_data(i, v);
			break;
		}
		case 'j': {
			std::vector<ccs_interval_t> v(1);
			bool is_int = s.coin();
			v[0].type  = is_int ? CCS_NUMERIC_TYPE_INT : CCS_NUMERIC_TYPE_FLOAT;
			v[0].lower = is_int ? NI(s.small_int()) : NF(s.small_f());
			v[0].upper = is_int ? NI(s.small_int()) : NF(s.small_f());
			v[0].lower_included = s.coin() ? CCS_TRUE : CCS_FALSE;
			v[0].upper_included = s.coin() ? CCS_TRUE : CCS_FALSE;
			c.set_data(i, v);
			break;
		}
		case 'A':
		case 'C':
			c.set_cap(i, zn);
			a.null = zn == 0;
			break;
		case 'c':
		case 'r':
		case 'R': c.set_cap(i, 1); break;
		case 'y':
			c.set_cap(i, 1);
			a.null = s.coin();
			break;
		default: fail("harness: token %c of %s", a.tok, f.name);
		}
	}
	// lists: ask for the length first
	size_t R = f.tok.size();
	for (size_t i = 0; i < f.tok.size(); i++)
		if (f.tok[i] == 'R')
			R = i;
	if (R < f.tok.size() && strchr(f.name, '_') && std::find(f.tok.begin(), f.tok.end(), 'A') != f.tok.end()) {
		size_t z = R;
		while (f.tok[z] != 'z')
			z--;
		Call q;
		q.fn = &f;
		q.s.resize(c.s.size());
		for (size_t i = 0; i < c.s.size(); i++) {
			Slot &a = q.s[i], &b = c.s[i];
			a.p = b.p, a.z = b.z, a.f = b.f, a.d = b.d, a.n = b.n, a.data = b.data, a.cap = b.cap, a.null = b.null, a.tok = b.tok, a.arg = b.arg;
			if (a.tok == 'A')
				a.null = true;
		}
		q.s[z].z = 0;
		if (q.run() >= 0) {
			size_t n;
			memcpy(&n, q.s[R].p, sizeof n);
			c.listed = n;
			size_t m = s.chance(1, 4) ? 0 : s.chance(1, 4) ? n + s.draw(3) : n;
			c.s[z].z = m;
			for (size_t i = z; i < R; i++)
				if (f.tok[i] == 'A') {
					c.set_cap(i, m);
					c.s[i].null = m == 0;
				}
			c.s[R].null = m && s.coin();
		} else
			ccs_clear_thread_error();
	}
	return !f.smart || f.smart(w, s, c);
}

// ---- arguments that depend on each other ----
template <class T>
static inline bool
vals_of(World &, Src &s, Call &c, size_t space, size_t z)
{
	if (s.chance(1, 10))
		return true;
	auto v   = domain_values(s, (ccs_context_t)c.s[space].p);
	c.s[z].z = v.size();
	c.set_data(z + 1, v);
	return true;
}
static bool sm_vals0(World &w, Src &s, Call &c) { return vals_of<int>(w, s, c, 0, 1); }
static bool sm_eval(World &w, Src &s, Call &c)
{
	c.s[2].z = s.chance(1, 4) ? (uint64_t)s.range(-3, 3) : 0;
	return vals_of<int>(w, s, c, 0, 3);
}
static bool sm_feval(World &w, Src &s, Call &c)
{
	c.s[3].z = s.chance(1, 4) ? (uint64_t)s.range(-3, 3) : 0;
	return vals_of<int>(w, s, c, 0, 4);
}
static inline std::vector<ccs_parameter_t>
binding_params(ccs_object_t b)
{
	ccs_context_t c = nullptr;
	OK(ccs_binding_get_context((ccs_binding_t)b, &c));
	return params_of(c);
}
static bool sm_bind_values(World &, Src &s, Call &c)
{
	ccs_context_t x = nullptr;
	OK(ccs_binding_get_context((ccs_binding_t)c.s[0].p, &x));
	auto v   = domain_values(s, x);
	c.s[1].z = v.size();
	c.set_data(2, v);
	return true;
}
static bool sm_bind_set(World &, Src &s, Call &c) // binding, index, value
{
	auto p = binding_params(c.s[0].p);
	if (c.s[1].z < p.size() && s.chance(3, 4))
		c.s[2].d = domain_value(s, p[c.s[1].z]).stable();
	return true;
}
static bool sm_bind_name(World &, Src &s, Call &c) // binding, name, value
{
	auto p = binding_params(c.s[0].p);
	if (!p.empty() && s.chance(3, 4)) {
		auto        x = s.pick(p);
		const char *n = nullptr;
		OK(ccs_parameter_get_name(x, &n));
		c.s[1].p = (void *)intern(n);
		c.s[2].d = domain_value(s, x).stable();
	}
	return true;
}
static bool sm_bind_param(World &, Src &s, Call &c)
{
	auto p = binding_params(c.s[0].p);
	if (!p.empty() && s.chance(3, 4)) {
		auto x   = s.pick(p);
		c.s[1].p = x;
		c.s[2].d = domain_value(s, x).stable();
	}
	return true;
}
static bool sm_get_name(World &, Src &s, Call &c) // binding, name, out
{
	auto p = binding_params(c.s[0].p);
	if (!p.empty() && s.chance(3, 4)) {
		const char *n = nullptr;
		OK(ccs_parameter_get_name(s.pick(p), &n));
		c.s[1].p = (void *)intern(n);
	}
	return true;
}
static bool sm_ctx_name(World &, Src &s, Call &c) // context, name, out
{
	auto p = params_of((ccs_context_t)c.s[0].p);
	if (!p.empty() && s.chance(3, 4)) {
		const char *n = nullptr;
		OK(ccs_parameter_get_name(s.pick(p), &n));
		c.s[1].p = (void *)intern(n);
	}
	return true;
}
static bool sm_ctx_param(World &, Src &s, Call &c) // context, parameter, out
{
	auto p = params_of((ccs_context_t)c.s[0].p);
	if (!p.empty() && s.chance(3, 4))
		c.s[1].p = s.pick(p);
	return true;
}
static bool sm_ctx_params(World &, Src &s, Call &c) // context, n, parameters, out indexes
{
	auto p = params_of((ccs_context_t)c.s[0].p);
	if (!p.empty() && s.chance(3, 4)) {
		c.s[1].z = p.size();
		c.set_data(2, p);
		c.set_cap(3, p.size());
		c.s[3].null = false;
	}
	return true;
}
static bool sm_ctx_value(World &, Src &s, Call &c) // context, index, value, out
{
	auto p = params_of((ccs_context_t)c.s[0].p);
	if (c.s[1].z < p.size() && s.chance(3, 4))
		c.s[2].d = domain_value(s, p[c.s[1].z]).stable();
	return true;
}
static bool sm_param(World &, Src &s, Call &c)
{
	c.s[0].p = (void *)intern(sfmt("new%d", (int)s.draw(6)));
	return true;
}
static bool sm_int_param(World &w, Src &s, Call &c)
{
	sm_param(w, s, c);
	int64_t l = s.small_int(), n = 1 + (int64_t)s.draw(9);
	c.s[1].z = (uint64_t)l, c.s[2].z = (uint64_t)(l + n), c.s[3].z = s.chance(1, 6) ? (uint64_t)s.draw(12) : 0;
	c.s[4].z = (uint64_t)(l + (int64_t)s.draw((uint64_t)n));
	return true;
}
static bool sm_float_param(World &w, Src &s, Call &c)
{
	sm_param(w, s, c);
	double l = s.small_f(), n = (1 + (double)s.draw(9)) / 2;
	c.s[1].f = l, c.s[2].f = l + n, c.s[3].f = s.chance(1, 6) ? (double)s.draw(12) : 0;
	c.s[4].f = l + n / 2;
	return true;
}
static bool sm_vals_param(World &w, Src &s, Call &c) // name, n, values, default
{
	sm_param(w, s, c);
	bool disc = !strcmp(c.fn->name, "ccs_create_discrete_parameter");
	auto v    = gen_values(s, 1 + s.draw(4), disc, false);
	std::vector<ccs_datum_t> a = stables(v);
	c.s[1].z = a.size();
	c.set_data(2, a);
	c.s[3].z = s.chance(1, 10) ? 7 : s.draw(a.size());
	return true;
}
static bool sm_uniform_int(World &, Src &s, Call &c)
{
	int64_t l = 1 + (int64_t)s.draw(20);
	c.s[0].z = (uint64_t)l, c.s[1].z = (uint64_t)(l + (int64_t)s.draw(12)), c.s[2].z = s.draw(2), c.s[3].z = s.draw(2);
	return true;
}
static bool sm_uniform_float(World &, Src &s, Call &c)
{
	double l = 1 + s.unit() * 10;
	c.s[0].f = l, c.s[1].f = l + (double)s.draw(12), c.s[2].z = s.draw(2), c.s[3].f = s.coin() ? 0 : 0.25;
	return true;
}
static bool sm_normal(World &, Src &s, Call &c)
{
	c.s[0].f = (double)s.draw(8), c.s[1].f = (double)s.draw(4), c.s[2].z = s.draw(2);
	c.s[3].z = s.draw(2), c.s[3].f = s.coin() ? 0 : 0.25;
	return true;
}
static inline size_t
dim_of(void *d)
{
	size_t n = 0;
	OK(ccs_distribution_get_dimension((ccs_distribution_t)d, &n));
	return n;
}
static bool sm_dim_out(World &, Src &, Call &c) // distribution, out array of its dimension
{
	c.set_cap(1, dim_of(c.s[0].p));
	return true;
}
// sampling a distribution with hardly any mass in the integers takes for ever
static inline bool
wild(void *o)
{
	dump_wild() = false;
	dump((ccs_object_t)o);
	return dump_wild();
}
static bool sm_dsample(World &, Src &, Call &c) // distribution, rng, values
{
	c.set_cap(2, dim_of(c.s[0].p));
	return !wild(c.s[0].p);
}
static bool sm_dsamples(World &, Src &, Call &c) // distribution, rng, n, values
{
	c.set_cap(3, c.s[2].z * dim_of(c.s[0].p));
	return !wild(c.s[0].p);
}
static bool sm_oversampling(World &, Src &s, Call &c) // distribution, intervals, out
{
	size_t n = dim_of(c.s[0].p);
	std::vector<ccs_interval_t>     v(n);
	std::vector<ccs_numeric_type_t> t(n);
	OK(ccs_distribution_get_data_types((ccs_distribution_t)c.s[0].p, t.data()));
	for (size_t i = 0; i < n; i++) {
		bool f = t[i] == CCS_NUMERIC_TYPE_FLOAT;
		v[i].type  = t[i];
		v[i].lower = f ? NF(0) : NI(0);
		v[i].upper = f ? NF((double)s.draw(20)) : NI((int64_t)s.draw(20));
		v[i].lower_included = v[i].upper_included = CCS_TRUE;
	}
	c.set_data(1, v);
	c.set_cap(2, n);
	return true;
}
static bool sm_mixture(World &, Src &, Call &) { return true; }
static bool sm_setdist(World &, Src &s, Call &c) // space, distribution, indexes
{
	size_t n = dim_of(c.s[1].p), m = 0;
	OK(ccs_configuration_space_get_num_parameters((ccs_configuration_space_t)c.s[0].p, &m));
	std::vector<size_t> v;
	for (size_t i = 0; i < n; i++)
		v.push_back(m && !s.chance(1, 15) ? s.draw(m) : s.draw(9));
	c.set_data(2, v);
	return !wild(c.s[1].p);
}
static bool sm_addparam(World &, Src &, Call &c) // space, parameter, distribution
{
	return !c.s[2].p || !wild(c.s[2].p);
}
static bool sm_addparams(World &w, Src &s, Call &c) // space, n, parameters, distributions
{
	std::vector<ccs_object_t> v;
	for (size_t k = 0; k < c.s[1].z; k++) {
		Node *d = s.chance(2, 3) ? nullptr : w.pick(s, CCS_OBJECT_TYPE_DISTRIBUTION);
		if (d && wild(d->h))
			d = nullptr;
		v.push_back(d ? d->h : nullptr);
	}
	c.set_data(3, v);
	return true;
}
static bool sm_psample(World &, Src &s, Call &c) // parameter, distribution, rng...
{
	ccs_parameter_type_t t;
	OK(ccs_parameter_get_type((ccs_parameter_t)c.s[0].p, &t));
	(void)s;
	return !wild(c.s[1].p);
}
static bool sm_pvalue(World &, Src &s, Call &c) // parameter, value, ...
{
	if (s.chance(2, 3))
		c.s[1].d = domain_value(s, (ccs_parameter_t)c.s[0].p).stable();
	return true;
}
static bool sm_pcompare(World &, Src &s, Call &c)
{
	c.s[1].d = domain_value(s, (ccs_parameter_t)c.s[0].p).stable();
	if (s.chance(3, 4))
		c.s[2].d = domain_value(s, (ccs_parameter_t)c.s[0].p).stable();
	return true;
}
static bool sm_expr(World &w, Src &s, Call &c) // type, n, nodes
{
	std::vector<ccs_datum_t> v;
	size_t                   n = s.draw(4);
	for (size_t i = 0; i < n; i++) {
		Node *x = s.chance(2, 3) ? pick_handle(w, s, s.coin() ? (int)CCS_OBJECT_TYPE_EXPRESSION : (int)CCS_OBJECT_TYPE_PARAMETER) : nullptr;
		v.push_back(x ? ccs_object(x->h) : any_value(w, s));
	}
	static const ccs_expression_type_t ty[] = {CCS_EXPRESSION_TYPE_LIST, CCS_EXPRESSION_TYPE_LIST, CCS_EXPRESSION_TYPE_AND, CCS_EXPRESSION_TYPE_NOT, CCS_EXPRESSION_TYPE_EQUAL, CCS_EXPRESSION_TYPE_ADD};
	c.s[0].z = s.chance(1, 10) ? s.draw(24) : (uint64_t)ty[s.draw(6)];
	c.s[1].z = n;
	c.set_data(2, v);
	return true;
}
static inline ccs_datum_t
node_value(World &w, Src &s)
{
	Node *x = s.chance(2, 3) ? pick_handle(w, s, s.coin() ? (int)CCS_OBJECT_TYPE_EXPRESSION : (int)CCS_OBJECT_TYPE_PARAMETER) : nullptr;
	return x ? ccs_object(x->h) : any_value(w, s);
}
static bool sm_unary(World &w, Src &s, Call &c)
{
	static const ccs_expression_type_t ty[] = {CCS_EXPRESSION_TYPE_NOT, CCS_EXPRESSION_TYPE_POSITIVE, CCS_EXPRESSION_TYPE_NEGATIVE, CCS_EXPRESSION_TYPE_AND};
	c.s[0].z = (uint64_t)ty[s.draw(4)];
	c.s[1].d = node_value(w, s);
	return true;
}
static bool sm_binary(World &w, Src &s, Call &c)
{
	static const ccs_expression_type_t ty[] = {CCS_EXPRESSION_TYPE_AND, CCS_EXPRESSION_TYPE_OR, CCS_EXPRESSION_TYPE_EQUAL, CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_IN, CCS_EXPRESSION_TYPE_NOT};
	c.s[0].z = (uint64_t)ty[s.draw(7)];
	c.s[1].d = node_value(w, s);
	c.s[2].d = node_value(w, s);
	return true;
}
static bool sm_expr_eval(World &, Src &s, Call &c) // expression, context, values, ...
{
	if (c.s[1].p)
		c.set_data(2, domain_values(s, (ccs_context_t)c.s[1].p));
	else
		c.s[2].null = true, c.s[2].data.clear();
	return true;
}
static inline bool
nests(World &w, ccs_object_t o, ccs_object_t in)
{
	return w.reaches(w.by_h[o], w.by_h[in]);
}
static bool sm_map_set(World &w, Src &s, Call &c) // map, key, value
{
	for (int i = 1; i <= 2; i++)
		if (s.chance(1, 2)) {
			Node *n = pick_handle(w, s, H_OBJECT);
			if (!n || nests(w, n->h, c.s[0].p)) // no cycles
				continue;
			c.s[i].d = ccs_object(n->h);
			if (s.chance(1, 4))
				c.s[i].d.flags |= CCS_DATUM_FLAG_ID;
		} else if (s.coin())
			c.s[i].d.flags |= CCS_DATUM_FLAG_TRANSIENT;
	return true;
}
static bool sm_map_key(World &, Src &s, Call &c) // map, key, ...
{
	size_t n = 0;
	OK(ccs_map_get_keys((ccs_map_t)c.s[0].p, 0, nullptr, &n));
	if (n && s.chance(3, 4)) {
		std::vector<ccs_datum_t> k(n);
		OK(ccs_map_get_keys((ccs_map_t)c.s[0].p, n, k.data(), nullptr));
		ccs_datum_t d = k[s.draw(n)];
		if (d.type == CCS_DATA_TYPE_STRING)
			d = D::of(d).stable();
		c.s[1].d = d;
	}
	return true;
}
static bool sm_tree(World &, Src &s, Call &c)
{
	c.s[0].z = s.chance(1, 20) ? (uint64_t)s.draw(40) : s.draw(4);
	c.s[1].d = gen_scalar(s).stable();
	return true;
}
static bool sm_child(World &w, Src &s, Call &c) // tree, index, child
{
	if (s.chance(1, 4))
		return true;
	for (auto n : w.live) { // an empty slot and a root
		if (n->t != CCS_OBJECT_TYPE_TREE)
			continue;
		auto   t = (ccs_tree_t)n->h;
		size_t a = 0;
		OK(ccs_tree_get_arity(t, &a));
		for (size_t i = 0; i < a; i++) {
			ccs_tree_t k = nullptr;
			OK(ccs_tree_get_child(t, i, &k));
			if (!k && s.coin()) {
				c.s[0].p = t;
				c.s[1].z = i;
			}
		}
		ccs_tree_t p = nullptr;
		OK(ccs_tree_get_parent(t, &p, nullptr));
		if (!p && s.coin())
			c.s[2].p = t;
	}
	return true;
}
static bool sm_tree_pos_vals(World &, Src &s, Call &c) // tree, n, position, n, values
{
	size_t m = s.chance(1, 5) ? c.s[3].z : c.s[1].z + 1;
	c.s[3].z = m;
	c.set_cap(4, m);
	c.s[4].null = m == 0;
	return true;
}
// some generators of GSL get stuck with some seeds
static bool sm_seed(World &, Src &s, Call &c)
{
	c.s[1].z = s.draw(1000);
	return true;
}
static bool sm_rng_type(World &, Src &s, Call &c)
{
	const gsl_rng_type **tt = gsl_rng_types_setup();
	const char          *want = rng_names[s.draw(sizeof rng_names / sizeof *rng_names)];
	for (size_t i = 0; tt[i]; i++)
		if (!strcmp(tt[i]->name, want))
			c.s[0].p = (void *)tt[i];
	return c.s[0].p != nullptr;
}
// a space all of whose distributions can be sampled
static bool sm_csample(World &, Src &, Call &c) { return !wild(c.s[0].p); }
static bool sm_convert(World &, Src &s, Call &c) // parameter, oversampling, n, numerics, out datums
{
	ccs_parameter_type_t t;
	OK(ccs_parameter_get_type((ccs_parameter_t)c.s[0].p, &t));
	c.s[1].z = 1;
	std::vector<ccs_numeric_t> v;
	ccs_interval_t iv;
	if (t == CCS_PARAMETER_TYPE_STRING)
		return true;
	OK(ccs_parameter_sampling_interval((ccs_parameter_t)c.s[0].p, &iv));
	for (size_t i = 0; i < c.s[2].z; i++)
		v.push_back(s.coin() ? iv.lower : iv.type == CCS_NUMERIC_TYPE_INT ? NI(s.small_int()) : NF(s.small_f()));
	c.set_data(3, v);
	return true;
}
static bool sm_tell(World &, Src &, Call &) { return true; }

static bool sm_dparams(World &w, Src &s, Call &c) // distribution, rng, parameters, values
{
	size_t                       n = dim_of(c.s[0].p);
	std::vector<ccs_parameter_t> v;
	for (size_t i = 0; i < n; i++) {
		Node *p = w.pick(s, CCS_OBJECT_TYPE_PARAMETER);
		if (!p)
			return false;
		v.push_back((ccs_parameter_t)p->h);
	}
	c.set_data(2, v);
	c.set_cap(c.s.size() - 1, n * (c.s.size() == 5 ? c.s[3].z : 1));
	return !wild(c.s[0].p);
}
static bool sm_objectives(World &, Src &s, Call &c) // space, n, expressions, types
{
	std::vector<ccs_objective_type_t> t;
	for (size_t i = 0; i < c.s[1].z; i++)
		t.push_back(s.coin() ? CCS_OBJECTIVE_TYPE_MINIMIZE : CCS_OBJECTIVE_TYPE_MAXIMIZE);
	c.set_data(3, t);
	return true;
}
// fixed argument forms of the serialization functions
static ccs_result_t
object_size(ccs_object_t o, size_t *n)
{
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, n, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t
object_bytes(ccs_object_t o, size_t n, char *p)
{
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t
object_from_bytes(size_t n, char *p, ccs_object_t *o)
{
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p, CCS_DESERIALIZE_OPTION_END);
}
static ccs_result_t
object_from_bytes_map(size_t n, char *p, ccs_map_t m, ccs_object_t *o)
{
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, p, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_END);
}
static bool sm_bytes(World &, Src &s, Call &c)
{
	size_t n = 0;
	if (object_size(c.s[0].p, &n) < 0) {
		ccs_clear_thread_error();
		return false;
	}
	if (s.chance(1, 3))
		n = s.draw(n + 2);
	c.s[1].z = n;
	c.set_cap(2, n);
	c.s[2].null = n == 0;
	return true;
}
static bool sm_from_bytes(World &w, Src &s, Call &c)
{
	Node  *x = pick_handle(w, s, H_OBJECT);
	size_t n = 0;
	if (!x || object_size(x->h, &n) < 0) {
		ccs_clear_thread_error();
		return false;
	}
	std::vector<char> b(n);
	OK(object_bytes(x->h, n, b.data()));
	if (s.chance(1, 5))
		b.resize(s.draw(n));
	c.s[0].z = b.size();
	c.set_data(1, b);
	return true;
}

static inline const std::vector<Fn> &
table()
{
#define F(f, ...) make_fn(#f, f, __VA_ARGS__)
	static const std::vector<Fn> t = {
		// o: handle, O: handle or NULL, n: name, v: value, i: index, e: enumeration, f: float, u: numeric
		// z: size of the arrays that follow; h d q w x j: input arrays of handles, values, sizes, floats, numerics, intervals
		// A: output array, R: its length, r: output, y: optional output, c: created object, C: created objects
		F(object_size, "o r"), F(object_bytes, "o z A", sm_bytes), F(object_from_bytes, "z x c", sm_from_bytes), F(object_from_bytes_map, "z x o c", sm_from_bytes),
		F(ccs_get_result_name, "e r"), F(ccs_object_get_type, "o r"), F(ccs_object_get_refcount, "o r"), F(ccs_object_get_user_data, "o r"),
		// random generators
		F(ccs_create_rng, "c"), F(ccs_create_rng_with_type, "n c", sm_rng_type), F(ccs_rng_get_type, "o r"), F(ccs_rng_get_gsl_rng, "o r"),
		F(ccs_rng_min, "o r"), F(ccs_rng_max, "o r"), F(ccs_rng_get, "o r"), F(ccs_rng_uniform, "o r"), F(ccs_rng_set_seed, "o i", sm_seed),
		// distributions
		F(ccs_create_uniform_int_distribution, "e i e2 i c", sm_uniform_int), F(ccs_create_uniform_float_distribution, "f f e2 f c", sm_uniform_float),
		F(ccs_create_normal_int_distribution, "f f e2 i c", sm_normal), F(ccs_create_normal_float_distribution, "f f e2 f c", sm_normal),
		F(ccs_create_roulette_distribution, "z w c"), F(ccs_create_mixture_distribution, "z h w c", sm_mixture), F(ccs_create_multivariate_distribution, "z h c"),
		F(ccs_distribution_get_type, "o r"), F(ccs_distribution_get_dimension, "o r"), F(ccs_distribution_get_data_types, "o r", sm_dim_out),
		F(ccs_distribution_get_bounds, "o r", sm_dim_out), F(ccs_distribution_check_oversampling, "o j r", sm_oversampling),
		F(ccs_normal_distribution_get_properties, "o y y y y"), F(ccs_uniform_distribution_get_properties, "o y y y y"),
		F(ccs_roulette_distribution_get_num_areas, "o r"), F(ccs_roulette_distribution_get_areas, "o z A R"),
		F(ccs_mixture_distribution_get_num_distributions, "o r"), F(ccs_mixture_distribution_get_distributions, "o z A R"), F(ccs_mixture_distribution_get_weights, "o z A R"),
		F(ccs_multivariate_distribution_get_num_distributions, "o r"), F(ccs_multivariate_distribution_get_distributions, "o z A R"),
		F(ccs_distribution_sample, "o o r", sm_dsample), F(ccs_distribution_samples, "o o z A", sm_dsamples),
		F(ccs_distribution_parameters_sample, "o o j r", sm_dparams), F(ccs_distribution_parameters_samples, "o o j z A", sm_dparams),
		// parameters
		F(ccs_create_int_numerical_parameter, "n i i i i c", sm_int_param), F(ccs_create_float_numerical_parameter, "n f f f f c", sm_float_param),
		F(ccs_create_categorical_parameter, "n z d i c", sm_vals_param), F(ccs_create_ordinal_parameter, "n z d i c", sm_vals_param),
		F(ccs_create_discrete_parameter, "n z d i c", sm_vals_param), F(ccs_create_string_parameter, "n c", sm_param),
		F(ccs_numerical_parameter_get_properties, "o y y y y"), F(ccs_categorical_parameter_get_values, "o z A R"), F(ccs_ordinal_parameter_get_values, "o z A R"),
		F(ccs_discrete_parameter_get_values, "o z A R"), F(ccs_ordinal_parameter_compare_values, "o v v r", sm_pcompare),
		F(ccs_parameter_get_type, "o r"), F(ccs_parameter_get_default_value, "o r"), F(ccs_parameter_get_name, "o r"), F(ccs_parameter_get_default_distribution, "o c"),
		F(ccs_parameter_check_value, "o v r", sm_pvalue), F(ccs_parameter_check_values, "o z d A"), F(ccs_parameter_validate_value, "o v r r", sm_pvalue),
		F(ccs_parameter_validate_values, "o z d A A"), F(ccs_parameter_convert_samples, "o e2 z x A", sm_convert),
		F(ccs_parameter_sample, "o o o r", sm_psample), F(ccs_parameter_samples, "o o o z A", sm_psample), F(ccs_parameter_sampling_interval, "o r"),
		// expressions
		F(ccs_create_expression, "e24 z d c", sm_expr), F(ccs_create_unary_expression, "e24 v c", sm_unary), F(ccs_create_binary_expression, "e24 v v c", sm_binary),
		F(ccs_create_literal, "v c"), F(ccs_create_variable, "o c"), F(ccs_expression_get_type, "o r"), F(ccs_expression_get_num_nodes, "o r"),
		F(ccs_expression_get_nodes, "o z A R"), F(ccs_literal_get_value, "o r"), F(ccs_variable_get_parameter, "o r"),
		F(ccs_expression_eval, "o O d r", sm_expr_eval), F(ccs_expression_list_eval_node, "o O d i r", sm_expr_eval),
		F(ccs_expression_get_parameters, "o z A R"), F(ccs_expression_check_context, "o O"),
		// contexts
		F(ccs_context_get_name, "o r"), F(ccs_context_get_num_parameters, "o r"), F(ccs_context_get_parameter, "o i r"), F(ccs_context_get_parameters, "o z A R"),
		F(ccs_context_get_parameter_by_name, "o n r", sm_ctx_name), F(ccs_context_get_parameter_index_by_name, "o n r", sm_ctx_name),
		F(ccs_context_get_parameter_index, "o o r", sm_ctx_param), F(ccs_context_get_parameter_indexes, "o z h A", sm_ctx_params), F(ccs_context_validate_value, "o i v r", sm_ctx_value),
		// configuration spaces
		F(ccs_create_configuration_space, "n c"), F(ccs_configuration_space_get_name, "o r"), F(ccs_configuration_space_set_rng, "o o"), F(ccs_configuration_space_get_rng, "o r"),
		F(ccs_configuration_space_add_parameter, "o o O", sm_addparam), F(ccs_configuration_space_add_parameters, "o z h h", sm_addparams), F(ccs_configuration_space_set_distribution, "o o q", sm_setdist),
		F(ccs_configuration_space_get_num_parameters, "o r"), F(ccs_configuration_space_get_parameter, "o i r"), F(ccs_configuration_space_get_parameters, "o z A R"),
		F(ccs_configuration_space_get_parameter_distribution, "o i r r"), F(ccs_configuration_space_get_parameter_by_name, "o n r", sm_ctx_name),
		F(ccs_configuration_space_get_parameter_index_by_name, "o n r", sm_ctx_name), F(ccs_configuration_space_get_parameter_index, "o o r", sm_ctx_param),
		F(ccs_configuration_space_get_parameter_indexes, "o z h A", sm_ctx_params), F(ccs_configuration_space_validate_value, "o i v r", sm_ctx_value),
		F(ccs_configuration_space_set_condition, "o i o"), F(ccs_configuration_space_get_condition, "o i r"), F(ccs_configuration_space_get_conditions, "o z A R"),
		F(ccs_configuration_space_add_forbidden_clause, "o o"), F(ccs_configuration_space_add_forbidden_clauses, "o z h"),
		F(ccs_configuration_space_get_forbidden_clause, "o i r"), F(ccs_configuration_space_get_forbidden_clauses, "o z A R"),
		F(ccs_configuration_space_check_configuration, "o o r"), F(ccs_configuration_space_check_configuration_values, "o z d r", sm_vals0),
		F(ccs_configuration_space_get_default_configuration, "o c"), F(ccs_configuration_space_sample, "o c", sm_csample), F(ccs_configuration_space_samples, "o z C", sm_csample),
		F(ccs_create_configuration, "o z d c", sm_vals0), F(ccs_configuration_get_configuration_space, "o r"), F(ccs_configuration_get_value, "o i r"),
		F(ccs_configuration_set_value, "o i v", sm_bind_set), F(ccs_configuration_get_values, "o z A R"), F(ccs_configuration_get_value_by_name, "o n r", sm_get_name),
		F(ccs_configuration_check, "o r"), F(ccs_configuration_hash, "o r"), F(ccs_configuration_cmp, "o o r"),
		// bindings
		F(ccs_binding_get_context, "o r"), F(ccs_binding_get_value, "o i r"), F(ccs_binding_set_value, "o i v", sm_bind_set), F(ccs_binding_get_values, "o z A R"),
		F(ccs_binding_set_values, "o z d", sm_bind_values), F(ccs_binding_get_value_by_name, "o n r", sm_get_name), F(ccs_binding_set_value_by_name, "o n v", sm_bind_name),
		F(ccs_binding_get_value_by_parameter, "o o r", sm_bind_param), F(ccs_binding_set_value_by_parameter, "o o v", sm_bind_param), F(ccs_binding_hash, "o r"), F(ccs_binding_cmp, "o o r"),
		// features
		F(ccs_create_features_space, "n c"), F(ccs_features_space_get_name, "o r"), F(ccs_features_space_add_parameter, "o o"), F(ccs_features_space_add_parameters, "o z h"),
		F(ccs_features_space_get_num_parameters, "o r"), F(ccs_features_space_get_parameter, "o i r"), F(ccs_features_space_get_parameter_by_name, "o n r", sm_ctx_name),
		F(ccs_features_space_get_parameter_index_by_name, "o n r", sm_ctx_name), F(ccs_features_space_get_parameter_index, "o o r", sm_ctx_param),
		F(ccs_features_space_get_parameter_indexes, "o z h A", sm_ctx_params), F(ccs_features_space_get_parameters, "o z A R"), F(ccs_features_space_validate_value, "o i v r", sm_ctx_value),
		F(ccs_features_space_check_features, "o o r"), F(ccs_features_space_check_features_values, "o z d r", sm_vals0),
		F(ccs_create_features, "o z d c", sm_vals0), F(ccs_features_get_features_space, "o r"), F(ccs_features_get_value, "o i r"), F(ccs_features_set_value, "o i v", sm_bind_set),
		F(ccs_features_get_values, "o z A R"), F(ccs_features_get_value_by_name, "o n r", sm_get_name), F(ccs_features_check, "o r"), F(ccs_features_hash, "o r"), F(ccs_features_cmp, "o o r"),
		// objectives
		F(ccs_create_objective_space, "n c"), F(ccs_objective_space_get_name, "o r"), F(ccs_objective_space_add_parameter, "o o"), F(ccs_objective_space_add_parameters, "o z h"),
		F(ccs_objective_space_get_num_parameters, "o r"), F(ccs_objective_space_get_parameter, "o i r"), F(ccs_objective_space_get_parameter_by_name, "o n r", sm_ctx_name),
		F(ccs_objective_space_get_parameter_index_by_name, "o n r", sm_ctx_name), F(ccs_objective_space_get_parameter_index, "o o r", sm_ctx_param),
		F(ccs_objective_space_get_parameter_indexes, "o z h A", sm_ctx_params), F(ccs_objective_space_get_parameters, "o z A R"), F(ccs_objective_space_check_evaluation_values, "o z d r", sm_vals0),
		F(ccs_objective_space_validate_value, "o i v r", sm_ctx_value), F(ccs_objective_space_add_objective, "o o e2"), F(ccs_objective_space_add_objectives, "o z h w", sm_objectives), F(ccs_objective_space_get_objective, "o i r r"),
		F(ccs_objective_space_get_objectives, "o z A A R"),
		F(ccs_create_evaluation, "o o i z d c", sm_eval), F(ccs_evaluation_get_objective_space, "o r"), F(ccs_evaluation_get_configuration, "o r"), F(ccs_evaluation_get_result, "o r"),
		F(ccs_evaluation_set_result, "o i"), F(ccs_evaluation_get_value, "o i r"), F(ccs_evaluation_set_value, "o i v", sm_bind_set), F(ccs_evaluation_get_values, "o z A R"),
		F(ccs_evaluation_get_value_by_name, "o n r", sm_get_name), F(ccs_evaluation_check, "o r"), F(ccs_evaluation_get_objective_value, "o i r"), F(ccs_evaluation_get_objective_values, "o z A R"),
		F(ccs_evaluation_hash, "o r"), F(ccs_evaluation_cmp, "o o r"), F(ccs_evaluation_compare, "o o r"),
		F(ccs_create_features_evaluation, "o o o i z d c", sm_feval), F(ccs_features_evaluation_get_objective_space, "o r"), F(ccs_features_evaluation_get_configuration, "o r"),
		F(ccs_features_evaluation_get_features, "o r"), F(ccs_features_evaluation_get_result, "o r"), F(ccs_features_evaluation_set_result, "o i"), F(ccs_features_evaluation_get_value, "o i r"),
		F(ccs_features_evaluation_set_value, "o i v", sm_bind_set), F(ccs_features_evaluation_get_values, "o z A R"), F(ccs_features_evaluation_get_value_by_name, "o n r", sm_get_name),
		F(ccs_features_evaluation_get_objective_value, "o i r"), F(ccs_features_evaluation_get_objective_values, "o z A R"), F(ccs_features_evaluation_hash, "o r"),
		F(ccs_features_evaluation_cmp, "o o r"), F(ccs_features_evaluation_compare, "o o r"), F(ccs_features_evaluation_check, "o r"),
		F(ccs_create_tree_evaluation, "o o i z d c", sm_eval), F(ccs_tree_evaluation_get_objective_space, "o r"), F(ccs_tree_evaluation_get_configuration, "o r"), F(ccs_tree_evaluation_get_result, "o r"),
		F(ccs_tree_evaluation_set_result, "o i"), F(ccs_tree_evaluation_get_value, "o i r"), F(ccs_tree_evaluation_set_value, "o i v", sm_bind_set), F(ccs_tree_evaluation_get_values, "o z A R"),
		F(ccs_tree_evaluation_get_value_by_name, "o n r", sm_get_name), F(ccs_tree_evaluation_check, "o r"), F(ccs_tree_evaluation_get_objective_value, "o i r"),
		F(ccs_tree_evaluation_get_objective_values, "o z A R"), F(ccs_tree_evaluation_hash, "o r"), F(ccs_tree_evaluation_cmp, "o o r"), F(ccs_tree_evaluation_compare, "o o r"),
		// trees
		F(ccs_create_tree, "z v c", sm_tree), F(ccs_tree_get_value, "o r"), F(ccs_tree_get_arity, "o r"), F(ccs_tree_set_child, "o i o", sm_child), F(ccs_tree_get_child, "o i r"),
		F(ccs_tree_get_children, "o z A R"), F(ccs_tree_get_parent, "o r y"), F(ccs_tree_get_position, "o z A R"), F(ccs_tree_get_values, "o z A R"), F(ccs_tree_position_is_valid, "o z q r"),
		F(ccs_tree_get_values_at_position, "o z q z A", sm_tree_pos_vals), F(ccs_tree_get_node_at_position, "o z q r"), F(ccs_tree_get_weight, "o r"), F(ccs_tree_set_weight, "o f"),
		F(ccs_tree_get_bias, "o r"), F(ccs_tree_set_bias, "o f"), F(ccs_tree_sample, "o o r"), F(ccs_tree_samples, "o o z A"),
		F(ccs_create_static_tree_space, "n o c"), F(ccs_tree_space_get_type, "o r"), F(ccs_tree_space_get_name, "o r"), F(ccs_tree_space_set_rng, "o o"), F(ccs_tree_space_get_rng, "o r"),
		F(ccs_tree_space_get_tree, "o r"), F(ccs_tree_space_get_node_at_position, "o z q r"), F(ccs_tree_space_get_values_at_position, "o z q z A", sm_tree_pos_vals),
		F(ccs_tree_space_check_position, "o z q r"), F(ccs_tree_space_check_configuration, "o o r"), F(ccs_tree_space_sample, "o c"), F(ccs_tree_space_samples, "o z C"),
		F(ccs_dynamic_tree_space_get_tree_space_data, "o r"), F(ccs_create_tree_configuration, "o z q c"), F(ccs_tree_configuration_get_tree_space, "o r"),
		F(ccs_tree_configuration_get_position, "o z A R"), F(ccs_tree_configuration_get_values, "o z A R"), F(ccs_tree_configuration_get_node, "o r"), F(ccs_tree_configuration_check, "o r"),
		F(ccs_tree_configuration_hash, "o r"), F(ccs_tree_configuration_cmp, "o o r"),
		// tuners
		F(ccs_create_random_tuner, "n o o c"), F(ccs_tuner_get_type, "o r"), F(ccs_tuner_get_name, "o r"), F(ccs_tuner_get_configuration_space, "o r"), F(ccs_tuner_get_objective_space, "o r"),
		F(ccs_tuner_ask, "o z C R", sm_csample), F(ccs_tuner_tell, "o z h", sm_tell), F(ccs_tuner_suggest, "o c", sm_csample), F(ccs_tuner_get_optima, "o z A R"), F(ccs_tuner_get_history, "o z A R"),
		F(ccs_user_defined_tuner_get_tuner_data, "o r"),
		F(ccs_create_random_features_tuner, "n o o o c"), F(ccs_features_tuner_get_type, "o r"), F(ccs_features_tuner_get_name, "o r"), F(ccs_features_tuner_get_configuration_space, "o r"),
		F(ccs_features_tuner_get_objective_space, "o r"), F(ccs_features_tuner_get_features_space, "o r"), F(ccs_features_tuner_ask, "o o z C R", sm_csample), F(ccs_features_tuner_tell, "o z h", sm_tell),
		F(ccs_features_tuner_suggest, "o o c", sm_csample), F(ccs_features_tuner_get_optima, "o O z A R"), F(ccs_features_tuner_get_history, "o O z A R"), F(ccs_user_defined_features_tuner_get_tuner_data, "o r"),
		F(ccs_create_random_tree_tuner, "n o o c"), F(ccs_tree_tuner_get_type, "o r"), F(ccs_tree_tuner_get_name, "o r"), F(ccs_tree_tuner_get_tree_space, "o r"), F(ccs_tree_tuner_get_objective_space, "o r"),
		F(ccs_tree_tuner_ask, "o z C R"), F(ccs_tree_tuner_tell, "o z h", sm_tell), F(ccs_tree_tuner_suggest, "o c"), F(ccs_tree_tuner_get_optima, "o z A R"), F(ccs_tree_tuner_get_history, "o z A R"),
		F(ccs_user_defined_tree_tuner_get_tuner_data, "o r"),
		// maps
		F(ccs_create_map, "c"), F(ccs_map_set, "o v v", sm_map_set), F(ccs_map_exist, "o v r", sm_map_key), F(ccs_map_get, "o v r", sm_map_key), F(ccs_map_del, "o v", sm_map_key),
		F(ccs_map_get_keys, "o z A R"), F(ccs_map_get_values, "o z A R"), F(ccs_map_get_pairs, "o z A A R"), F(ccs_map_clear, "o"),
		// intervals
		F(ccs_interval_empty, "j r"), F(ccs_interval_intersect, "j j r"), F(ccs_interval_union, "j j r"), F(ccs_interval_equal, "j j r"),
	};
#undef F
	return t;
}
// a function, often one for an object picked first; mut: one that creates or changes objects
static inline const Fn &
pick_fn(World &w, Src &s, bool mut)
{
	static std::map<int, std::vector<const Fn *>> by[2];
	if (by[0].empty())
		for (auto &f : table()) {
			bool c = false, o = false;
			for (char t : f.tok) {
				c |= t == 'c' || t == 'C';
				o |= strchr("rARy", t) != nullptr;
			}
			int m = c || !o;
			by[m][1000].push_back(&f);
			for (size_t i = 0; i < f.tok.size() && i < 2; i++)
				if (f.tok[i] == 'o')
					by[m][f.args[i].handle].push_back(&f);
		}
	if (!w.live.empty() && s.chance(2, 3)) {
		auto it = by[mut].find((int)s.pick(w.live)->t);
		if (it != by[mut].end())
			return *s.pick(it->second);
	}
	return *s.pick(by[mut][1000]);
}
} // namespace world
