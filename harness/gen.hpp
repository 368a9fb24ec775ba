// Shared generators and reference models.  Nothing here calls the library to
// decide what the right answer is: models are written from the documented
// semantics, and the library is only used to build the objects under test.
#pragma once
#include "pbt.hpp"
#include <cconfigspace.h>
#include <climits>
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <vector>

using pbt::fail;
using pbt::Src;
using pbt::sfmt;

// ---- call checking ----
std::string err_text(ccs_result_t r); // takes and clears the thread error
const char *rname(ccs_result_t r);
[[noreturn]] void call_failed(const char *what, ccs_result_t r, const char *file, int line);
void              expect_err(const char *what, ccs_result_t r, ccs_result_t want, const char *file, int line);

#define OK(e)                                                                  \
	do {                                                                   \
		ccs_result_t r_ = (e);                                         \
		if (r_ != CCS_RESULT_SUCCESS)                                  \
			call_failed(#e, r_, __FILE__, __LINE__);               \
	} while (0)
// the call must fail with exactly this code
#define ERR(e, code) expect_err(#e, (e), (code), __FILE__, __LINE__)
// the call must fail, any error code
#define ANYERR(e)                                                              \
	do {                                                                   \
		ccs_result_t r_ = (e);                                         \
		if (r_ >= CCS_RESULT_SUCCESS)                                  \
			fail("%s:%d %s succeeded, an error was expected",      \
			     __FILE__, __LINE__, #e);                          \
		ccs_clear_thread_error();                                      \
	} while (0)
#define CHECK(c, ...)                                                          \
	do {                                                                   \
		if (!(c))                                                      \
			fail("%s:%d [%s] %s", __FILE__, __LINE__, #c,          \
			     sfmt(__VA_ARGS__).c_str());                       \
	} while (0)

// ---- objects to release at the end of a case ----
struct Pool {
	std::vector<ccs_object_t> objs;
	template <class T>
	T
	add(T o)
	{
		if (o)
			objs.push_back((ccs_object_t)o);
		return o;
	}
	void release_all();
	~Pool() { release_all(); }
};

// ---- values ----
struct D {
	ccs_data_type_t t = CCS_DATA_TYPE_NONE;
	int64_t         i = 0;
	double          f = 0;
	std::string     s;
	bool            nul = false; // NULL string
	void           *o = nullptr;
	static D none() { return D(); }
	static D inactive() { D d; d.t = CCS_DATA_TYPE_INACTIVE; return d; }
	static D I(int64_t v) { D d; d.t = CCS_DATA_TYPE_INT; d.i = v; return d; }
	static D F(double v) { D d; d.t = CCS_DATA_TYPE_FLOAT; d.f = v; return d; }
	static D B(bool v) { D d; d.t = CCS_DATA_TYPE_BOOL; d.i = v; return d; }
	static D S(const std::string &v) { D d; d.t = CCS_DATA_TYPE_STRING; d.s = v; return d; }
	static D O(void *v) { D d; d.t = CCS_DATA_TYPE_OBJECT; d.o = v; return d; }
	static D of(const ccs_datum_t &d);
	// datum referencing this value's own storage
	ccs_datum_t ref() const;
	// datum referencing storage that lives for the whole process
	ccs_datum_t stable() const;
	bool operator==(const D &b) const; // same type and same bits / text
	bool operator!=(const D &b) const { return !(*this == b); }
	bool operator<(const D &b) const;  // arbitrary total order
	bool is_num() const { return t == CCS_DATA_TYPE_INT || t == CCS_DATA_TYPE_FLOAT; }
	double num() const { return t == CCS_DATA_TYPE_INT ? (double)i : f; }
	std::string str() const;
};
const char *intern(const std::string &s);
std::string strv(const std::vector<D> &v);
D gen_scalar(Src &s); // none/int/float/bool/string

// string handed to the library in storage that is scribbled over and freed
// right after the call
struct TmpDatum {
	std::unique_ptr<char[]> buf;
	size_t                  n = 0;
	ccs_datum_t             d;
	TmpDatum(const D &v, ccs_datum_flags_t flags);
	TmpDatum(TmpDatum &&) = default;
	~TmpDatum();
};
struct TmpStr {
	std::unique_ptr<char[]> buf;
	size_t                  n;
	TmpStr(const std::string &s);
	~TmpStr();
	operator const char *() const { return buf.get(); }
};

// ---- numeric helpers ----
inline ccs_numeric_t NI(int64_t v) { ccs_numeric_t n; n.i = v; return n; }
inline ccs_numeric_t NF(double v) { ccs_numeric_t n; n.f = v; return n; }
inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

// ---- parameters ----
struct Param {
	enum Kind { INT, FLOAT, CAT, ORD, DISC, STR } kind = INT;
	std::string    name;
	int64_t        li = 0, ui = 0, qi = 0, di = 0;
	double         lf = 0, uf = 0, qf = 0, df = 0;
	std::vector<D> vals;
	size_t         def = 0;
	ccs_parameter_t h  = nullptr;
	bool contains(const D &v) const;
	int  order(const D &v) const; // ordinal position or -1
	D    defval() const;
	D    gen_in(Src &s) const;  // a value of the domain
	D    gen_near(Src &s) const; // any value, often on the edge of the domain
	std::string str() const;
};
struct ParamOpts {
	bool num = true, cat = true, ord = true, disc = true, str = false;
	bool wide = false;    // wide numeric ranges
	size_t max_vals = 5;
	bool none_vals = false; // allow NONE among categorical values
};
Param gen_param_model(Src &s, const std::string &name, const ParamOpts &o);
// creates the library object; it is added to the pool
void build_param(Param &p, Pool &pool);
Param gen_param(Src &s, Pool &pool, const std::string &name, const ParamOpts &o = ParamOpts());
std::vector<D> gen_values(Src &s, size_t n, bool numeric_only, bool none_ok);

// ---- expressions ----
struct E {
	ccs_expression_type_t op = CCS_EXPRESSION_TYPE_LITERAL;
	D                     lit;
	int                   var = -1;
	std::vector<E>        kids;
	static E L(const D &d) { E e; e.lit = d; return e; }
	static E V(int i) { E e; e.op = CCS_EXPRESSION_TYPE_VARIABLE; e.var = i; return e; }
	static E N(ccs_expression_type_t t, std::vector<E> k) { E e; e.op = t; e.kids = std::move(k); return e; }
	std::string str(const std::vector<Param> &ps) const;
	void vars(std::set<int> &out) const;
	size_t count() const;
};
struct Ev {
	bool err = false;
	D    v;
	static Ev error() { Ev e; e.err = true; return e; }
	static Ev of(const D &d) { Ev e; e.v = d; return e; }
};
// reference evaluation; values[i] is the value of params[i]
Ev ref_eval(const E &e, const std::vector<Param> &ps, const std::vector<D> &values);
bool ref_true(const E &e, const std::vector<Param> &ps, const std::vector<D> &values, bool *err);
// builds the library object (added to the pool); mixed=true passes literals and
// parameters directly as nodes now and then
ccs_expression_t build_expr(const E &e, const std::vector<Param> &ps, Pool &pool, Src *s = nullptr);
// allowed: indices of parameters that may be used as variables
E gen_bool_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth);
E gen_num_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth);
E gen_any_expr(Src &s, const std::vector<Param> &ps, const std::vector<int> &allowed, int depth);
// a true comparison between a variable and a literal of its domain
E gen_var_cmp(Src &s, const std::vector<Param> &ps, int var);

// ---- distributions ----
struct Dist {
	enum Kind { UNIFORM, NORMAL, ROULETTE, MIXTURE, MULTI } kind = UNIFORM;
	ccs_numeric_type_t t = CCS_NUMERIC_TYPE_INT;
	ccs_scale_type_t   scale = CCS_SCALE_TYPE_LINEAR;
	int64_t li = 0, ui = 0, qi = 0;
	double  lf = 0, uf = 0, qf = 0;
	double  mu = 0, sigma = 1;
	std::vector<double> areas; // roulette areas or mixture weights
	std::vector<Dist>   subs;
	int                 same = -1; // the component of its owner it is the very object of
	ccs_distribution_t  h = nullptr;
	size_t dim() const;
	ccs_numeric_type_t type_of(size_t k) const;
	// can component k of a sample take this value
	bool in_support(size_t k, ccs_numeric_t v, std::string *why) const;
	// can the components of one sample take these values together
	bool row_in_support(const ccs_numeric_t *v) const;
	std::string str() const;
};
// ---- configuration spaces ----
struct CSpace {
	ccs_configuration_space_t     h = nullptr;
	ccs_rng_t                     rng = nullptr;
	std::vector<Param>            ps;
	std::vector<std::optional<E>> cond;
	std::vector<ccs_expression_t> cond_h;
	std::vector<E>                forb;
	std::vector<ccs_expression_t> forb_h;
	std::vector<std::optional<Dist>> dist; // given distributions, if any
	std::vector<size_t>              joint; // parameters whose distributions were given together
	enum Verdict { VALID, INVALID, ERROR };
	// is this value vector acceptable (independent re-derivation)
	Verdict check(const std::vector<D> &v, std::string *why = nullptr) const;
	// order in which every condition only reads earlier parameters; empty if none
	bool topo(std::vector<int> &order) const;
	// would the graph have a cycle if parameter i got condition e
	bool would_cycle(int i, const E &e) const;
	// the default configuration
	std::vector<D> defaults(bool *err) const;
	// takes a full value vector and inactivates what must be
	std::vector<D> settle(std::vector<D> v, bool *err) const;
	bool forbidden(const std::vector<D> &v, bool *err) const;
	bool eval_err_possible = false;
	std::string str() const;
};
struct CSOpts {
	size_t    min_p = 1, max_p = 5;
	ParamOpts po;
	int       cond_pct = 40; // chance for a parameter to get a condition
	size_t    max_forb = 2;
	bool      dists    = false; // also assign distributions
	bool      safe     = true;  // conditions and clauses do not fail to evaluate
	int       expr_depth = 2;
};
CSpace gen_cspace(Src &s, Pool &pool, const CSOpts &o = CSOpts());
std::vector<D> binding_values(ccs_binding_t c, size_t n);
template <class T>
std::vector<D>
config_values(T c, size_t n)
{
	return binding_values((ccs_binding_t)c, n);
}
std::vector<ccs_datum_t> refs(const std::vector<D> &v);
std::vector<ccs_datum_t> stables(const std::vector<D> &v);

// ---- distribution generators ----
struct DistOpts {
	bool wide = true;
	bool normal = true;
	bool comps = true; // roulette, mixtures, multivariates
};
Dist gen_uniform(Src &s, bool is_int, bool wide);
Dist gen_normal(Src &s, bool is_int, bool wide = false);
Dist gen_dist1(Src &s, int depth, const DistOpts &o, int want_type = -1); // one-dimensional
Dist gen_dist(Src &s, int depth, const DistOpts &o);
void build_dist(Dist &d, Pool &pool);

// a fresh seeded generator, in the pool
ccs_rng_t make_rng(Pool &pool, uint64_t seed);
