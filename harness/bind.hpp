// One face for the five kinds of bindings: configurations, features,
// evaluations, features evaluations and tree evaluations.
#pragma once
#include "gen.hpp"

enum BK { B_CONF, B_FEAT, B_EVAL, B_FEVAL, B_TEVAL, B_KINDS };
static const char *const bk_names[] = {"configuration", "features", "evaluation", "features evaluation", "tree evaluation"};

struct Objective {
	E                    e;
	ccs_expression_t     h = nullptr;
	ccs_objective_type_t t = CCS_OBJECTIVE_TYPE_MINIMIZE;
};
// a context of any kind, with everything needed to create its bindings
struct BCtx {
	BK                     kind = B_CONF;
	ccs_context_t          h    = nullptr;
	std::vector<Param>     ps;
	std::vector<Objective> objs;
	std::vector<ccs_configuration_t>      confs; // evaluated configurations
	std::vector<ccs_features_t>           feats;
	std::vector<ccs_tree_configuration_t> trees;
	bool is_eval() const { return kind >= B_EVAL; }
};
#define B_CALL(fn, b, ...)                                                     \
	(k == B_CONF  ? ccs_configuration_##fn((ccs_configuration_t)b, ##__VA_ARGS__) :         \
	 k == B_FEAT  ? ccs_features_##fn((ccs_features_t)b, ##__VA_ARGS__) :                   \
	 k == B_EVAL  ? ccs_evaluation_##fn((ccs_evaluation_t)b, ##__VA_ARGS__) :               \
	 k == B_FEVAL ? ccs_features_evaluation_##fn((ccs_features_evaluation_t)b, ##__VA_ARGS__) : \
			ccs_tree_evaluation_##fn((ccs_tree_evaluation_t)b, ##__VA_ARGS__))
#define BE_CALL(fn, b, ...)                                                    \
	(k == B_EVAL  ? ccs_evaluation_##fn((ccs_evaluation_t)b, ##__VA_ARGS__) :               \
	 k == B_FEVAL ? ccs_features_evaluation_##fn((ccs_features_evaluation_t)b, ##__VA_ARGS__) : \
			ccs_tree_evaluation_##fn((ccs_tree_evaluation_t)b, ##__VA_ARGS__))
static inline ccs_result_t b_get(BK k, ccs_binding_t b, size_t i, ccs_datum_t *v) { return B_CALL(get_value, b, i, v); }
static inline ccs_result_t b_set(BK k, ccs_binding_t b, size_t i, ccs_datum_t v) { return B_CALL(set_value, b, i, v); }
static inline ccs_result_t b_gets(BK k, ccs_binding_t b, size_t n, ccs_datum_t *v, size_t *r) { return B_CALL(get_values, b, n, v, r); }
static inline ccs_result_t b_getn(BK k, ccs_binding_t b, const char *n, ccs_datum_t *v) { return B_CALL(get_value_by_name, b, n, v); }
static inline ccs_result_t b_check(BK k, ccs_binding_t b, ccs_bool_t *r) { return B_CALL(check, b, r); }
static inline ccs_result_t b_hash(BK k, ccs_binding_t b, ccs_hash_t *r) { return B_CALL(hash, b, r); }
static inline ccs_result_t
b_cmp(BK k, ccs_binding_t a, ccs_binding_t b, int *r)
{
	switch (k) {
	case B_CONF: return ccs_configuration_cmp((ccs_configuration_t)a, (ccs_configuration_t)b, r);
	case B_FEAT: return ccs_features_cmp((ccs_features_t)a, (ccs_features_t)b, r);
	case B_EVAL: return ccs_evaluation_cmp((ccs_evaluation_t)a, (ccs_evaluation_t)b, r);
	case B_FEVAL: return ccs_features_evaluation_cmp((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, r);
	default: return ccs_tree_evaluation_cmp((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, r);
	}
}
static inline ccs_result_t
b_compare(BK k, ccs_binding_t a, ccs_binding_t b, ccs_comparison_t *r)
{
	switch (k) {
	case B_EVAL: return ccs_evaluation_compare((ccs_evaluation_t)a, (ccs_evaluation_t)b, r);
	case B_FEVAL: return ccs_features_evaluation_compare((ccs_features_evaluation_t)a, (ccs_features_evaluation_t)b, r);
	default: return ccs_tree_evaluation_compare((ccs_tree_evaluation_t)a, (ccs_tree_evaluation_t)b, r);
	}
}
static inline ccs_result_t b_objective(BK k, ccs_binding_t b, size_t i, ccs_datum_t *v) { return BE_CALL(get_objective_value, b, i, v); }
static inline ccs_result_t b_objectives(BK k, ccs_binding_t b, size_t n, ccs_datum_t *v, size_t *r) { return BE_CALL(get_objective_values, b, n, v, r); }
static inline ccs_result_t b_result(BK k, ccs_binding_t b, ccs_evaluation_result_t *r) { return BE_CALL(get_result, b, r); }
static inline ccs_result_t b_set_result(BK k, ccs_binding_t b, ccs_evaluation_result_t r) { return BE_CALL(set_result, b, r); }
struct Deps {
	size_t                  conf = 0, feat = 0;
	ccs_evaluation_result_t result = CCS_RESULT_SUCCESS;
};
static inline ccs_result_t
b_create(const BCtx &c, const Deps &d, size_t n, ccs_datum_t *v, ccs_binding_t *out)
{
	switch (c.kind) {
	case B_CONF:
		return ccs_create_configuration((ccs_configuration_space_t)c.h, n, v, (ccs_configuration_t *)out);
	case B_FEAT:
		return ccs_create_features((ccs_features_space_t)c.h, n, v, (ccs_features_t *)out);
	case B_EVAL:
		return ccs_create_evaluation((ccs_objective_space_t)c.h, c.confs[d.conf], d.result, n, v,
					     (ccs_evaluation_t *)out);
	case B_FEVAL:
		return ccs_create_features_evaluation((ccs_objective_space_t)c.h, c.confs[d.conf], c.feats[d.feat],
						      d.result, n, v, (ccs_features_evaluation_t *)out);
	default:
		return ccs_create_tree_evaluation((ccs_objective_space_t)c.h, c.trees[d.conf], d.result, n, v,
						  (ccs_tree_evaluation_t *)out);
	}
}
// adds a parameter to a context that has no other rules
static inline ccs_result_t
ctx_add(const BCtx &c, ccs_parameter_t p)
{
	switch (c.kind) {
	case B_CONF:
		return ccs_configuration_space_add_parameter((ccs_configuration_space_t)c.h, p, nullptr);
	case B_FEAT:
		return ccs_features_space_add_parameter((ccs_features_space_t)c.h, p);
	default:
		return ccs_objective_space_add_parameter((ccs_objective_space_t)c.h, p);
	}
}
static inline ccs_result_t
ctx_add_all(const BCtx &c, std::vector<ccs_parameter_t> &ps)
{
	switch (c.kind) {
	case B_CONF:
		return ccs_configuration_space_add_parameters((ccs_configuration_space_t)c.h, ps.size(), ps.data(), nullptr);
	case B_FEAT:
		return ccs_features_space_add_parameters((ccs_features_space_t)c.h, ps.size(), ps.data());
	default:
		return ccs_objective_space_add_parameters((ccs_objective_space_t)c.h, ps.size(), ps.data());
	}
}
// an empty context of the given kind, and what its bindings depend on
static inline BCtx
make_ctx(Src &s, Pool &pool, BK kind, const std::string &name = "ctx")
{
	BCtx c;
	c.kind = kind;
	TmpStr nm(name);
	if (kind == B_CONF)
		OK(ccs_create_configuration_space(nm, (ccs_configuration_space_t *)&c.h));
	else if (kind == B_FEAT)
		OK(ccs_create_features_space(nm, (ccs_features_space_t *)&c.h));
	else
		OK(ccs_create_objective_space(nm, (ccs_objective_space_t *)&c.h));
	pool.add(c.h);
	if (kind == B_EVAL || kind == B_FEVAL) {
		ccs_configuration_space_t cs = nullptr;
		ccs_parameter_t           p  = nullptr;
		OK(ccs_create_configuration_space("evaluated", &cs));
		pool.add(cs);
		OK(ccs_create_numerical_parameter("x", CCS_NUMERIC_TYPE_INT, NI(0), NI(3), NI(0), NI(0), &p));
		pool.add(p);
		OK(ccs_configuration_space_add_parameter(cs, p, nullptr));
		for (int64_t i = 0; i < 4; i++) { // the last one has the content of the first
			ccs_configuration_t cf = nullptr;
			ccs_datum_t         v  = ccs_int(i % 3);
			OK(ccs_create_configuration(cs, 1, &v, &cf));
			c.confs.push_back(pool.add(cf));
		}
	}
	if (kind == B_FEVAL) {
		ccs_features_space_t fs = nullptr;
		ccs_parameter_t      p  = nullptr;
		OK(ccs_create_features_space("features", &fs));
		pool.add(fs);
		OK(ccs_create_string_parameter("f", &p));
		pool.add(p);
		OK(ccs_features_space_add_parameter(fs, p));
		for (int i = 0; i < 3; i++) {
			ccs_features_t f = nullptr;
			TmpStr         t(i % 2 ? "one" : "two");
			ccs_datum_t    v = ccs_string(t);
			v.flags          = CCS_DATUM_FLAG_TRANSIENT;
			OK(ccs_create_features(fs, 1, &v, &f));
			c.feats.push_back(pool.add(f));
		}
	}
	if (kind == B_TEVAL) {
		ccs_tree_t       root = nullptr, ch = nullptr;
		ccs_tree_space_t ts = nullptr;
		OK(ccs_create_tree(2, ccs_int(1), &root));
		pool.add(root);
		OK(ccs_create_tree(1, ccs_int(2), &ch));
		pool.add(ch);
		OK(ccs_tree_set_child(root, 0, ch));
		OK(ccs_create_static_tree_space("trees", root, &ts));
		pool.add(ts);
		size_t pos[4][2] = {{0, 0}, {0, 0}, {1, 0}, {0, 0}};
		size_t len[4]    = {0, 1, 1, 0};
		for (int i = 0; i < 4; i++) {
			ccs_tree_configuration_t tc = nullptr;
			OK(ccs_create_tree_configuration(ts, len[i], pos[i], &tc));
			c.trees.push_back(pool.add(tc));
		}
	}
	(void)s;
	return c;
}
static inline void
ctx_add_params(Src &s, Pool &pool, BCtx &c, size_t n, ParamOpts po)
{
	if (c.kind == B_CONF)
		po.str = false;
	std::vector<ccs_parameter_t> hs;
	size_t left = 0; // parameters to go in the current batch
	for (size_t i = 0; i < n; i++) {
		if (!left && s.chance(1, 3))
			left = 1 + s.draw(n - i);
		Param p = gen_param(s, pool, sfmt("p%zu", c.ps.size()), po);
		if (left)
			hs.push_back(p.h);
		else
			OK(ctx_add(c, p.h));
		c.ps.push_back(p);
		if (left && !--left) {
			OK(ctx_add_all(c, hs));
			s.label("parameters added together");
			hs.clear();
		}
	}
}
