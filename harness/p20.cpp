// P20: comparison is a total order consistent with equality and hashing, for
// all kinds of bindings and for tree configurations.
#include "bind.hpp"

enum { K_TREE = B_KINDS, K_MIXED, K_ALL };
struct Item {
	int            kind;
	ccs_object_t   h = nullptr;
	std::string    content; // canonical text of everything that makes the object what it is
	std::vector<D> v;
	std::vector<size_t> pos;
};
static std::string
canon(const D &d)
{
	char b[64];
	switch (d.t) {
	case CCS_DATA_TYPE_FLOAT: {
		uint64_t u;
		memcpy(&u, &d.f, 8);
		snprintf(b, sizeof b, "F%016llx", (unsigned long long)u);
		return b;
	}
	case CCS_DATA_TYPE_STRING:
		return d.nul ? "S-null" : "S[" + std::to_string(d.s.size()) + "]" + d.s;
	case CCS_DATA_TYPE_NONE:
		return "N";
	case CCS_DATA_TYPE_INACTIVE:
		return "X";
	default:
		snprintf(b, sizeof b, "%d:%lld", (int)d.t, (long long)d.i);
		return b;
	}
}
static D
near_value(Src &s)
{
	switch (s.draw(16)) {
	case 0: return D::I(0);
	case 1: return D::I(1);
	case 2: return D::F(0.0);
	case 3: return D::F(-0.0);
	case 4: return D::F(1.0);
	case 5: return D::B(false);
	case 6: return D::B(true);
	case 7: return D::none();
	case 8: return D::inactive();
	case 9: return D::S("");
	case 10: return D::S("a");
	case 11: return D::S("ab");
	case 12: return D::S("b");
	case 13: { D d = D::S(""); d.nul = true; return d; }
	case 14: return D::I(s.coin() ? -1 : INT64_C(1) << 40);
	default: return gen_scalar(s);
	}
}
static int
sgn(int x)
{
	return (x > 0) - (x < 0);
}
static ccs_result_t
cmp_typed(int kind, ccs_object_t a, ccs_object_t b, int *r)
{
	if (kind == K_TREE)
		return ccs_tree_configuration_cmp((ccs_tree_configuration_t)a, (ccs_tree_configuration_t)b, r);
	return b_cmp((BK)kind, (ccs_binding_t)a, (ccs_binding_t)b, r);
}
static ccs_result_t
cmp(int kind, const Item &a, const Item &b, int *r)
{
	if (kind == K_MIXED)
		return ccs_binding_cmp((ccs_binding_t)a.h, (ccs_binding_t)b.h, r);
	return cmp_typed(kind, a.h, b.h, r);
}
static ccs_hash_t
hash(const Item &a)
{
	ccs_hash_t h = 0;
	if (a.kind == K_TREE)
		OK(ccs_tree_configuration_hash((ccs_tree_configuration_t)a.h, &h));
	else {
		ccs_hash_t g = 1;
		OK(b_hash((BK)a.kind, (ccs_binding_t)a.h, &h));
		OK(ccs_binding_hash((ccs_binding_t)a.h, &g));
		CHECK(g == h, "the generic hash differs");
	}
	return h;
}
static void
unchanged(const Item &a)
{
	if (a.kind == K_TREE) {
		std::vector<size_t> p(a.pos.size() + 1, 77);
		size_t              n = 77;
		OK(ccs_tree_configuration_get_position((ccs_tree_configuration_t)a.h, p.size(), p.data(), &n));
		p.resize(a.pos.size());
		CHECK(n == a.pos.size() && p == a.pos, "position changed");
		return;
	}
	std::vector<D> v = config_values((ccs_binding_t)a.h, a.v.size());
	CHECK(v == a.v, "values changed from %s to %s", strv(a.v).c_str(), strv(v).c_str());
}
static void
body(Src &s)
{
	Pool pool;
	int  kind = (int)s.draw(K_ALL);
	std::vector<Item> items;
	size_t            m = s.size(2, 6);
	uint64_t          shape = (uint64_t)kind;
	if (kind == K_TREE) {
		ccs_tree_space_t ts[2];
		for (auto &t : ts) {
			ccs_tree_t root = nullptr;
			OK(ccs_create_tree(2, ccs_int(1), &root));
			pool.add(root);
			OK(ccs_create_static_tree_space("t", root, &t));
			pool.add(t);
		}
		for (size_t i = 0; i < m; i++) {
			Item   it;
			size_t sp = s.chance(1, 5), n = s.draw(4);
			it.kind = kind;
			it.content = sp ? "b" : "a";
			for (size_t j = 0; j < n; j++) {
				it.pos.push_back(s.chance(1, 6) ? (size_t)s.i64() : s.draw(3));
				it.content += "," + std::to_string(it.pos.back());
			}
			ccs_tree_configuration_t tc = nullptr;
			std::vector<size_t>      tmp = it.pos;
			OK(ccs_create_tree_configuration(ts[sp], n, n ? tmp.data() : nullptr, &tc));
			it.h = (ccs_object_t)pool.add(tc);
			items.push_back(it);
			s.log("%zu: %s\n", i, it.content.c_str());
		}
	} else {
		// several contexts of the needed kinds; evaluations of different kinds can share an objective space
		size_t n = s.size(0, 3);
		std::vector<BCtx> ctxs;
		for (int t = 0; t < 2; t++) {
			if (kind != K_MIXED) {
				BCtx c = make_ctx(s, pool, (BK)kind, "same name");
				for (size_t i = 0; i < n; i++) {
					Param p;
					p.kind = kind == B_CONF ? Param::INT : Param::STR;
					p.ui   = 5;
					p.name = sfmt("p%zu", i);
					build_param(p, pool);
					OK(ctx_add(c, p.h));
				}
				ctxs.push_back(c);
			} else {
				ccs_context_t shared = nullptr;
				for (int k = B_CONF; k < B_KINDS; k++) {
					BCtx c = make_ctx(s, pool, (BK)k);
					if (k >= B_EVAL && shared)
						c.h = shared;
					else
						for (size_t i = 0; i < n; i++) {
							Param p;
							p.kind = k == B_CONF ? Param::INT : Param::STR;
							p.ui   = 5;
							p.name = sfmt("p%zu", i);
							build_param(p, pool);
							OK(ctx_add(c, p.h));
						}
					if (k == B_EVAL)
						shared = c.h;
					ctxs.push_back(c);
				}
				break;
			}
		}
		for (size_t i = 0; i < m; i++) {
			Item it;
			Deps d;
			size_t from = items.empty() ? 0 : s.draw(items.size());
			size_t ci   = s.chance(1, 4) ? s.draw(ctxs.size()) : 0;
			if (kind == K_MIXED)
				ci = s.draw(ctxs.size());
			if (kind != K_MIXED && i && n < 4 && s.chance(1, 8)) { // the contexts grow, earlier bindings do not
				for (auto &cc : ctxs) {
					Param p;
					p.kind = kind == B_CONF ? Param::INT : Param::STR;
					p.ui   = 5;
					p.name = sfmt("p%zu", n);
					build_param(p, pool);
					OK(ctx_add(cc, p.h));
				}
				n++;
				s.label("grown context");
			}
			const BCtx &c = ctxs[ci];
			it.kind = c.kind;
			// near duplicate of an earlier one, most of the time
			if (!items.empty() && s.chance(3, 4))
				it.v = items[from].v;
			else
				for (size_t j = 0; j < n; j++)
					it.v.push_back(near_value(s));
			while (it.v.size() < n)
				it.v.push_back(near_value(s));
			if (n && s.coin())
				it.v[s.draw(n)] = near_value(s);
			d.conf   = s.chance(1, 3) ? s.draw(4) : 0;
			d.feat   = s.chance(1, 3) ? s.draw(3) : 0;
			d.result = s.chance(1, 3) ? (ccs_evaluation_result_t)s.range(-2, 2) : 0;
			it.content = sfmt("%d/%zu", c.kind, ci);
			for (auto &x : it.v)
				it.content += "|" + canon(x);
			// what the dependencies hold: see make_ctx
			if (c.kind >= B_EVAL)
				it.content += sfmt("|r%d|c%d", (int)d.result,
						   c.kind == B_TEVAL ? (d.conf == 3 ? 0 : (int)d.conf) : (int)(d.conf % 3));
			if (c.kind == B_FEVAL)
				it.content += sfmt("|f%d", (int)(d.feat % 2));
			ccs_binding_t b = nullptr;
			std::vector<ccs_datum_t> a;
			for (auto &x : it.v) {
				ccs_datum_t dd = x.stable();
				if (s.chance(1, 8))
					dd.flags = CCS_DATUM_FLAG_ID;
				a.push_back(dd);
			}
			if (n && s.coin()) { // built by later writes
				std::vector<ccs_datum_t> z(n, ccs_int(99));
				Deps d0 = d;
				if (c.kind >= B_EVAL)
					d0.result = 17;
				OK(b_create(c, d0, n, z.data(), &b));
				for (size_t j = n; j-- > 0;)
					OK(b_set(c.kind, b, j, a[j]));
				if (c.kind >= B_EVAL)
					OK(b_set_result(c.kind, b, d.result));
				s.label("built by writes");
			} else
				OK(b_create(c, d, n, n ? a.data() : nullptr, &b));
			if (n && c.kind != B_CONF && s.coin()) { // the same strings, copied by the parameter
				for (size_t j = 0; j < n; j++)
					if (it.v[j].t == CCS_DATA_TYPE_STRING && !it.v[j].nul) {
						TmpDatum t(it.v[j], CCS_DATUM_FLAG_TRANSIENT);
						OK(b_set(c.kind, b, j, t.d));
						s.label("copied strings");
					}
			}
			it.h = (ccs_object_t)pool.add(b);
			items.push_back(it);
			s.log("%zu: %s\n", i, it.content.c_str());
		}
	}
	std::vector<ccs_hash_t> hs;
	for (auto &a : items)
		hs.push_back(hash(a));
	std::vector<std::vector<int>> C(m, std::vector<int>(m));
	bool equal_pair = false, close_pair = false;
	for (size_t i = 0; i < m; i++)
		for (size_t j = 0; j < m; j++) {
			int r = 4242;
			OK(cmp(kind, items[i], items[j], &r));
			CHECK(r != 4242, "no result");
			C[i][j]  = sgn(r);
			bool eq  = items[i].content == items[j].content;
			CHECK((r == 0) == eq, "%zu and %zu compare %d: %s and %s", i, j, r, items[i].content.c_str(), items[j].content.c_str());
			if (eq) {
				CHECK(hs[i] == hs[j], "equal objects %s have hashes %u and %u", items[i].content.c_str(), hs[i], hs[j]);
				equal_pair |= i != j;
			} else
				close_pair = true;
			if (kind < K_TREE) {
				int g = 4242;
				OK(ccs_binding_cmp((ccs_binding_t)items[i].h, (ccs_binding_t)items[j].h, &g));
				CHECK(sgn(g) == C[i][j], "the generic comparison differs");
			}
		}
	for (size_t i = 0; i < m; i++)
		for (size_t j = 0; j < m; j++) {
			CHECK(C[i][j] == -C[j][i], "comparison of %s and %s is not antisymmetric", items[i].content.c_str(), items[j].content.c_str());
			for (size_t k = 0; k < m; k++)
				CHECK(!(C[i][j] <= 0 && C[j][k] <= 0) || C[i][k] <= 0, "comparison of %s, %s and %s is not transitive",
				      items[i].content.c_str(), items[j].content.c_str(), items[k].content.c_str());
		}
	for (size_t i = 0; i < m; i++) {
		unchanged(items[i]);
		CHECK(hash(items[i]) == hs[i], "the hash changed");
		shape = pbt::hcomb(shape, pbt::hstr(items[i].content));
	}
	s.feature(shape);
	s.nontrivial(equal_pair && close_pair);
	s.label(kind == K_TREE ? "tree configuration" : kind == K_MIXED ? "mixed kinds" : bk_names[kind]);
	s.label_if(equal_pair, "equal pair");
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P20";
	c.rule = "families of two to six near-duplicate objects, compared in all pairs and triples; non-trivial: the family has an equal pair of distinct objects and a different pair";
	c.assumptions = {};
	c.quick_cases    = 40000;
	c.thorough_cases = 1500000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
