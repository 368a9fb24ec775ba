// P26: trees keep their structure, positions and weights consistent.
// Histories of creations, attachments (legal or not), weight and bias changes
// and releases, against a model of nodes, attachments and references.
#include "gen.hpp"
#include <algorithm>
#include <memory>

struct Node {
	ccs_tree_t h = nullptr;
	size_t     id = 0, arity = 0, index = 0;
	D          v;
	double     w = 1, b = 1;
	int        refs = 1, killed = 0;
	Node      *parent = nullptr;
	std::vector<Node *> kids;
	double
	sum() const
	{
		double t = 0;
		for (size_t i = 0; i < arity; i++)
			t += slot(i);
		return t + w;
	}
	double
	slot(size_t i) const
	{
		return i == arity ? w : kids[i] ? kids[i]->sum() * kids[i]->b : 1.0;
	}
};
static void
destroyed(ccs_object_t, void *u)
{
	((Node *)u)->killed++;
}
struct World {
	std::vector<std::unique_ptr<Node>> all;
	std::vector<Node *>
	alive() const
	{
		std::vector<Node *> r;
		for (auto &n : all)
			if (!n->killed)
				r.push_back(n.get());
		return r;
	}
	// nodes the harness may name: those it can reach through a reference of its own
	std::vector<Node *>
	mine() const
	{
		std::vector<Node *> r;
		for (auto &n : all)
			if (n->refs)
				r.push_back(n.get());
		return r;
	}
};
static Node *
at(Node *n, const std::vector<size_t> &p, bool *empty_end, bool *oob)
{
	*empty_end = *oob = false;
	for (size_t i = 0; i < p.size(); i++) {
		if (!n)
			return nullptr;
		if (p[i] >= n->arity) {
			*oob = true;
			return nullptr;
		}
		n = n->kids[p[i]];
		if (!n && i + 1 == p.size())
			*empty_end = true;
	}
	return n;
}
static D
gen_val(Src &s)
{
	switch (s.draw(6)) {
	case 0: return D::I(s.range(0, 9));
	case 1: return D::S(s.text(4));
	case 2: return D::F(s.small_f());
	case 3: return D::B(s.coin());
	case 4: return D::none();
	default: return D::I(s.range(100, 999));
	}
}
static double
gen_w(Src &s)
{
	switch (s.draw(6)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return 2;
	case 3: return 0.5;
	case 4: return (double)s.range(1, 100) / 7;
	default: return s.unit() * 1e3;
	}
}
static void
check_node(Src &s, Node *n)
{
	size_t      x = 77;
	ccs_datum_t d;
	double      f;
	OK(ccs_tree_get_arity(n->h, &x));
	CHECK(x == n->arity, "node %zu: arity %zu, %zu expected", n->id, x, n->arity);
	OK(ccs_tree_get_value(n->h, &d));
	CHECK(D::of(d) == n->v, "node %zu: value %s, %s expected", n->id, D::of(d).str().c_str(), n->v.str().c_str());
	OK(ccs_tree_get_weight(n->h, &f));
	CHECK(f == n->w, "node %zu: weight %g, %g expected", n->id, f, n->w);
	OK(ccs_tree_get_bias(n->h, &f));
	CHECK(f == n->b, "node %zu: bias %g, %g expected", n->id, f, n->b);
	ccs_tree_t p = (ccs_tree_t)&x;
	size_t     ix = 99;
	OK(ccs_tree_get_parent(n->h, &p, s.coin() ? &ix : nullptr));
	CHECK(p == (n->parent ? n->parent->h : nullptr), "node %zu: wrong parent", n->id);
	OK(ccs_tree_get_parent(n->h, &p, &ix));
	CHECK(!n->parent || ix == n->index, "node %zu: index %zu, %zu expected", n->id, ix, n->index);
	// children
	size_t extra = s.draw(3);
	ccs_tree_t guard = (ccs_tree_t)&d;
	std::vector<ccs_tree_t> ch(n->arity + extra + 1, guard);
	OK(ccs_tree_get_children(n->h, n->arity + extra, ch.data(), s.coin() ? &x : nullptr));
	OK(ccs_tree_get_children(n->h, 0, nullptr, &x));
	CHECK(x == n->arity, "node %zu: %zu children announced", n->id, x);
	CHECK(ch.back() == guard, "get_children wrote past the end");
	for (size_t i = 0; i < n->arity + extra; i++) {
		ccs_tree_t want = i < n->arity && n->kids[i] ? n->kids[i]->h : nullptr, c = guard;
		CHECK(ch[i] == want, "node %zu: child %zu is wrong in the list", n->id, i);
		if (i < n->arity) {
			OK(ccs_tree_get_child(n->h, i, &c));
			CHECK(c == want, "node %zu: child %zu is wrong", n->id, i);
		} else {
			ERR(ccs_tree_get_child(n->h, i, &c), CCS_RESULT_ERROR_OUT_OF_BOUNDS);
		}
	}
	// position and values
	std::vector<size_t> pos;
	std::vector<D>      vals;
	Node               *root = n;
	for (Node *k = n; k; k = k->parent) {
		vals.insert(vals.begin(), k->v);
		if (k->parent)
			pos.insert(pos.begin(), k->index);
		root = k;
	}
	size_t depth = pos.size();
	OK(ccs_tree_get_position(n->h, 0, nullptr, &x));
	CHECK(x == depth, "node %zu: depth %zu, %zu expected", n->id, x, depth);
	std::vector<size_t> gp(depth + extra + 1, 12345);
	OK(ccs_tree_get_position(n->h, depth + extra, gp.data(), s.coin() ? &x : nullptr));
	CHECK(gp.back() == 12345, "get_position wrote past the end");
	for (size_t i = 0; i < depth; i++)
		CHECK(gp[i] == pos[i], "node %zu: position element %zu is %zu, %zu expected", n->id, i, gp[i], pos[i]);
	for (size_t i = depth; i < depth + extra; i++)
		CHECK(gp[i] == 0, "the end of the array of positions is not cleared");
	if (depth)
		ERR(ccs_tree_get_position(n->h, s.draw(depth), gp.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
	x = 0;
	OK(ccs_tree_get_values(n->h, 0, nullptr, &x));
	CHECK(x == depth + 1, "node %zu: %zu values, %zu expected", n->id, x, depth + 1);
	std::vector<ccs_datum_t> gv(depth + extra + 2, ccs_int(4242));
	OK(ccs_tree_get_values(n->h, depth + 1 + extra, gv.data(), nullptr));
	CHECK(D::of(gv.back()) == D::I(4242), "get_values wrote past the end");
	for (size_t i = 0; i < depth + 1 + extra; i++)
		CHECK(D::of(gv[i]) == (i <= depth ? vals[i] : D::none()), "node %zu: value %zu on the path is %s", n->id, i, D::of(gv[i]).str().c_str());
	ERR(ccs_tree_get_values(n->h, s.draw(depth + 1), gv.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
	// and back, from the root
	ccs_tree_t back = nullptr;
	OK(ccs_tree_get_node_at_position(root->h, depth, pos.data(), &back));
	CHECK(back == n->h, "node %zu: its position denotes another node", n->id);
	OK(ccs_tree_get_values_at_position(root->h, depth, pos.data(), depth + 1 + extra, gv.data()));
	for (size_t i = 0; i < depth + 1 + extra; i++)
		CHECK(D::of(gv[i]) == (i <= depth ? vals[i] : D::none()), "node %zu: value %zu at its position is %s", n->id, i,
		      D::of(gv[i]).str().c_str());
}
static void
check_position(Src &s, Node *n)
{
	std::vector<size_t> p;
	Node               *c = n;
	size_t              len = s.size(0, 5);
	for (size_t i = 0; i < len; i++) {
		size_t a = c ? c->arity : 1;
		size_t x = a && s.chance(9, 10) ? s.draw(a) : a + s.draw(2);
		if (s.chance(1, 60))
			x = SIZE_MAX - s.draw(2);
		p.push_back(x);
		c = c && x < c->arity ? c->kids[x] : nullptr;
	}
	bool       empty, oob;
	Node      *w = at(n, p, &empty, &oob);
	ccs_bool_t ok = 9;
	OK(ccs_tree_position_is_valid(n->h, p.size(), p.data(), &ok));
	CHECK(ok == ((w || empty) && !oob ? CCS_TRUE : CCS_FALSE), "position validity from node %zu is %d", n->id, ok);
	ccs_tree_t                t = nullptr;
	std::vector<ccs_datum_t>  v(p.size() + 1);
	if (w) {
		OK(ccs_tree_get_node_at_position(n->h, p.size(), p.data(), &t));
		CHECK(t == w->h, "another node at the position");
		OK(ccs_tree_get_values_at_position(n->h, p.size(), p.data(), v.size(), v.data()));
		Node *k = w;
		for (size_t i = v.size(); i-- > 0; k = k->parent)
			CHECK(D::of(v[i]) == k->v, "value %zu at the position is %s", i, D::of(v[i]).str().c_str());
		if (p.size())
			ERR(ccs_tree_get_values_at_position(n->h, p.size(), p.data(), p.size(), v.data()), CCS_RESULT_ERROR_INVALID_VALUE);
	} else {
		ANYERR(ccs_tree_get_node_at_position(n->h, p.size(), p.data(), &t));
		CHECK(!t, "a node was given for an invalid position");
		ANYERR(ccs_tree_get_values_at_position(n->h, p.size(), p.data(), v.size(), v.data()));
	}
}
// a fresh copy of the subtree, built bottom up with its final weights
static ccs_tree_t
rebuild(Node *n, Pool &pool)
{
	ccs_tree_t t = nullptr;
	OK(ccs_create_tree(n->arity, n->v.ref(), &t));
	pool.add(t);
	OK(ccs_tree_set_weight(t, n->w));
	OK(ccs_tree_set_bias(t, n->b));
	for (size_t i = 0; i < n->arity; i++)
		if (n->kids[i])
			OK(ccs_tree_set_child(t, i, rebuild(n->kids[i], pool)));
	return t;
}
static void
check_weights(Src &s, Node *n)
{
	Pool       pool;
	ccs_rng_t  r = make_rng(pool, s.draw(1000));
	double     sum = n->sum();
	std::vector<size_t> a(40, 999);
	if (sum == 0) {
		ERR(ccs_tree_samples(n->h, r, a.size(), a.data()), CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
		ERR(ccs_tree_sample(n->h, r, a.data()), CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
		return;
	}
	OK(ccs_tree_samples(n->h, r, a.size(), a.data()));
	for (size_t x : a) {
		CHECK(x <= n->arity, "node %zu: sampled index %zu", n->id, x);
		CHECK(n->slot(x) > 0, "node %zu: sampled index %zu that has no weight", n->id, x);
	}
	// same structure, other history: same law, hence same samples
	std::vector<size_t> b(40, 998);
	Pool       p2;
	ccs_tree_t t  = rebuild(n, p2);
	uint64_t   sd = s.draw(1000);
	ccs_rng_t  r1 = make_rng(pool, sd), r2 = make_rng(pool, sd);
	OK(ccs_tree_samples(n->h, r1, a.size(), a.data()));
	OK(ccs_tree_samples(t, r2, b.size(), b.data()));
	for (size_t i = 0; i < a.size(); i++)
		CHECK(a[i] == b[i], "node %zu: sample %zu is %zu, a fresh copy of the tree gives %zu", n->id, i, a[i], b[i]);
}
static void
check_refs(World &w)
{
	for (auto &n : w.all) {
		int want = n->refs + (n->parent ? 1 : 0);
		if (n->killed) {
			CHECK(n->killed == 1 && want == 0, "node %zu destroyed %d times with %d references left", n->id, n->killed, want);
			continue;
		}
		CHECK(want > 0, "node %zu should have been destroyed", n->id);
		int32_t rc = -1;
		OK(ccs_object_get_refcount(n->h, &rc));
		CHECK(rc == want, "node %zu has %d references, %d expected", n->id, rc, want);
	}
}
static void
drop(Node *n)
{ // the model of a release
	if (n->refs || n->parent)
		return;
	for (auto &k : n->kids)
		if (k) {
			k->parent = nullptr;
			drop(k);
			k = nullptr;
		}
}
static void
body(Src &s)
{
	long live0 = pbt::vp_live_allocs;
	{
		World  w;
		size_t first = s.size(1, 7), steps = first + s.size(1, 35), attached = 0, refused = 0, reweighted = 0, survived = 0;
		uint64_t shape = 0;
		if (s.chance(1, 15)) { // one long branch to start with
			size_t len = 9 + s.draw(12);
			bool   up  = s.coin();
			for (size_t i = 0; i < len; i++) {
				std::unique_ptr<Node> n(new Node);
				n->id    = i;
				n->arity = 1 + s.draw(2);
				n->v     = gen_val(s);
				n->kids.resize(n->arity, nullptr);
				TmpDatum t(n->v, CCS_DATUM_FLAG_TRANSIENT);
				OK(ccs_create_tree(n->arity, t.d, &n->h));
				OK(ccs_object_set_destroy_callback(n->h, destroyed, n.get()));
				w.all.push_back(std::move(n));
			}
			for (size_t k = 0; k + 1 < len; k++) {
				size_t i = up ? len - 2 - k : k;
				Node  *p = w.all[i].get(), *c = w.all[i + 1].get();
				c->index   = s.draw(p->arity);
				c->parent  = p;
				p->kids[c->index] = c;
				OK(ccs_tree_set_child(p->h, c->index, c->h));
			}
			s.log("branch of %zu nodes\n", len);
			s.label("deep tree");
			attached += len - 1;
		}
		for (size_t st = 0; st < steps; st++) {
			auto   l  = w.mine();
			size_t op = l.empty() || w.all.size() < first ? 0 : s.weighted({4, 12, 4, 4, 2, 3, 2});
			shape     = pbt::hcomb(shape, op);
			switch (op) {
			case 0: {
				std::unique_ptr<Node> n(new Node);
				n->id    = w.all.size();
				n->arity = s.chance(1, 25) ? 5 + s.draw(40) : s.draw(4);
				n->v     = gen_val(s);
				n->kids.resize(n->arity, nullptr);
				{
					TmpDatum t(n->v, s.coin() ? CCS_DATUM_FLAG_TRANSIENT : CCS_DATUM_FLAG_DEFAULT);
					OK(ccs_create_tree(n->arity, t.d, &n->h));
				}
				s.log("node %zu: arity %zu, %s\n", n->id, n->arity, n->v.str().c_str());
				OK(ccs_object_set_destroy_callback(n->h, destroyed, n.get()));
				w.all.push_back(std::move(n));
				break;
			}
			case 1: {
				Node  *p = s.pick(l), *c = s.pick(l);
				size_t i = p->arity && s.chance(9, 10) ? s.draw(p->arity) : p->arity + s.draw(2);
				bool   oob = i >= p->arity, taken = !oob && p->kids[i], anc = false;
				for (Node *k = p; k; k = k->parent)
					anc = anc || k == c;
				s.log("attach %zu to %zu at %zu\n", c->id, p->id, i);
				if (oob || taken || c->parent || anc) {
					ANYERR(ccs_tree_set_child(p->h, i, c->h));
					refused++;
				} else {
					OK(ccs_tree_set_child(p->h, i, c->h));
					p->kids[i] = c;
					c->parent  = p;
					c->index   = i;
					attached++;
				}
				break;
			}
			case 2: {
				Node *n = s.pick(l);
				double x = gen_w(s);
				if (s.chance(1, 12)) {
					double bad = s.coin() ? -x - 0.25 : s.coin() ? NAN : INFINITY;
					if (s.coin())
						ERR(ccs_tree_set_weight(n->h, bad), CCS_RESULT_ERROR_INVALID_VALUE);
					else
						ERR(ccs_tree_set_bias(n->h, bad), CCS_RESULT_ERROR_INVALID_VALUE);
					break;
				}
				s.log("weight of %zu: %g\n", n->id, x);
				OK(ccs_tree_set_weight(n->h, x));
				n->w = x;
				reweighted += n->parent != nullptr;
				break;
			}
			case 3: {
				Node  *n = s.pick(l);
				double x = gen_w(s);
				s.log("bias of %zu: %g\n", n->id, x);
				OK(ccs_tree_set_bias(n->h, x));
				n->b = x;
				reweighted += n->parent != nullptr;
				break;
			}
			case 4: {
				Node *n = s.pick(l);
				if (s.chance(1, 3)) {
					OK(ccs_retain_object(n->h));
					n->refs++;
				} else {
					s.log("release %zu\n", n->id);
					n->refs--;
					bool kids = false;
					for (auto k : n->kids)
						kids = kids || (k && k->refs);
					survived += kids && !n->parent && !n->refs;
					OK(ccs_release_object(n->h));
					drop(n);
				}
				break;
			}
			case 5:
				check_position(s, s.pick(l));
				break;
			case 6:
				check_weights(s, s.pick(l));
				break;
			}
			check_refs(w);
		}
		for (auto &n : w.all)
			if (!n->killed) {
				check_node(s, n.get());
				check_weights(s, n.get());
				check_position(s, n.get());
			}
		// release the rest, in any order
		for (;;) {
			auto l = w.mine();
			if (l.empty())
				break;
			Node *n = s.pick(l);
			n->refs--;
			OK(ccs_release_object(n->h));
			drop(n);
			check_refs(w);
			for (auto k : w.alive())
				if (s.chance(1, 4))
					check_node(s, k);
		}
		s.feature(shape);
		s.nontrivial(attached >= 2 && (refused || reweighted || survived));
		s.label_if(refused, "attachment refused");
		s.label_if(reweighted, "weight changed below a parent");
		s.label_if(survived, "child outlives its parent");
	}
	CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain", pbt::vp_live_allocs - live0);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P26";
	c.rule = "histories of 1 to 40 operations on trees; non-trivial: two attachments and a refused attachment, a weight change below a parent, or a child that outlives its parent";
	c.assumptions = {"weights and biases whose products stay finite"};
	c.quick_cases    = 12000;
	c.thorough_cases = 800000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
