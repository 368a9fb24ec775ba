// P27: tree spaces give valid positions, and sample them by their weights.
// Generated static and dynamic spaces; a model tree says which positions exist
// (or can be made to exist by the user's callback) and with what weights.
#include "law.hpp"
#include <algorithm>
#include <map>
#include <memory>

struct Node {
	ccs_tree_t h = nullptr; // set once it exists in the library
	size_t     arity = 0;
	D          v;
	double     w = 1, b = 1;
	bool       ready = false; // comes together with its parent
	int        fail  = 0; // how the first request for it fails
	int        asked = 0, given = 0;
	std::vector<std::unique_ptr<Node>> kids; // null: empty slot (static only)
	bool exists() const { return h != nullptr; }
	double
	slot(size_t i) const
	{
		if (i == arity)
			return w;
		return kids[i] && kids[i]->exists() ? kids[i]->sum() * kids[i]->b : 1.0;
	}
	double
	sum() const
	{
		double t = 0;
		for (size_t i = 0; i <= arity; i++)
			t += slot(i);
		return t;
	}
};
static D
gen_val(Src &s)
{
	return s.chance(1, 3) ? D::S(s.text(4)) : s.coin() ? D::I(s.range(0, 99)) : s.coin() ? D::F(s.small_f()) : s.coin() ? D::none() : D::B(s.coin());
}
static double
gen_w(Src &s)
{
	switch (s.draw(6)) {
	case 0: return 0;
	case 1: return 2;
	case 2: return 0.5;
	case 3: return (double)s.range(1, 40) / 7;
	case 4: return 10;
	default: return 1;
	}
}
static std::unique_ptr<Node>
gen_node(Src &s, int depth, bool dynamic)
{
	std::unique_ptr<Node> n(new Node);
	n->arity = depth <= 0 ? 0 : s.draw(4);
	n->v     = gen_val(s);
	if (s.coin())
		n->w = gen_w(s);
	if (s.coin())
		n->b = gen_w(s);
	n->ready = !dynamic || s.chance(1, 4);
	n->fail  = dynamic && !n->ready && s.chance(1, 10) ? 1 + (int)s.draw(3) : 0;
	for (size_t i = 0; i < n->arity; i++)
		n->kids.push_back(!dynamic && s.chance(1, 4) ? nullptr : gen_node(s, depth - 1, dynamic));
	return n;
}
static std::map<ccs_tree_t, Node *> *nodes; // by handle
static size_t                        requests;
static void
make(Node *n)
{ // creates the library node, and those that come with it
	TmpDatum t(n->v, CCS_DATUM_FLAG_TRANSIENT);
	ccs_tree_t h = nullptr;
	OK(ccs_create_tree(n->arity, t.d, &h));
	n->h = h;
	(*nodes)[h] = n;
	OK(ccs_tree_set_weight(h, n->w));
	OK(ccs_tree_set_bias(h, n->b));
	for (size_t i = 0; i < n->arity; i++)
		if (n->kids[i] && n->kids[i]->ready) {
			make(n->kids[i].get());
			OK(ccs_tree_set_child(h, i, n->kids[i]->h));
			OK(ccs_release_object(n->kids[i]->h));
		}
}
static int dels;
static ccs_result_t
dyn_del(ccs_tree_space_t)
{
	dels++;
	return CCS_RESULT_SUCCESS;
}
static ccs_tree_space_t *the_space;
static ccs_result_t
dyn_child(ccs_tree_space_t sp, ccs_tree_t parent, size_t index, ccs_tree_t *out)
{
	requests++;
	CHECK(sp == *the_space, "the callback got another space");
	auto it = nodes->find(parent);
	CHECK(it != nodes->end(), "the callback got an unknown parent");
	Node *p = it->second;
	CHECK(index < p->arity, "the callback was asked for child %zu of a node of arity %zu", index, p->arity);
	Node *n = p->kids[index].get();
	CHECK(!n->exists(), "the callback was asked for a child that exists");
	n->asked++;
	if (n->fail) {
		int how = n->fail;
		n->fail = 0;
		if (how == 2) { // a node that cannot be attached there
			OK(ccs_retain_object(parent));
			*out = parent;
			return CCS_RESULT_SUCCESS;
		}
		if (how == 3) { // nothing
			*out = nullptr;
			return CCS_RESULT_SUCCESS;
		}
		return CCS_RESULT_ERROR_EXTERNAL;
	}
	n->given++;
	make(n);
	*out = n->h;
	return CCS_RESULT_SUCCESS;
}
static std::vector<size_t>
gen_pos(Src &s, Node *root)
{
	std::vector<size_t> p;
	Node               *c = root;
	size_t              len = s.size(0, 5);
	for (size_t i = 0; i < len; i++) {
		size_t a = c ? c->arity : 1;
		if (!a && s.chance(3, 4))
			break;
		size_t x = a && s.chance(14, 15) ? s.draw(a) : a + s.draw(2);
		p.push_back(x);
		c = c && x < c->arity ? c->kids[x].get() : nullptr;
	}
	return p;
}
struct Where {
	bool  ok = false;    // a valid position
	bool  fails = false; // a callback on the path will fail
	Node *node = nullptr;
	size_t steps = 0; // path elements that can be followed
};
static Where
follow(Node *n, const std::vector<size_t> &p, bool dynamic)
{
	Where w;
	for (size_t i = 0; i < p.size(); i++) {
		if (!n || p[i] >= n->arity)
			return w;
		Node *k = n->kids[p[i]].get();
		if (dynamic && !k->exists() && k->fail) {
			w.fails = true;
			return w;
		}
		n = k;
		w.steps++;
	}
	w.ok   = true;
	w.node = n;
	return w;
}
static size_t
count_missing(Node *n, const std::vector<size_t> &p, size_t steps)
{
	size_t c = 0;
	// nodes that come with their parent are not asked for
	bool ex = n->exists();
	for (size_t i = 0; i < steps; i++) {
		n = n->kids[p[i]].get();
		if (!n)
			break;
		bool e = n->exists() || (!ex && n->ready);
		if (!e)
			c++;
		ex = n->exists();
	}
	return c;
}
static std::string
pstr(const std::vector<size_t> &p)
{
	std::string r = "[";
	for (size_t x : p)
		r += (r.size() > 1 ? "," : "") + std::to_string(x);
	return r + "]";
}
static void
prefixes(Node *n, std::vector<size_t> &p, double pr, std::vector<std::pair<std::vector<size_t>, double>> &out)
{
	out.push_back({p, pr});
	if (!n || !n->exists())
		return;
	double t = n->sum();
	if (!(t > 0))
		return;
	for (size_t i = 0; i < n->arity; i++) {
		p.push_back(i);
		prefixes(n->kids[i].get(), p, pr * n->slot(i) / t, out);
		p.pop_back();
	}
}
static void
body(Src &s)
{
	long live0 = pbt::vp_live_allocs;
	{
		std::map<ccs_tree_t, Node *> mp;
		nodes        = &mp;
		requests     = 0;
		dels         = 0;
		bool dynamic = s.coin();
		auto root    = gen_node(s, (int)s.range(0, 3), dynamic);
		make(root.get());
		// the space may sit on a part of a larger tree
		ccs_tree_t above = nullptr;
		if (s.chance(1, 4)) {
			OK(ccs_create_tree(2, ccs_string("above"), &above));
			OK(ccs_tree_set_child(above, s.draw(2), root->h));
		}
		ccs_tree_space_t sp = nullptr;
		the_space           = &sp;
		const char *nm = nullptr;
		{
			TmpStr name("space");
			if (dynamic) {
				ccs_dynamic_tree_space_vector_t v = {dyn_del, dyn_child, nullptr, nullptr};
				OK(ccs_create_dynamic_tree_space(name, root->h, &v, root.get(), &sp));
				memset((void *)&v, 0, sizeof v);
			} else
				OK(ccs_create_static_tree_space(name, root->h, &sp));
		}
		ccs_tree_space_type_t ty;
		ccs_tree_t            tr = nullptr;
		ccs_rng_t             g  = nullptr;
		void                 *ud = nullptr;
		OK(ccs_tree_space_get_type(sp, &ty));
		CHECK(ty == (dynamic ? CCS_TREE_SPACE_TYPE_DYNAMIC : CCS_TREE_SPACE_TYPE_STATIC), "type of the space");
		OK(ccs_tree_space_get_name(sp, &nm));
		CHECK(!strcmp(nm, "space"), "name of the space");
		OK(ccs_tree_space_get_tree(sp, &tr));
		CHECK(tr == root->h, "tree of the space");
		if (dynamic) {
			OK(ccs_dynamic_tree_space_get_tree_space_data(sp, &ud));
			CHECK(ud == root.get(), "user data of the space");
		} else
			ANYERR(ccs_dynamic_tree_space_get_tree_space_data(sp, &ud));
		Pool pool;
		if (s.chance(7, 8)) {
			ccs_rng_t r = make_rng(pool, s.draw(0));
			OK(ccs_tree_space_set_rng(sp, r));
			OK(ccs_tree_space_get_rng(sp, &g));
			CHECK(g == r, "generator of the space");
		} else {
			OK(ccs_tree_space_get_rng(sp, &g));
			OK(ccs_rng_set_seed(g, (unsigned long)s.draw(1000)));
		}
		ccs_tree_space_t other = nullptr;
		OK(ccs_create_static_tree_space("other", root->h, &other));
		pool.add(other);
		size_t   steps = s.size(1, 16), made = 0, changed = 0, sampled = 0, invalid = 0;
		uint64_t shape = dynamic;
		struct Conf {
			ccs_tree_configuration_t h;
			std::vector<size_t>      p;
		};
		std::vector<Conf> confs;
		for (size_t st = 0; st < steps; st++) {
			size_t op = s.weighted({3, 3, 3, 4, 3, 4, 2});
			shape     = pbt::hcomb(shape, op);
			size_t before = requests;
			auto   p  = gen_pos(s, root.get());
			if (op == 4 && !confs.empty())
				p = s.pick(confs).p;
			Where  wh = follow(root.get(), p, dynamic);
			size_t miss = dynamic ? count_missing(root.get(), p, wh.steps) : 0;
			std::vector<Node *> path = {root.get()};
			for (size_t i = 0; i < wh.steps; i++)
				path.push_back(path.back() ? path.back()->kids[p[i]].get() : nullptr);
			size_t n = p.size();
			switch (op) {
			case 0: { // validity of a position
				ccs_bool_t   ok = 9;
				s.log("check %s\n", pstr(p).c_str());
				ccs_result_t r = ccs_tree_space_check_position(sp, n, p.data(), &ok);
				if (wh.fails) {
					CHECK(r < 0, "the failure of the callback is not reported");
					ccs_clear_thread_error();
					break;
				}
				OK(r);
				CHECK(ok == (wh.ok ? CCS_TRUE : CCS_FALSE), "validity of %s is %d", pstr(p).c_str(), ok);
				invalid += !wh.ok;
				break;
			}
			case 1: {
				ccs_tree_t   t = nullptr;
				s.log("node at %s\n", pstr(p).c_str());
				ccs_result_t r = ccs_tree_space_get_node_at_position(sp, n, p.data(), &t);
				if (!wh.ok || !wh.node) {
					CHECK(r < 0, "a node was given for %s", pstr(p).c_str());
					CHECK(!t, "a node was given with an error");
					ccs_clear_thread_error();
					break;
				}
				OK(r);
				CHECK(t == wh.node->h, "another node at %s", pstr(p).c_str());
				break;
			}
			case 2: {
				size_t                   extra = s.draw(3);
				std::vector<ccs_datum_t> v(n + 2 + extra, ccs_int(777));
				s.log("values at %s\n", pstr(p).c_str());
				if (s.chance(1, 6)) {
					ANYERR(ccs_tree_space_get_values_at_position(sp, n, p.data(), s.draw(n + 1), v.data()));
					miss = 0;
					wh.fails = false;
					break;
				}
				ccs_result_t r = ccs_tree_space_get_values_at_position(sp, n, p.data(), n + 1 + extra, v.data());
				CHECK(D::of(v.back()) == D::I(777), "values written past the end of the array");
				if (!wh.ok || !wh.node) {
					CHECK(r < 0, "values were given for %s", pstr(p).c_str());
					ccs_clear_thread_error();
					break;
				}
				OK(r);
				for (size_t i = 0; i < n + 1 + extra; i++)
					CHECK(D::of(v[i]) == (i <= n ? path[i]->v : D::none()), "value %zu at %s is %s", i, pstr(p).c_str(),
					      D::of(v[i]).str().c_str());
				break;
			}
			case 3: { // a configuration
				Conf c;
				c.h = nullptr;
				c.p = p;
				s.log("configuration %s\n", pstr(p).c_str());
				{
					std::vector<size_t> tmp = p;
					OK(ccs_create_tree_configuration(sp, n, n ? tmp.data() : nullptr, &c.h));
					for (auto &x : tmp)
						x = 5555;
				}
				confs.push_back(c);
				miss     = 0;
				wh.fails = false;
				break;
			}
			case 4: { // use of a configuration made or sampled earlier
				if (confs.empty()) {
					miss     = 0;
					wh.fails = false;
					break;
				}
				Conf *c = nullptr;
				for (auto &x : confs)
					if (x.p == p)
						c = &x;
				s.log("use configuration %s\n", pstr(p).c_str());
				ccs_tree_space_t ts = nullptr;
				OK(ccs_tree_configuration_get_tree_space(c->h, &ts));
				CHECK(ts == sp, "space of the configuration");
				size_t x = 99;
				OK(ccs_tree_configuration_get_position(c->h, 0, nullptr, &x));
				CHECK(x == n, "size of the position is %zu, %zu expected", x, n);
				std::vector<size_t> q(n + 1, 4321);
				OK(ccs_tree_configuration_get_position(c->h, n, q.data(), &x));
				CHECK(q[n] == 4321, "position written past the end");
				q.pop_back();
				CHECK(q == p, "position of the configuration is %s", pstr(q).c_str());
				if (n)
					ANYERR(ccs_tree_configuration_get_position(c->h, n - 1, q.data(), &x));
				ccs_bool_t ok = 9;
				ANYERR(ccs_tree_space_check_configuration(other, c->h, &ok));
				ccs_result_t r = s.coin() ? ccs_tree_configuration_check(c->h, &ok) : ccs_tree_space_check_configuration(sp, c->h, &ok);
				if (wh.fails) {
					CHECK(r < 0, "the failure of the callback is not reported");
					ccs_clear_thread_error();
					break;
				}
				OK(r);
				CHECK(ok == (wh.ok ? CCS_TRUE : CCS_FALSE), "validity of the configuration %s is %d", pstr(p).c_str(), ok);
				ccs_tree_t t = nullptr;
				std::vector<ccs_datum_t> v(n + 1);
				if (wh.ok && wh.node) {
					OK(ccs_tree_configuration_get_node(c->h, &t));
					CHECK(t == wh.node->h, "node of the configuration");
					OK(ccs_tree_configuration_get_values(c->h, n + 1, v.data(), &x));
					CHECK(x == n + 1, "number of values");
					for (size_t i = 0; i <= n; i++)
						CHECK(D::of(v[i]) == path[i]->v, "value %zu of the configuration %s", i, pstr(p).c_str());
				} else {
					ANYERR(ccs_tree_configuration_get_node(c->h, &t));
					ANYERR(ccs_tree_configuration_get_values(c->h, n + 1, v.data(), nullptr));
				}
				break;
			}
			case 5: { // sampling
				miss     = 0;
				wh.fails = false;
				size_t k = s.chance(1, 4) ? s.size(200, 800) : s.size(1, 12);
				if (s.chance(1, 10))
					OK(ccs_tree_space_samples(sp, 0, nullptr));
				std::vector<ccs_tree_configuration_t> cs(k + 1, nullptr);
				ccs_tree_configuration_t guard = (ccs_tree_configuration_t)&k;
				cs[k] = guard;
				s.log("sample %zu\n", k);
				ccs_result_t r = k == 1 ? ccs_tree_space_sample(sp, cs.data()) : ccs_tree_space_samples(sp, k, cs.data());
				CHECK(cs[k] == guard, "more configurations than asked");
				if (root->sum() == 0) {
					CHECK(r < 0, "a tree without weight was sampled");
					ccs_clear_thread_error();
					break;
				}
				OK(r);
				std::map<std::vector<size_t>, size_t> cnt;
				for (size_t i = 0; i < k; i++) {
					size_t x = 0;
					ccs_tree_space_t ts = nullptr;
					OK(ccs_tree_configuration_get_tree_space(cs[i], &ts));
					CHECK(ts == sp, "space of the sampled configuration");
					OK(ccs_tree_configuration_get_position(cs[i], 0, nullptr, &x));
					std::vector<size_t> q(x);
					OK(ccs_tree_configuration_get_position(cs[i], x, q.data(), &x));
					Node *c = root.get();
					double w = 1;
					for (size_t j = 0; j < x; j++) {
						CHECK(c && c->exists() && q[j] < c->arity, "sampled position %s does not exist", pstr(q).c_str());
						w *= c->slot(q[j]);
						c = c->kids[q[j]].get();
					}
					if (c && c->exists())
						w *= c->w;
					CHECK(w > 0, "sampled position %s has no weight", pstr(q).c_str());
					// prefixes
					for (size_t j = 0; j <= x; j++)
						cnt[std::vector<size_t>(q.begin(), q.begin() + (long)j)]++;
					if (confs.size() < 6 && s.chance(1, 3)) {
						Conf cf;
						cf.h = cs[i];
						cf.p = q;
						confs.push_back(cf);
					} else
						OK(ccs_release_object(cs[i]));
				}
				std::vector<std::pair<std::vector<size_t>, double>> pr;
				std::vector<size_t> pp;
				prefixes(root.get(), pp, 1.0, pr);
				for (auto &e : pr) {
					auto it = cnt.find(e.first);
					size_t c = it == cnt.end() ? 0 : it->second;
					CHECK(!implausible(c, k, e.second), "%zu of %zu samples go through %s, probability %g", c, k, pstr(e.first).c_str(),
					      e.second);
				}
				sampled += k > 100;
				break;
			}
			case 6: { // a change of weight
				miss     = 0;
				wh.fails = false;
				std::vector<Node *> l;
				for (auto &e : mp)
					l.push_back(e.second);
				std::sort(l.begin(), l.end(), [](Node *a, Node *b) { return a->v < b->v; });
				// pick by path, so that the choice does not depend on addresses
				Node *c = root.get();
				while (c->arity && s.chance(2, 3)) {
					Node *k = c->kids[s.draw(c->arity)].get();
					if (!k || !k->exists())
						break;
					c = k;
				}
				if (s.coin()) {
					c->w = gen_w(s);
					OK(ccs_tree_set_weight(c->h, c->w));
				} else {
					c->b = gen_w(s);
					OK(ccs_tree_set_bias(c->h, c->b));
				}
				changed++;
				break;
			}
			}
			CHECK(requests - before == miss + (wh.fails ? 1 : 0), "%zu requests for children, %zu expected", requests - before,
			      miss + (wh.fails ? 1 : 0));
			made += miss;
		}
		for (auto &c : confs)
			OK(ccs_release_object(c.h));
		pool.release_all();
		OK(ccs_release_object(sp));
		CHECK(dels == (dynamic ? 1 : 0), "delete callback called %d times", dels);
		if (above)
			OK(ccs_release_object(above));
		OK(ccs_release_object(root->h));
		s.feature(shape);
		s.nontrivial(sampled && (changed || made || invalid));
		s.label(dynamic ? "dynamic" : "static");
		s.label_if(made, "child made on demand");
		s.label_if(sampled && changed, "sampled, weights changed");
	}
	CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain", pbt::vp_live_allocs - live0);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P27";
	c.rule = "tree spaces of depth up to 3 and histories of 1 to 16 queries, samplings and weight changes; non-trivial: at least 200 configurations drawn at once, and a weight changed, a child made on demand or an invalid position asked";
	c.assumptions = {"a law is rejected only when the observed frequency has probability below 2 exp(-36)"};
	c.quick_cases    = 30000;
	c.thorough_cases = 300000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
