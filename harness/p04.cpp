// P04: objects live exactly as long as they are referenced.
// Histories of public calls, retains and releases over objects of every kind.
// What an object refers to is read through its accessors after every step:
// the objects that are alive must be exactly those the user can reach from
// the references he holds.
#include "world.hpp"
using namespace world;

static void
verify(World &w)
{
	w.walk();
	std::set<Node *> reach(w.live.begin(), w.live.end());
	for (auto &n : w.nodes) {
		CHECK(n.trouble.empty(), "%s (%s #%zu)", n.trouble.c_str(), World::type_name(n.t), n.id);
		if (n.alive) {
			CHECK(n.ran.empty(), "a destruction callback ran for an object that is alive");
			CHECK(reach.count(&n), "%s #%zu is not referred to any more but was not destroyed", World::type_name(n.t), n.id);
			continue;
		}
		CHECK(!reach.count(&n), "%s #%zu was destroyed while it is referred to", World::type_name(n.t), n.id);
		CHECK(n.ran.size() == n.cbs.size(), "%zu of the %zu destruction callbacks of %s #%zu ran", n.ran.size(), n.cbs.size(), World::type_name(n.t), n.id);
		for (size_t i = 0; i < n.ran.size(); i++)
			CHECK(n.ran[i] == n.cbs[n.cbs.size() - 1 - i], "destruction callback %zu of %zu ran at position %zu", n.ran[i], n.cbs.size(), i);
	}
	for (auto n : w.live)
		if (n->t == CCS_OBJECT_TYPE_TREE) {
			ccs_tree_t p = nullptr, c = nullptr;
			size_t     i = 77;
			OK(ccs_tree_get_parent((ccs_tree_t)n->h, &p, &i));
			if (!p)
				continue;
			auto it = w.by_h.find((ccs_object_t)p);
			CHECK(it == w.by_h.end() || it->second->alive, "the parent of tree #%zu was destroyed", n->id);
			OK(ccs_tree_get_child(p, i, &c));
			CHECK(c == (ccs_tree_t)n->h, "tree #%zu is not the child of its parent", n->id);
		}
}

static void
body(Src &s)
{
	long   before = pbt::vp_live_allocs;
	bool   handover = false;
	{
		World w;
		w.src   = &s;
		w.track = true;
		size_t ng = 1 + s.draw(3);
		for (size_t i = 0; i < ng; i++) {
			K k = (K)s.draw(K_KINDS);
			s.log("%s", k_names[k]);
			s.feature(k);
			if (k == K_RNG) {
				Pool p;
				gen_rng(s, p);
				w.take(p);
			} else
				w.add_graph(s, k);
		}
		verify(w);
		size_t n = 1 + s.draw(30);
		for (size_t step = 0; step < n && !w.live.empty(); step++) {
			switch (s.weighted({50, 32, 10, 4, 4})) {
			case 0: {
				const Fn &f = pick_fn(w, s, !s.chance(1, 8));
				Call      c;
				if (!gen_args(w, s, f, c))
					continue;
				s.log("%s", c.str().c_str());
				ccs_result_t r = c.run();
				if (r < 0) {
					s.log("  refused: %s", rname(r));
					ccs_clear_thread_error();
					break;
				}
				s.feature(pbt::hstr(f.name));
				for (auto o : c.created()) {
					Node *m = w.own(o, !strncmp(f.name, "ccs_create_", 11));
					s.log("  -> %s #%zu", World::type_name(m->t), m->id);
				}
				break;
			}
			case 1: {
				std::vector<Node *> u;
				for (auto x : w.live)
					if (x->user)
						u.push_back(x);
				Node       *x = s.pick(u), *v = s.pick(w.live);
				std::string a = dump(v->h, {}, false);
				s.log("release %s #%zu (%ld held)", World::type_name(x->t), x->id, x->user);
				w.release(x);
				handover |= x->alive && !x->user;
				verify(w);
				if (v->alive) {
					std::string b = dump(v->h, {}, false);
					CHECK(same(a, b), "%s #%zu changed when another object was released: %s", World::type_name(v->t), v->id, diff(a, b).c_str());
				}
				continue;
			}
			case 2: {
				Node *x = s.pick(w.live);
				s.log("retain %s #%zu", World::type_name(x->t), x->id);
				OK(ccs_retain_object(x->h));
				x->user++;
				break;
			}
			case 3: {
				Node *x = s.pick(w.live);
				w.attach(x);
				break;
			}
			default: {
				Node *x = s.pick(w.live);
				x->ud   = s.coin() ? ud_make("other data") : nullptr;
				OK(ccs_object_set_user_data(x->h, x->ud));
			}
			}
			verify(w);
		}
		// let go of everything, in any order
		while (!w.live.empty()) {
			std::vector<Node *> u;
			for (auto x : w.live)
				if (x->user)
					u.push_back(x);
			Node *x = s.pick(u);
			long  k = s.coin() ? x->user : 1;
			s.log("release %s #%zu (%ld of %ld)", World::type_name(x->t), x->id, k, x->user);
			for (long i = 0; i < k; i++)
				w.release(x);
			handover |= x->alive && !x->user;
			verify(w);
		}
		for (auto &g : w.graphs) {
			for (auto &u : g.us)
				CHECK(u.dels == 1, "a user defined tuner was told %d times of its end", u.dels);
			for (auto &d : g.ds)
				CHECK(d.dels == 1, "a dynamic tree space was told %d times of its end", d.dels);
		}
		s.label_if(w.nodes.size() > 20, "more than 20 objects");
	}
	ccs_clear_thread_error();
	CHECK(pbt::vp_live_allocs == before, "%ld allocations remain after everything was released", pbt::vp_live_allocs - before);
	s.nontrivial(handover);
	s.label_if(handover, "object outlived the user's reference");
}

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P04";
	c.rule = "one to three generated object graphs (23 kinds) and up to 30 random public calls, retains, releases and attached callbacks, then releases in a random order; non-trivial: an object outlived the last reference the user held to it because another object referred to it";
	c.assumptions = {"ownership cycles (a map that contains itself) are not built", "objects are used from one thread", "distributions with hardly any mass in the integers are not sampled"};
	c.quick_cases    = 8000;
	c.thorough_cases = 400000;
	c.quick_cap_s    = 45;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
