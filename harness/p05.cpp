// P05: a rejected call changes nothing.
// Public calls on generated objects, most of them with one argument made
// invalid.  Such a call must be refused; after any refused call everything the
// user can reach, with its reference counts, and the number of allocations
// must be what they were, and no object may have been handed out.
#include "world.hpp"
using namespace world;

static std::string
snapshot(World &w, bool rng)
{
	std::set<Node *> roots;
	for (auto n : w.live) {
		if (n->user)
			roots.insert(n);
		if (n->t == CCS_OBJECT_TYPE_MAP)
			for (auto o : links(n->h))
				roots.insert(w.by_h.at(o));
	}
	std::string out;
	Dump        d;
	d.raw          = true;
	d.no_rng_state = !rng;
	for (auto n : w.live)
		if (n->t == CCS_OBJECT_TYPE_TREE_SPACE) {
			ccs_tree_space_type_t t;
			OK(ccs_tree_space_get_type((ccs_tree_space_t)n->h, &t));
			d.no_growth |= t == CCS_TREE_SPACE_TYPE_DYNAMIC;
		}
	for (auto n : w.live)
		if (roots.count(n)) {
			d.any(n->h);
			d.out += "\n";
		}
	return d.out;
}
static Node *
other_kind(World &w, Src &s, int ht)
{
	std::vector<Node *> c;
	for (auto n : w.live)
		if ((int)n->t != ht)
			c.push_back(n);
	return c.empty() ? nullptr : s.pick(c);
}
static bool
user_object(ccs_object_t o)
{
	ccs_object_type_t t;
	OK(ccs_object_get_type(o, &t));
	if (t == CCS_OBJECT_TYPE_TUNER) {
		ccs_tuner_type_t k;
		OK(ccs_tuner_get_type((ccs_tuner_t)o, &k));
		return k == CCS_TUNER_TYPE_USER_DEFINED;
	}
	if (t == CCS_OBJECT_TYPE_FEATURES_TUNER) {
		ccs_features_tuner_type_t k;
		OK(ccs_features_tuner_get_type((ccs_features_tuner_t)o, &k));
		return k == CCS_FEATURES_TUNER_TYPE_USER_DEFINED;
	}
	if (t == CCS_OBJECT_TYPE_TREE_TUNER) {
		ccs_tree_tuner_type_t k;
		OK(ccs_tree_tuner_get_type((ccs_tree_tuner_t)o, &k));
		return k == CCS_TREE_TUNER_TYPE_USER_DEFINED;
	}
	return false;
}
// makes one argument invalid; the empty string when nothing could be done
static std::string
corrupt(World &w, Src &s, Call &c, bool *element)
{
	const Fn &f    = *c.fn;
	bool      user = f.tok[0] == 'o' && user_object((ccs_object_t)c.s[0].p);
	std::vector<std::function<std::string()>> ways;
	size_t                                    z = 0, zi = 0;
	for (size_t i = 0; i < f.tok.size(); i++) {
		Slot          &a  = c.s[i];
		const ArgInfo &ai = f.args[i];
		if (user && i > 0 && a.tok != 'o' && a.tok != 'c') // what happens is up to the user's functions
			continue;
		switch (a.tok) {
		case 'o':
			ways.push_back([&a, i]() { a.p = nullptr; return sfmt("argument %zu null", i); });
			if (ai.handle >= 0)
				ways.push_back([&a, &w, &s, &ai, i]() {
					Node *n = other_kind(w, s, ai.handle);
					if (!n)
						return std::string();
					a.p = n->h;
					return sfmt("argument %zu a %s", i, World::type_name(n->t));
				});
			break;
		case 'O':
			if (ai.handle >= 0)
				ways.push_back([&a, &w, &s, &ai, i]() {
					Node *n = other_kind(w, s, ai.handle);
					if (!n)
						return std::string();
					a.p = n->h;
					return sfmt("argument %zu a %s", i, World::type_name(n->t));
				});
			break;
		case 'n':
			ways.push_back([&a, i]() { a.p = nullptr; return sfmt("argument %zu null", i); });
			break;
		case 'c':
		case 'r': ways.push_back([&a, i]() { a.null = true; return sfmt("output %zu null", i); }); break;
		case 'z':
			zi = i;
			z  = a.z;
			break;
		case 'h':
			if (z == 0)
				break;
			if (strcmp(f.name, "ccs_configuration_space_add_parameters") || i == 2) {
				ways.push_back([&a, i]() { a.null = true; return sfmt("array %zu null", i); });
				ways.push_back([&a, &s, i, z, element]() {
					void *n = nullptr;
					size_t k = s.draw(z);
					memcpy(&a.data[k * sizeof n], &n, sizeof n);
					*element = true;
					return sfmt("element %zu of array %zu null", k, i);
				});
			}
			ways.push_back([&a, &w, &s, &ai, i, z, element]() {
				Node *n = other_kind(w, s, ai.phandle);
				if (!n || ai.phandle < 0)
					return std::string();
				size_t k = s.draw(z);
				memcpy(&a.data[k * sizeof(void *)], &n->h, sizeof(void *));
				*element = true;
				return sfmt("element %zu of array %zu a %s", k, i, World::type_name(n->t));
			});
			break;
		case 'd':
		case 'q':
		case 'w':
		case 'x':
		case 'C':
			if (z > 0)
				ways.push_back([&a, i]() { a.null = true; return sfmt("array %zu null", i); });
			break;
		case 'A':
			if (z > 0)
				ways.push_back([&a, i]() { a.null = true; return sfmt("array %zu null", i); });
			if (c.listed != SIZE_MAX && c.listed > 0)
				ways.push_back([&c, &s, zi, &f]() {
					size_t m  = 1 + s.draw(c.listed); // 1..listed
					m         = m == c.listed ? c.listed - 1 : m;
					if (m == 0)
						return std::string();
					c.s[zi].z = m;
					for (size_t k = zi; k < c.s.size(); k++)
						if (f.tok[k] == 'A') {
							c.set_cap(k, m);
							c.s[k].null = false;
						}
					return sfmt("room for %zu of %zu", m, c.listed);
				});
			break;
		case 'R':
			ways.push_back([&c, zi, &f]() {
				for (size_t k = zi; k < c.s.size(); k++)
					if (strchr("ACR", f.tok[k]))
						c.s[k].null = true;
				c.s[zi].z = 0;
				return std::string("no outputs at all");
			});
			break;
		case 'i':
			if (!strstr(f.name, "_create_") && !strstr(f.name, "set_result") && !strstr(f.name, "set_seed"))
				ways.push_back([&a, &s, i]() {
					a.z = s.coin() ? SIZE_MAX - s.draw(3) : s.coin() ? 1ull << (32 + s.draw(31)) : 50 + s.draw(1000);
					return sfmt("index %zu is %llu", i, (unsigned long long)a.z);
				});
			break;
		case 'e':
			if (strcmp(f.name, "ccs_parameter_convert_samples") && strcmp(f.name, "ccs_objective_space_add_objective") && a.arg)
				ways.push_back([&a, &s, i]() {
					a.z = s.coin() ? (uint64_t)-1 - s.draw(3) : 100 + s.draw(1000);
					return sfmt("enumeration %zu is %lld", i, (long long)a.z);
				});
			break;
		default: break;
		}
	}
	if (ways.empty())
		return "";
	return ways[s.draw(ways.size())]();
}

static void
body(Src &s)
{
	World  w;
	w.src     = &s;
	size_t ng = 1 + s.draw(2);
	for (size_t i = 0; i < ng; i++) {
		K k = (K)s.draw(K_KINDS);
		s.log("%s", k_names[k]);
		if (k == K_RNG) {
			Pool p;
			gen_rng(s, p);
			w.take(p);
		} else
			w.add_graph(s, k);
	}
	size_t n = 1 + s.draw(16), refused = 0;
	for (size_t step = 0; step < n; step++) {
		w.walk();
		const Fn &f = pick_fn(w, s, s.coin());
		Call      c;
		if (!gen_args(w, s, f, c))
			continue;
		bool        element = false;
		std::string bad;
		if (s.chance(3, 4))
			bad = corrupt(w, s, c, &element);
		s.log("%s %s", c.str().c_str(), bad.c_str());
		// looking at the objects may make them grow what they cache
		snapshot(w, true);
		bool        rng   = !bad.empty(); // a call that fails half way may have drawn numbers
		std::string a     = snapshot(w, rng);
		long        live  = pbt::vp_live_allocs;
		ccs_result_t r    = c.run();
		if (r >= 0) {
			CHECK(bad.empty(), "%s with %s was accepted", f.name, bad.c_str());
			for (auto o : c.created())
				w.own(o, false);
			continue;
		}
		s.log("  refused: %s", rname(r));
		s.feature(pbt::hstr(f.name + bad));
		refused++;
		s.label_if(bad.empty(), "refused without an invalid argument of the harness");
		s.label_if(!bad.empty(), "refused invalid argument");
		ccs_error_stack_t e = ccs_get_thread_error();
		CHECK(e, "%s was refused without an error", f.name);
		ccs_result_t code = CCS_RESULT_SUCCESS;
		OK(ccs_error_stack_get_code(e, &code));
		CHECK(code == r, "%s returned %s but recorded %s", f.name, rname(r), rname(code));
		OK(ccs_release_object(e));
		CHECK(c.created().empty(), "%s was refused but handed out an object", f.name);
		size_t elems = 0;
		for (size_t i = 0; i < c.s.size(); i++)
			if (c.s[i].tok == 'h')
				elems = std::max(elems, c.s[i].data.size() / sizeof(void *));
		bool batch = elems > 1 && (strstr(f.name, "add_") || strstr(f.name, "_tell"));
		if (batch)
			continue;
		std::string b   = snapshot(w, rng);
		long        now = pbt::vp_live_allocs;
		if (now != live || a != b) {
			CHECK(a == b, "%s was refused (%s) but changed an object: %s", f.name, rname(r), diff(a, b).c_str());
			// strings seen are kept by their parameter: once
			ccs_result_t r2 = c.run();
			ccs_clear_thread_error();
			CHECK(r2 == r, "%s was refused with %s, then %s", f.name, rname(r), rname(r2));
			CHECK(pbt::vp_live_allocs == now, "%s was refused but %ld allocations remain", f.name, pbt::vp_live_allocs - now);
		}
	}
	s.nontrivial(refused > 0);
}

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P05";
	c.rule = "one or two generated object graphs (23 kinds) and up to 16 public calls out of a table of the public functions, three quarters with one argument made invalid (null, wrong kind, out of range, too small); non-trivial: at least one call was refused";
	c.assumptions = {"handles are null or live objects (of any kind)", "functions on contexts and bindings in general take the kind of their handle on trust", "what user defined tuners do with invalid arguments is up to them"};
	c.quick_cases    = 6000;
	c.thorough_cases = 400000;
	c.quick_cap_s    = 45;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
