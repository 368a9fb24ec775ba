// P01: serialization round trips every kind of object.
#include "objs.hpp"
using namespace objs;

struct Gen {
	Graph g;
	Pool  pool;
};
static void
body(Src &s)
{
	long   base = pbt::vp_live_allocs;
	size_t rounds = 0;
	{
		Graph g;
		Pool  pool, copies;
		K     kind = (K)s.draw(K_KINDS);
		gen_any(s, pool, g, kind);
		s.label(k_names[kind]);
		// user data on some of the objects
		SerCb cb;
		bool  own = false, have_ud = s.chance(1, 3);
		if (have_ud) {
			cb.use = s.coin();
			for (auto o : pool.objs)
				if (s.chance(1, 3)) {
					std::string t = "u" + s.text(s.chance(1, 8) ? 200 : 10); // empty data are not reported
					OK(ccs_object_set_user_data(o, ud_make(t)));
					if (!cb.use || s.chance(1, 5)) {
						OK(ccs_object_set_serialize_callback(o, ud_ser, nullptr));
						own = true;
					}
				}
			s.label_if(cb.use, "callback as an option");
			s.label_if(own, "callback of the object");
		}
		bool        cut  = s.coin(); // copies keep nothing of the originals
		bool        deep = cut || s.coin(); // what the object depends on is copied too
		uint64_t    seed = s.draw(1 << 20);
		std::vector<ccs_object_t> ext = g.refs, deps;
		if (g.refs.empty())
			for (auto &d : g.deps)
				ext.push_back(d.h);
		Dep         root = g.root;
		std::vector<Dep> from = g.deps;
		std::string want = dump(root.h, ext, have_ud);
		s.log("%s\n%s\n", k_names[kind], want.c_str());
		std::vector<std::string> wdeps;
		for (auto &d : from)
			wdeps.push_back(dump(d.h, {}, have_ud));
		std::string act;
		size_t gens = s.chance(1, 3) ? 2 : 1;
		bool   use0 = cb.use;
		for (size_t gen = 0; gen < gens; gen++, rounds++) {
			std::vector<Bytes> db;
			cb.use = use0 || (gen && have_ud); // the copies have no callback of their own
			for (auto &d : from)
				db.push_back(serialize(d.h, &cb));
			Bytes rb = serialize(root.h, &cb);
			CHECK(serialize(root.h, &cb).str() == rb.str(), "two serializations of the same object differ");
			CHECK(dump(root.h, ext, have_ud) == want, "serializing changed the object: %s",
			      diff(want, dump(root.h, ext, have_ud)).c_str());
			ccs_map_t map = nullptr;
			if (!from.empty() || s.coin()) {
				OK(ccs_create_map(&map));
				copies.add(map);
			}
			std::vector<ccs_object_t> next_ext = g.refs;
			std::vector<Dep>          to;
			size_t                    ncb = 0;
			for (size_t i = 0; i < from.size(); i++) {
				Dep d = from[i];
				if (deep) {
					void       *data = g.fresh(d);
					std::string raw  = db[i].str();
					OK(deserialize(&d.h, db[i].p.get(), db[i].n, map, d.vector, data, have_ud, &ncb));
					copies.add(d.h);
					CHECK(db[i].str() == raw, "the input was modified");
					if (d.ds)
						d.ds = (DState *)data;
					std::string got = dump(d.h, {}, have_ud);
					CHECK(same(got, wdeps[i]), "copy of a %s: %s", k_names[kind], diff(wdeps[i], got).c_str());
					wdeps[i] = got;
					ccs_datum_t m;
					OK(ccs_map_get(map, handle_key(from[i].h), &m));
					CHECK(m.type == CCS_DATA_TYPE_OBJECT && m.value.o == d.h, "the handle map does not lead to the copy");
				} else
					OK(ccs_map_set(map, handle_key(d.h), ccs_object(d.h)));
				to.push_back(d);
				if (g.refs.empty())
					next_ext.push_back(d.h);
			}
			Dep         copy = root;
			void       *data = g.fresh(root);
			std::string raw  = rb.str();
			long        live = pbt::vp_live_allocs;
			(void)live;
			OK(deserialize(&copy.h, rb.p.get(), rb.n, map, root.vector, data, have_ud, &ncb));
			copies.add(copy.h);
			CHECK(rb.str() == raw, "the input was modified");
			if (copy.ds)
				copy.ds = (DState *)data;
			if (copy.us)
				copy.us = (UState *)data;
			ccs_object_type_t t;
			OK(ccs_object_get_type(copy.h, &t));
			CHECK(t == k_types[kind], "a %s came back as type %d", k_names[kind], (int)t);
			int32_t rc = 0;
			OK(ccs_object_get_refcount(copy.h, &rc));
			int32_t mapped = 0;
			if (map) {
				ccs_datum_t m;
				OK(ccs_map_get(map, handle_key(root.h), &m));
				CHECK(m.type == CCS_DATA_TYPE_OBJECT && m.value.o == copy.h, "the handle map does not lead to the copy");
				mapped = 1;
			}
			CHECK(rc == 1 + mapped, "the copy has %d references", (int)rc);
			// nothing of the input is needed any more
			rb = Bytes(0);
			db.clear();
			if (have_ud) { // later generations are written the same way
				if (!cb.use)
					cb.use = true;
			}
			if (gen == 0)
				act = behave(root.h, seed);
			std::string after;
			if (gen == 0)
				after = dump(root.h, ext, have_ud);
			if (cut && g.refs.empty()) {
				pool.release_all();
				s.label("originals gone");
			}
			std::string got = dump(copy.h, next_ext, have_ud);
			CHECK(same(got, want), "copy of a %s: %s", k_names[kind], diff(want, got).c_str());
			want = got;
			root = copy;
			from = to;
			ext  = next_ext;
			if (gen + 1 == gens) {
				std::string a = behave(copy.h, seed);
				CHECK(same(a, act), "the copy of a %s behaves differently: %s", k_names[kind], diff(act, a).c_str());
			}
		}
		s.label_if(gens > 1, "copy of a copy");
		s.feature(pbt::hstr(want));
		s.nontrivial(want.size() > 80);
	}
	CHECK(pbt::vp_live_allocs == base, "%ld blocks left behind", pbt::vp_live_allocs - base);
}
int
main(int argc, char **argv)
{
	large_ok = true;
	pbt::Config c;
	c.property = "P01";
	c.rule = "random objects of 23 kinds with everything they refer to are serialized and deserialized (once or twice in a row, with or without handle map, user state, user data callbacks, and with the originals and the buffers gone), then compared through every accessor and through their next samples and suggestions; non-trivial: the description of the object is longer than 80 characters";
	c.assumptions = {"sharing is compared for the parameters of one space, for spaces and for the evaluations of a tuner; immutable parts (expressions, distributions) may be duplicated", "objects stored in a map come back as identifiers", "a user defined tree tuner over a dynamic tree space is not covered: one vector option serves both"};
	c.quick_cases    = 20000;
	c.thorough_cases = 400000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
