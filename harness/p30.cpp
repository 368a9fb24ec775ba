// P30: running out of memory is reported, not fatal.
// Public calls on generated objects with one of the library's allocations made
// to fail.
#include "world.hpp"
#include <functional>
using namespace world;

static std::string
snapshot(World &w)
{
	std::set<Node *> roots;
	Dump             d;
	d.raw          = true;
	d.no_rng_state = true; // a call that fails half way may have drawn numbers
	for (auto n : w.live) {
		if (n->user)
			roots.insert(n);
		if (n->t == CCS_OBJECT_TYPE_MAP)
			for (auto o : links(n->h))
				roots.insert(w.by_h.at(o));
		if (n->t == CCS_OBJECT_TYPE_TREE_SPACE) {
			ccs_tree_space_type_t t;
			OK(ccs_tree_space_get_type((ccs_tree_space_t)n->h, &t));
			d.no_growth |= t == CCS_TREE_SPACE_TYPE_DYNAMIC;
		}
	}
	for (auto n : w.live)
		if (roots.count(n)) {
			d.any(n->h);
			d.out += "\n";
		}
	return d.out;
}

// Large collections: the tables behind them grow now and then, and every
// allocation of one call out of a range is made to fail in turn.
template <typename F>
static ccs_result_t
until_ok(F f, size_t &failed, const std::function<void(long, ccs_result_t)> &check)
{
	for (long at = 1;; at++) {
		pbt::vp_failed  = 0;
		pbt::vp_fail_at = at;
		ccs_result_t r  = f();
		pbt::vp_fail_at = 0;
		if (!pbt::vp_failed)
			return r;
		failed++;
		CHECK(r == CCS_RESULT_ERROR_OUT_OF_MEMORY, "a call returned %s although its allocation %ld failed", rname(r), at);
		ccs_clear_thread_error();
		check(at, r);
	}
}

static void
bulk(Src &s)
{
	size_t failed = 0;
	long   before = pbt::vp_live_allocs;
	size_t what   = s.draw(5);
	size_t n      = 1 + s.draw(s.coin() ? 900 : 330);
	size_t first  = s.draw(n);
	size_t every  = 1 + s.draw(4);
	bool   str    = s.coin();
	long   mul    = 1 + (long)s.draw(1000);
	std::vector<std::string> names;
	for (size_t i = 0; i < n; i++)
		names.push_back("v" + std::to_string(mul * (long)i));
	auto datum = [&](size_t i) { return str ? ccs_string(names[i].c_str()) : ccs_int(mul * (long)i); };
	auto same  = [&](const ccs_datum_t &d, size_t i) {
                return str ? d.type == CCS_DATA_TYPE_STRING && names[i] == d.value.s : d.type == CCS_DATA_TYPE_INT && d.value.i == mul * (long)i;
	};
	static const char *const ws[] = {"enumerated parameter", "map", "string parameter", "space", "space"};
	s.log("%s, %zu elements%s, failures from %zu on, one in %zu", ws[what], n, str ? " (strings)" : "", first, every);
	s.label(ws[what]);
	if (what == 0) {
		std::vector<ccs_datum_t> v;
		for (size_t i = 0; i < n; i++)
			v.push_back(datum(i));
		size_t          k  = s.draw(3);
		ccs_parameter_t p  = NULL;
		auto            f  = [&]() {
                        return k == 0 ? ccs_create_categorical_parameter("p", n, v.data(), 0, &p) :
                               k == 1 ? ccs_create_ordinal_parameter("p", n, v.data(), 0, &p) :
                                        ccs_create_discrete_parameter("p", n, v.data(), 0, &p);
		};
		if (k == 2 && str) {
			str = false;
			for (size_t i = 0; i < n; i++)
				v[i] = datum(i);
		}
		OK(until_ok(f, failed, [&](long at, ccs_result_t) {
			CHECK(!p, "a creation failed but handed out a parameter");
			CHECK(pbt::vp_live_allocs == before, "the creation of a parameter with %zu values ran out of memory at allocation %ld and %ld allocations remain", n, at, pbt::vp_live_allocs - before);
		}));
		for (size_t i = 0; i < n; i++) {
			ccs_bool_t b;
			OK(ccs_parameter_check_value(p, v[i], &b));
			CHECK(b, "possible value %zu of %zu refused", i, n);
		}
		ccs_release_object(p);
	} else if (what == 1) {
		ccs_map_t m;
		OK(ccs_create_map(&m));
		std::vector<bool> in(n, false);
		size_t            cnt = 0;
		auto check = [&](size_t i) {
			size_t c;
			OK(ccs_map_get_keys(m, 0, NULL, &c));
			CHECK(c == cnt, "a map holds %zu entries, %zu expected", c, cnt);
			ccs_datum_t d;
			OK(ccs_map_get(m, datum(i), &d));
			CHECK(in[i] ? same(d, i) : d.type == CCS_DATA_TYPE_NONE, "element %zu of a map is wrong after running out of memory", i);
		};
		for (size_t i = 0; i < n; i++) {
			ccs_datum_t d = datum(i);
			if (str && s.coin())
				d.flags |= CCS_DATUM_FLAG_TRANSIENT;
			if (i < first || i % every) {
				OK(ccs_map_set(m, d, d));
			} else {
				OK(until_ok([&]() { return ccs_map_set(m, d, d); }, failed, [&](long, ccs_result_t) {
					check(i);
					check((i * 7 + 3) % n);
				}));
			}
			in[i] = true;
			cnt++;
			if (i >= first && s.chance(1, 16)) {
				size_t j = s.draw(i + 1);
				if (in[j]) {
					OK(ccs_map_del(m, datum(j)));
					in[j] = false;
					cnt--;
				}
			}
		}
		for (size_t i = 0; i < n; i++)
			check(i);
		ccs_release_object(m);
	} else if (what == 2) {
		ccs_parameter_t p;
		OK(ccs_create_string_parameter("p", &p));
		std::vector<ccs_datum_t> got(n);
		for (size_t i = 0; i < n; i++) {
			std::string tmp = names[i];
			ccs_datum_t d   = ccs_string(tmp.c_str());
			d.flags |= CCS_DATUM_FLAG_TRANSIENT;
			ccs_bool_t ok;
			auto       f = [&]() { return ccs_parameter_validate_value(p, d, &got[i], &ok); };
			if (i < first || i % every) {
				OK(f());
			} else {
				long live = pbt::vp_live_allocs;
				OK(until_ok(f, failed, [&](long at, ccs_result_t) {
					CHECK(pbt::vp_live_allocs == live, "a string parameter ran out of memory at allocation %ld and %ld allocations remain", at, pbt::vp_live_allocs - live);
				}));
			}
			CHECK(ok, "a string parameter refuses a string");
		}
		for (size_t i = 0; i < n; i++) {
			CHECK(got[i].type == CCS_DATA_TYPE_STRING && names[i] == got[i].value.s, "string %zu of a string parameter is not what was stored", i);
			ccs_datum_t d = ccs_string(names[i].c_str()), d2;
			d.flags |= CCS_DATUM_FLAG_TRANSIENT;
			ccs_bool_t ok;
			long       live = pbt::vp_live_allocs;
			OK(ccs_parameter_validate_value(p, d, &d2, &ok));
			CHECK(ok && names[i] == d2.value.s && pbt::vp_live_allocs == live, "string %zu of a string parameter is stored twice", i);
		}
		ccs_release_object(p);
	} else {
		ccs_context_t                c;
		size_t                       k = s.draw(3);
		std::vector<ccs_parameter_t> ps(n);
		if (k == 0)
			OK(ccs_create_configuration_space("c", (ccs_configuration_space_t *)&c));
		else if (k == 1)
			OK(ccs_create_features_space("c", (ccs_features_space_t *)&c));
		else
			OK(ccs_create_objective_space("c", (ccs_objective_space_t *)&c));
		auto check = [&](size_t cnt) {
			size_t c1;
			OK(ccs_context_get_num_parameters(c, &c1));
			CHECK(c1 == cnt, "a space has %zu parameters, %zu expected", c1, cnt);
			size_t j = (cnt * 7 + 3) % n;
			if (j < cnt) {
				ccs_parameter_t q;
				OK(ccs_context_get_parameter_by_name(c, names[j].c_str(), &q));
				CHECK(q == ps[j], "parameter %zu of a space is not the one added", j);
				OK(ccs_context_get_parameter_index(c, ps[j], &c1));
				CHECK(c1 == j, "parameter %zu of a space has index %zu", j, c1);
			}
		};
		for (size_t i = 0; i < n; i++) {
			OK(ccs_create_numerical_parameter(names[i].c_str(), CCS_NUMERIC_TYPE_INT, NI(0), NI(3), NI(0), NI(1), &ps[i]));
			ccs_parameter_t q = ps[i];
			auto            f = [&]() {
                                return k == 0 ? ccs_configuration_space_add_parameter((ccs_configuration_space_t)c, q, NULL) :
                                       k == 1 ? ccs_features_space_add_parameter((ccs_features_space_t)c, q) :
                                                ccs_objective_space_add_parameter((ccs_objective_space_t)c, q);
			};
			if (i < first || i % every) {
				OK(f());
			} else {
				OK(until_ok(f, failed, [&](long, ccs_result_t) { check(i); }));
				check(i + 1);
			}
			int32_t rc;
			OK(ccs_object_get_refcount(q, &rc));
			CHECK(rc == 2, "a parameter added to a space has %d references", rc);
		}
		for (size_t i = 0; i < n; i++) {
			ccs_parameter_t q;
			size_t          j;
			OK(ccs_context_get_parameter(c, i, &q));
			CHECK(q == ps[i], "parameter %zu of a space is not the one added", i);
			OK(ccs_context_get_parameter_index_by_name(c, names[i].c_str(), &j));
			CHECK(j == i, "parameter %zu of a space has index %zu", i, j);
		}
		ccs_release_object(c);
		for (auto q : ps)
			ccs_release_object(q);
	}
	CHECK(pbt::vp_live_allocs == before, "%ld allocations remain after everything was released", pbt::vp_live_allocs - before);
	s.feature(what * 8 + (n > 150) * 4 + (n > 320) * 2 + (failed > 100));
	s.nontrivial(failed > 0);
}

static void
body(Src &s)
{
	if (s.chance(1, 10)) {
		bulk(s);
		return;
	}
	long   before = pbt::vp_live_allocs;
	size_t failed = 0;
	{
		World  w;
		w.src     = &s;
		size_t ng = 1 + s.draw(2);
		for (size_t i = 0; i < ng; i++) {
			K k = (K)s.draw(K_KINDS);
			s.log("%s", k_names[k]);
			if (k == K_RNG) {
				Pool p;
				gen_rng(s, p);
				w.take(p);
			} else
				w.add_graph(s, k);
		}
		size_t n = 1 + s.draw(10);
		for (size_t step = 0; step < n; step++) {
			w.walk();
			const Fn &f = pick_fn(w, s, !s.chance(1, 6));
			Call      c;
			if (!gen_args(w, s, f, c))
				continue;
			size_t elems = 0;
			for (size_t i = 0; i < c.s.size(); i++)
				if (c.s[i].tok == 'h')
					elems = std::max(elems, c.s[i].data.size() / sizeof(void *));
			bool batch = elems > 1 && (strstr(f.name, "add_") || strstr(f.name, "_tell"));
			long at = s.chance(1, 5) ? 0 : 1 + (long)s.draw(s.coin() ? 4 : s.coin() ? 12 : 60);
			s.log("%s allocation %ld fails", c.str().c_str(), at);
			snapshot(w);
			std::string a    = snapshot(w);
			long        live = pbt::vp_live_allocs;
			pbt::vp_failed   = 0;
			pbt::vp_fail_at  = at;
			ccs_result_t r   = c.run();
			pbt::vp_fail_at  = 0;
			bool hit         = pbt::vp_failed != 0;
			s.log("  %s%s", rname(r), hit ? " (an allocation failed)" : "");
			if (!hit) {
				if (r < 0)
					ccs_clear_thread_error();
				else
					for (auto o : c.created())
						w.own(o, false);
				continue;
			}
			if (r >= 0 && strstr(f.name, "_tell")) {
				// the random tuners pass over an evaluation they cannot compare
				s.label("failed comparison passed over");
				continue;
			}
			failed++;
			s.label_if(r == CCS_RESULT_ERROR_OUT_OF_MEMORY, "reported as out of memory");
			s.label_if(r < 0 && r != CCS_RESULT_ERROR_OUT_OF_MEMORY, "reported as another error");
			s.feature(pbt::hstr(f.name) + (uint64_t)at);
			CHECK(r < 0, "%s succeeded although its allocation %ld failed", f.name, at);
			ccs_clear_thread_error();
			CHECK(c.created().empty(), "%s failed but handed out an object", f.name);
			std::string b   = snapshot(w);
			long        now = pbt::vp_live_allocs;
			if (!batch)
				CHECK(a == b, "%s ran out of memory (%s) but changed an object: %s", f.name, rname(r), diff(a, b).c_str());
			// memory is back: what is left must not grow, and the call does what it would have done
			if (!batch && now != live) {
				long k = 0; // room an array keeps may be obtained once
				for (; k < 6; k++) {
					now             = pbt::vp_live_allocs;
					pbt::vp_fail_at = at;
					r               = c.run();
					pbt::vp_fail_at = 0;
					ccs_clear_thread_error();
					if (r >= 0)
						for (auto o : c.created())
							w.own(o, false);
					if (r >= 0 || pbt::vp_live_allocs == now)
						break;
				}
				CHECK(k < 6, "%s ran out of memory at allocation %ld and %ld allocations remain each time", f.name, at, pbt::vp_live_allocs - now);
			}
			if (s.coin()) {
				ccs_result_t r1 = r;
				r               = c.run();
				if (r < 0)
					ccs_clear_thread_error();
				else
					for (auto o : c.created())
						w.own(o, false);
				s.log("  then %s", rname(r));
				CHECK(batch || r < 0 || r1 >= 0 || r1 == CCS_RESULT_ERROR_OUT_OF_MEMORY || r1 == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "%s ran out of memory and reports %s", f.name, rname(r1));
			}
		}
		w.walk();
		snapshot(w);
	}
	ccs_clear_thread_error();
	CHECK(pbt::vp_live_allocs == before, "%ld allocations remain after everything was released", pbt::vp_live_allocs - before);
	s.nontrivial(failed > 0);
}

int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P30";
	c.rule = "one or two generated object graphs (23 kinds) and up to 10 public calls out of a table of the public functions, four fifths with one of the allocations of the library made to fail; or (one case in ten) a collection of up to 900 elements filled with every allocation of some of the calls failing in turn; non-trivial: at least one allocation failed";
	c.assumptions = {"one allocation fails at a time", "allocations inside GSL do not fail"};
	c.quick_cases    = 8000;
	c.thorough_cases = 400000;
	c.quick_cap_s    = 45;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
