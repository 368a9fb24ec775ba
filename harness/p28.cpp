// P28: a map is a dictionary.  Histories of sets, deletions, clears, lookups
// and enumerations over keys and values of every type, against a model that
// also tracks which strings and objects the map has to keep alive.
#include "gen.hpp"
#include <algorithm>
#include <memory>

struct Obj {
	ccs_object_t h      = nullptr;
	int          refs   = 1; // references held by the harness
	int          killed = 0; // runs of its destruction callback
};
struct Buf { // caller storage of a string that is not transient
	std::unique_ptr<char[]> b;
	size_t                  n = 0;
	~Buf()
	{
		if (b)
			memset(b.get(), '#', n);
	}
};
typedef std::shared_ptr<Buf> BufP;
struct Entry {
	D    k, v;
	bool kown = false, vown = false; // object references owned by the map
	BufP kb, vb;
};
struct Map {
	ccs_map_t          h = nullptr;
	std::vector<Entry> e;
	Entry *find(const D &k)
	{
		for (auto &x : e)
			if (x.k == k)
				return &x;
		return nullptr;
	}
};
struct World {
	std::vector<std::unique_ptr<Obj>> objs;
	std::vector<Map>                  maps;
	long owned(ccs_object_t o) const
	{
		long n = 0;
		for (auto &m : maps)
			if (m.h)
				for (auto &e : m.e)
					n += (e.kown && e.k.o == o) + (e.vown && e.v.o == o);
		return n;
	}
};
static void
destroyed(ccs_object_t, void *u)
{
	((Obj *)u)->killed++;
}
static D
gen_key(Src &s, World &w)
{
	switch (s.draw(14)) {
	case 0: return D::I(s.range(-2, 3));
	case 1: return D::I(s.i64());
	case 2: return D::F((double)s.range(-2, 3));
	case 3: return D::F(s.coin() ? -0.0 : s.f64());
	case 4: return D::B(s.coin());
	case 5: return D::none();
	case 6: return D::inactive();
	case 7: { D d = D::S(""); d.nul = true; return d; }
	case 8: return D::S(s.text(3));
	case 9:
	case 10: return D::S(s.coin() ? "key" : s.coin() ? "" : "keys");
	case 11: return D::S(std::string(s.chance(1, 3) ? s.size(1, 200) : s.size(1, 40), 'a' + (char)s.draw(2)));
	default: {
		std::vector<Obj *> l;
		for (auto &o : w.objs)
			if (!o->killed)
				l.push_back(o.get());
		if (l.empty())
			return D::I(0);
		return D::O(s.pick(l)->h);
	}
	}
}
// hands the value to the library in one of the legal ways
struct Pass {
	D           d;
	ccs_datum_t x;
	bool        own = false; // object, the map takes a reference
	BufP        buf;         // caller storage that has to outlive the entry
	std::unique_ptr<TmpDatum> tmp;
};
static Pass
pass(Src &s, const D &d)
{
	Pass p;
	p.d = d;
	if (d.t == CCS_DATA_TYPE_OBJECT) {
		p.x   = ccs_object((ccs_object_t)d.o);
		p.own = !s.chance(1, 3);
		if (!p.own)
			p.x.flags |= CCS_DATUM_FLAG_ID;
	} else if (d.t == CCS_DATA_TYPE_STRING && !d.nul && s.chance(2, 5)) {
		p.buf    = std::make_shared<Buf>();
		p.buf->n = d.s.size() + 1;
		p.buf->b.reset(new char[p.buf->n]);
		memcpy(p.buf->b.get(), d.s.c_str(), p.buf->n);
		p.x = ccs_string(p.buf->b.get());
	} else {
		p.tmp.reset(new TmpDatum(d, CCS_DATUM_FLAG_TRANSIENT));
		p.x = p.tmp->d;
	}
	return p;
}
static void
check_objects(World &w)
{
	for (auto &o : w.objs) {
		long want = o->refs + w.owned(o->h);
		if (o->killed) {
			CHECK(o->killed == 1, "object %p destroyed %d times", (void *)o->h, o->killed);
			CHECK(want == 0, "object %p was destroyed while it has %ld references", (void *)o->h, want);
			continue;
		}
		CHECK(want > 0, "object %p has no reference left and is still alive", (void *)o->h);
		int32_t rc = -1;
		OK(ccs_object_get_refcount(o->h, &rc));
		CHECK(rc == want, "object %p has %d references, %ld expected", (void *)o->h, rc, want);
	}
}
typedef std::pair<D, D> KV;
static bool
kvless(const KV &a, const KV &b)
{
	return a.first < b.first || (!(b.first < a.first) && a.second < b.second);
}
static void
check_map(Src &s, World &, Map &m)
{
	size_t n = m.e.size(), cnt = (size_t)-1, extra = s.draw(3);
	if (n && s.chance(1, 4)) {
		std::vector<ccs_datum_t> k(n), v(n);
		size_t                   small = s.draw(n);
		if (small || n) {
			ERR(ccs_map_get_pairs(m.h, small, k.data(), v.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
			ERR(ccs_map_get_keys(m.h, small, k.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
			ERR(ccs_map_get_values(m.h, small, v.data(), nullptr), CCS_RESULT_ERROR_INVALID_VALUE);
		}
	}
	ANYERR(ccs_map_get_pairs(m.h, 0, nullptr, nullptr, nullptr));
	ANYERR(ccs_map_get_keys(m.h, 0, nullptr, nullptr));
	ANYERR(ccs_map_get_values(m.h, 0, nullptr, nullptr));
	OK(ccs_map_get_pairs(m.h, 0, nullptr, nullptr, &cnt));
	CHECK(cnt == n, "the map announces %zu pairs, %zu expected", cnt, n);
	cnt = (size_t)-1;
	OK(ccs_map_get_keys(m.h, 0, nullptr, &cnt));
	CHECK(cnt == n, "the map announces %zu keys, %zu expected", cnt, n);
	cnt = (size_t)-1;
	OK(ccs_map_get_values(m.h, 0, nullptr, &cnt));
	CHECK(cnt == n, "the map announces %zu values, %zu expected", cnt, n);
	size_t             sz = n + extra;
	ccs_datum_t        guard = ccs_int(0x5a5a5a5a);
	std::vector<ccs_datum_t> k(sz + 1, guard), v(sz + 1, guard), k2(sz + 1, guard), v2(sz + 1, guard);
	bool                     wc = s.coin();
	cnt = 0;
	OK(ccs_map_get_pairs(m.h, sz, k.data(), v.data(), wc ? &cnt : nullptr));
	CHECK(!wc || cnt == n, "%zu pairs returned, %zu expected", cnt, n);
	OK(ccs_map_get_keys(m.h, sz, k2.data(), nullptr));
	OK(ccs_map_get_values(m.h, sz, v2.data(), nullptr));
	CHECK(D::of(k[sz]) == D::of(guard) && D::of(v[sz]) == D::of(guard) && D::of(k2[sz]) == D::of(guard) &&
		      D::of(v2[sz]) == D::of(guard),
	      "an enumeration wrote past the end of its array");
	for (size_t i = n; i < sz; i++)
		CHECK(D::of(k[i]) == D::none() && D::of(v[i]) == D::none() && D::of(k2[i]) == D::none() && D::of(v2[i]) == D::none(),
		      "the end of the arrays is not none");
	std::vector<KV> got, want;
	std::vector<D>  gk, gv, wk, wv;
	for (size_t i = 0; i < n; i++) {
		for (auto *x : {&k[i], &v[i], &k2[i], &v2[i]})
			CHECK(x->type != CCS_DATA_TYPE_STRING || !(x->flags & CCS_DATUM_FLAG_TRANSIENT), "a string of the map is handed out as transient");
		got.push_back(KV(D::of(k[i]), D::of(v[i])));
		gk.push_back(D::of(k2[i]));
		gv.push_back(D::of(v2[i]));
	}
	for (auto &e : m.e) {
		want.push_back(KV(e.k, e.v));
		wk.push_back(e.k);
		wv.push_back(e.v);
	}
	std::sort(got.begin(), got.end(), kvless);
	std::sort(want.begin(), want.end(), kvless);
	std::sort(gk.begin(), gk.end());
	std::sort(wk.begin(), wk.end());
	std::sort(gv.begin(), gv.end());
	std::sort(wv.begin(), wv.end());
	for (size_t i = 0; i < n; i++) {
		CHECK(got[i].first == want[i].first && got[i].second == want[i].second, "pairs: got %s => %s, expected %s => %s",
		      got[i].first.str().c_str(), got[i].second.str().c_str(), want[i].first.str().c_str(), want[i].second.str().c_str());
	}
	CHECK(gk == wk, "keys: got %s, expected %s", strv(gk).c_str(), strv(wk).c_str());
	CHECK(gv == wv, "values: got %s, expected %s", strv(gv).c_str(), strv(wv).c_str());
}
static void
lookup(Src &s, World &w, Map &m, const D &key)
{
	Pass        p = pass(s, key);
	ccs_bool_t  ex = 7;
	ccs_datum_t v  = ccs_int(99);
	Entry      *e  = m.find(key);
	OK(ccs_map_exist(m.h, p.x, &ex));
	CHECK(ex == (e ? CCS_TRUE : CCS_FALSE), "exist(%s) says %d, %d expected", key.str().c_str(), ex, !!e);
	OK(ccs_map_get(m.h, p.x, &v));
	CHECK(v.type != CCS_DATA_TYPE_STRING || !(v.flags & CCS_DATUM_FLAG_TRANSIENT), "a string of the map is handed out as transient");
	D got = D::of(v), want = e ? e->v : D::none();
	CHECK(got == want, "get(%s) gives %s, %s expected", key.str().c_str(), got.str().c_str(), want.str().c_str());
	(void)w;
}
static void
body(Src &s)
{
	long live0 = pbt::vp_live_allocs;
	{
		World  w;
		size_t nm = s.chance(1, 4) ? 2 : 1;
		for (size_t i = 0; i < nm; i++) {
			Map m;
			OK(ccs_create_map(&m.h));
			w.maps.push_back(std::move(m));
		}
		size_t no = s.size(0, 3);
		for (size_t i = 0; i < no; i++) {
			std::unique_ptr<Obj> o(new Obj);
			if (s.coin())
				OK(ccs_create_rng((ccs_rng_t *)&o->h));
			else
				OK(ccs_create_numerical_parameter("p", CCS_NUMERIC_TYPE_INT, NI(0), NI(5), NI(0), NI(0), (ccs_parameter_t *)&o->h));
			OK(ccs_object_set_destroy_callback(o->h, destroyed, o.get()));
			w.objs.push_back(std::move(o));
		}
		size_t   steps = s.size(1, s.chance(1, 20) ? 200 : 40), replaced = 0, deleted = 0, outlived = 0;
		uint64_t shape = 0;
		size_t   peak  = 0;
		std::vector<D> used;
		bool wide = s.chance(1, 8); // many distinct integer keys
		for (size_t i = 0; i < steps; i++) {
			Map &m = w.maps[s.draw(nm)];
			D    key = wide && s.chance(3, 4) ? D::I(s.range(0, 400)) :
				   !used.empty() && s.coin() ? s.pick(used) : gen_key(s, w);
			if (key.t == CCS_DATA_TYPE_OBJECT) { // only while it lives
				bool alive = false;
				for (auto &o : w.objs)
					alive = alive || (o->h == key.o && !o->killed);
				if (!alive)
					key = D::I(1);
			}
			size_t op = s.weighted({10, 4, 3, 1, 2, 3});
			shape     = pbt::hcomb(shape, op * 131 + (uint64_t)key.t);
			switch (op) {
			case 0: {
				Entry *old = m.find(key);
				D      val = old && s.chance(1, 3) && (old->v.t != CCS_DATA_TYPE_OBJECT) ? old->v : gen_key(s, w);
				if (old && old->v.t == CCS_DATA_TYPE_OBJECT && s.chance(1, 2)) // same object again, perhaps the other way
					for (auto &o : w.objs)
						if (o->h == old->v.o && !o->killed)
							val = old->v;
				Pass pk = pass(s, key), pv = pass(s, val);
				s.log("set m%zu[%s%s] = %s%s\n", (size_t)(&m - &w.maps[0]), key.str().c_str(),
				      pk.buf ? " (caller storage)" : key.t == CCS_DATA_TYPE_OBJECT && !pk.own ? " (id)" : "", val.str().c_str(),
				      pv.buf ? " (caller storage)" : val.t == CCS_DATA_TYPE_OBJECT && !pv.own ? " (id)" : "");
				OK(ccs_map_set(m.h, pk.x, pv.x));
				if (old) {
					m.e.erase(m.e.begin() + (old - &m.e[0]));
					replaced++;
				}
				Entry e;
				e.k    = key;
				e.v    = val;
				e.kown = pk.own;
				e.vown = pv.own;
				e.kb   = pk.buf;
				e.vb   = pv.buf;
				m.e.push_back(std::move(e));
				used.push_back(key);
				peak = std::max(peak, m.e.size());
				break;
			}
			case 1:
				lookup(s, w, m, key);
				break;
			case 2: {
				Pass   p = pass(s, key);
				Entry *e = m.find(key);
				s.log("del %s\n", key.str().c_str());
				if (!e) {
					ERR(ccs_map_del(m.h, p.x), CCS_RESULT_ERROR_INVALID_VALUE);
					break;
				}
				OK(ccs_map_del(m.h, p.x));
				m.e.erase(m.e.begin() + (e - &m.e[0]));
				deleted++;
				break;
			}
			case 3:
				s.log("clear\n");
				OK(ccs_map_clear(m.h));
				m.e.clear();
				break;
			case 4:
				check_map(s, w, m);
				break;
			case 5: { // the caller drops or takes a reference
				std::vector<Obj *> l;
				for (auto &o : w.objs)
					if (!o->killed && o->refs)
						l.push_back(o.get());
				if (l.empty())
					break;
				Obj *o = s.pick(l);
				if (s.coin()) {
					OK(ccs_retain_object(o->h));
					o->refs++;
				} else {
					// entries that only identify it need it no more
					s.log("release %p\n", (void *)o->h);
					o->refs--;
					if (w.owned(o->h))
						outlived++;
					OK(ccs_release_object(o->h));
				}
				break;
			}
			}
			check_objects(w);
		}
		for (auto &m : w.maps) {
			check_map(s, w, m);
			std::vector<D> ks;
			for (auto &e : m.e)
				ks.push_back(e.k);
			for (auto &k : ks)
				if (k.t != CCS_DATA_TYPE_OBJECT)
					lookup(s, w, m, k);
		}
		// release everything, in any order
		std::vector<int> order;
		for (size_t i = 0; i < nm; i++)
			order.push_back((int)i);
		if (nm == 2 && s.coin())
			std::swap(order[0], order[1]);
		for (int i : order) {
			OK(ccs_release_object(w.maps[(size_t)i].h));
			w.maps[(size_t)i].h = nullptr;
			check_objects(w);
		}
		for (auto &o : w.objs)
			while (o->refs) {
				o->refs--;
				OK(ccs_release_object(o->h));
				check_objects(w);
			}
		s.nontrivial(replaced && (deleted || outlived));
		s.feature(shape);
		s.label_if(replaced, "value replaced");
		s.label_if(outlived, "object kept alive by the map only");
		s.label_if(peak > 12, "more than 12 entries");
	}
	CHECK(pbt::vp_live_allocs == live0, "%ld allocations remain", pbt::vp_live_allocs - live0);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P28";
	c.rule = "histories of 1 to 200 operations on one or two maps; non-trivial: a key was set again and a key was deleted or an object was kept alive by a map only";
	c.assumptions = {"a string that is not given as transient is kept alive by its owner while it is in the map"};
	c.quick_cases    = 20000;
	c.thorough_cases = 1000000;
	c.quick_cap_s    = 40;
	c.thorough_cap_s = 600;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
