// P03: deserializing any bytes is memory safe and leaves nothing behind.
#include "objs.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace objs;

// ranges of the stream taken by the state of a generator: opaque to the library
static void
blobs(const std::string &st, const Graph &g, std::vector<std::pair<size_t, size_t>> &out)
{
	std::vector<ccs_rng_t> rs;
	ccs_rng_t              r = nullptr;
	if (g.kind == K_RNG)
		rs.push_back((ccs_rng_t)g.root.h);
	if (g.cs.h && ccs_configuration_space_get_rng(g.cs.h, &r) == CCS_RESULT_SUCCESS)
		rs.push_back(r);
	if (g.ts.h && ccs_tree_space_get_rng((ccs_tree_space_t)g.ts.h, &r) == CCS_RESULT_SUCCESS)
		rs.push_back(r);
	ccs_clear_thread_error();
	for (auto x : rs) {
		gsl_rng *gr = nullptr;
		OK(ccs_rng_get_gsl_rng(x, &gr));
		std::string b((const char *)gsl_rng_state(gr), gsl_rng_size(gr));
		size_t      at = st.find(b);
		if (at != std::string::npos)
			out.push_back({at, b.size()});
	}
}
// new generators for whatever samples: a corrupted state is out of reach of the library's checks
static void
reseed(ccs_object_t o)
{
	ccs_object_type_t t;
	OK(ccs_object_get_type(o, &t));
	Pool pool;
	ccs_configuration_space_t cs = nullptr;
	ccs_tree_space_t          ts = nullptr;
	switch (t) {
	case CCS_OBJECT_TYPE_RNG: OK(ccs_rng_set_seed((ccs_rng_t)o, 5)); break;
	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: cs = (ccs_configuration_space_t)o; break;
	case CCS_OBJECT_TYPE_TREE_SPACE: ts = (ccs_tree_space_t)o; break;
	case CCS_OBJECT_TYPE_TUNER: OK(ccs_tuner_get_configuration_space((ccs_tuner_t)o, &cs)); break;
	case CCS_OBJECT_TYPE_FEATURES_TUNER: OK(ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)o, &cs)); break;
	case CCS_OBJECT_TYPE_TREE_TUNER: OK(ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)o, &ts)); break;
	default: break;
	}
	if (cs)
		OK(ccs_configuration_space_set_rng(cs, make_rng(pool, 5)));
	if (ts)
		OK(ccs_tree_space_set_rng(ts, make_rng(pool, 5)));
}
static size_t
n_keys(ccs_map_t m)
{
	size_t n = 0;
	if (m)
		OK(ccs_map_get_keys(m, 0, nullptr, &n));
	return n;
}

static const unsigned char magic_bytes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x40, 0x20, 0x3f};
static void
put_leb(std::string &o, uint64_t v)
{
	do {
		unsigned char b = v & 0x7f;
		v >>= 7;
		o += (char)(v ? b | 0x80 : b);
	} while (v);
}
static uint64_t
big(Src &s)
{
	switch (s.draw(6)) {
	case 0: return s.draw(20);
	case 1: return s.draw(5000);
	case 2: return (uint64_t)1 << s.draw(64);
	case 3: return ((uint64_t)1 << s.draw(64)) - 1;
	case 4: return ~(uint64_t)0 / (1 + s.draw(64)) + s.draw(3);
	default: return (uint64_t)-1 - s.draw(20);
	}
}
static void
body(Src &s)
{
	long base = pbt::vp_live_allocs;
	{
		Graph g;
		Pool  pool, copies;
		K     kind = (K)s.draw(K_KINDS);
		gen_any(s, pool, g, kind);
		s.label(k_names[kind]);
		SerCb cb;
		bool  have_ud = s.chance(1, 4);
		if (have_ud) {
			cb.use = true;
			for (auto o : pool.objs)
				if (s.chance(1, 2))
					OK(ccs_object_set_user_data(o, ud_make("u" + s.text(10))));
		}
		Bytes       rb = serialize(g.root.h, &cb);
		std::string st = rb.str();
		std::string other;
		std::vector<std::pair<size_t, size_t>> skip;
		blobs(st, g, skip);
		// mutations
		size_t nm = s.size(1, 4);
		auto   where = [&](size_t n) {
			size_t at = s.draw(n ? n : 1);
			for (auto &b : skip)
				if (at >= b.first && at < b.first + b.second)
					at = s.coin() ? b.first - 1 - s.draw(20) : b.first + b.second + s.draw(40);
			if (s.chance(1, 12)) // the bytes before the state
				for (auto &b : skip)
					at = b.first - 1 - s.draw(4);
			return n ? at % n : 0;
		};
		size_t full = st.size();
		bool   fix  = !s.chance(1, 4); // the announced size is made to match
		for (size_t i = 0; i < nm; i++) {
			size_t n = st.size();
			size_t at = s.chance(1, 20) ? s.draw(std::min<size_t>(n ? n : 1, 14)) : where(n);
			if (!s.chance(1, 10) && at < 13 && n > 13)
				at = 13 + at % (n - 13);
			switch (s.weighted({6, 6, 6, 3, 3, 3, 2, 2, 2, 2, 4, 4})) {
			case 0:
				if (n)
					st[at] ^= (char)(1 << s.draw(8));
				break;
			case 1:
				if (n)
					st[at] = (char)magic_bytes[s.draw(sizeof magic_bytes)];
				break;
			case 2:
				if (n)
					st[at] = (char)((unsigned char)st[at] + (s.coin() ? 1 : -1));
				break;
			case 3: st = st.substr(0, at); break;
			case 4: { // a compressed integer put in, or in place of one
				std::string v;
				put_leb(v, big(s));
				st.replace(std::min(at, n), s.draw(2), v);
				break;
			}
			case 5: st.erase(std::min(at, n), s.size(1, 9)); break;
			case 6: { // a block repeated
				size_t l = s.size(1, 40);
				std::string b = st.substr(std::min(at, n), l);
				st.insert(where(n), b);
				break;
			}
			case 7: { // a block of another object
				if (other.empty()) {
					Graph g2;
					Pool  p2;
					gen_any(s, p2, g2, (K)s.draw(K_KINDS));
					other = serialize(g2.root.h, nullptr).str();
				}
				size_t f = 13 + s.draw(other.size() > 13 ? other.size() - 13 : 1);
				st.replace(std::min(at, n), s.coin() ? s.draw(30) : n, other.substr(std::min(f, other.size()), s.coin() ? s.draw(60) : other.size()));
				break;
			}
			case 8: { // eight raw bytes
				uint64_t v = big(s);
				double   d = s.f64();
				if (s.coin())
					memcpy(&v, &d, 8);
				for (size_t k = 0; k < 8 && at + k < n; k++)
					st[at + k] = (char)(v >> (8 * k));
				break;
			}
			case 9:
				st.append(s.draw(20), (char)s.draw(256));
				break;
			case 11: { // a part named instead of another
				if (pool.objs.size() < 2)
					break;
				ccs_object_t a = pool.objs[s.draw(pool.objs.size())], b = pool.objs[s.draw(pool.objs.size())];
				std::string  ha, hb;
				put_leb(ha, (uint64_t)(uintptr_t)a);
				put_leb(hb, (uint64_t)(uintptr_t)b);
				std::vector<size_t> ps;
				for (size_t p = st.find(ha); p != std::string::npos; p = st.find(ha, p + 1))
					ps.push_back(p);
				if (ps.empty())
					break;
				st.replace(s.coin() ? ps.back() : s.pick(ps), ha.size(), hb);
				s.label("another part named");
				break;
			}
			default: { // the record of a part, with a count that may match
				auto rec_of = [&]() -> std::string {
					ccs_object_t o = pool.objs[s.draw(pool.objs.size())];
					if (o == g.root.h)
						return "";
					std::string r;
					try {
						r = serialize(o, &cb).str();
					} catch (const pbt::Fail &) { // not all parts can
						ccs_clear_thread_error();
					}
					return r.size() > 13 ? r.substr(13) : "";
				};
				std::string rec = pool.objs.empty() ? "" : rec_of();
				size_t      p   = rec.empty() ? std::string::npos : st.find(rec);
				if (p == std::string::npos)
					break;
				size_t len = std::min(rec.size() + s.draw(7), n - p);
				if (s.coin()) { // with the indexes that follow it
					size_t e = p + rec.size();
					if (e < n && (unsigned char)st[e] < 8)
						len = std::min(rec.size() + 1 + (unsigned char)st[e], n - p);
				}
				size_t cp  = s.coin() ? 13 + s.draw(60) : p - 1 - s.draw(40);
				if (s.coin()) { // something that looks like a count
					std::vector<size_t> small;
					for (size_t k = 13; k < p && k < 90; k++)
						if (st[k] > 0 && st[k] < 12)
							small.push_back(k);
					if (!small.empty())
						cp = s.pick(small);
				}
				int    d   = 0;
				std::string r = st.substr(p, len);
				switch (s.draw(3)) {
				case 0: // repeated
					d = 1 + (int)s.draw(3);
					for (int k = 0; k < d; k++)
						st.insert(p + len, r);
					break;
				case 1: // left out
					st.erase(p, len);
					d = -1;
					break;
				default: { // another in its place
					std::string q = rec_of();
					if (!q.empty())
						st.replace(p, rec.size(), q);
				}
				}
				if (cp >= 13 && cp < p && cp < st.size() && !s.chance(1, 4))
					st[cp] = (char)((unsigned char)st[cp] + d);
				s.label("record of a part");
				break;
			}
			}
			if (st.size() > 24000)
				st.resize(24000);
		}
		if (s.chance(1, 40)) { // anything
			st.clear();
			size_t n = s.draw(80);
			for (size_t i = 0; i < n; i++)
				st += (char)s.draw(256);
			if (s.coin() && n > 4)
				st.replace(0, 4, rb.str().substr(0, 4));
		}
		if (fix && st.size() >= 12)
			for (int k = 0; k < 8; k++)
				st[4 + k] = (char)((uint64_t)st.size() >> (56 - 8 * k));
		{ // the byte order of the size field of the valid stream decides
			uint64_t le = 0;
			std::string v = rb.str();
			for (int k = 0; k < 8; k++)
				le |= (uint64_t)(unsigned char)v[4 + k] << (8 * k);
			if (le == full && fix && st.size() >= 12)
				for (int k = 0; k < 8; k++)
					st[4 + k] = (char)((uint64_t)st.size() >> (8 * k));
		}
		s.log("%s, %zu bytes instead of %zu\n", k_names[kind], st.size(), full);
		if (s.verbose) {
			std::string v = rb.str(), l;
			for (size_t i = 0; i < st.size() && i < 4000; i++)
				l += sfmt("%s%02x%s", i % 32 ? " " : "\n", (unsigned char)st[i], i < v.size() && v[i] == st[i] ? "" : "*");
			s.log("%s\n", l.c_str());
		}
		bool changed = st != rb.str();
		ccs_map_t map = nullptr;
		if (!g.deps.empty() || s.coin()) {
			OK(ccs_create_map(&map));
			copies.add(map);
			for (auto &d : g.deps)
				if (!s.chance(1, 30))
					OK(ccs_map_set(map, handle_key(d.h), ccs_object(d.h)));
		}
		bool         vec  = !s.chance(1, 20);
		void        *vect = vec ? g.root.vector : nullptr;
		// a corrupted stream can ask for another kind of vector: the callbacks decline, see objs.hpp
		void *padded[64] = {};
		if (vect) {
			size_t n = g.root.vector == &g.tv ? sizeof g.tv : g.root.vector == &g.fv ? sizeof g.fv : g.root.vector == &g.ttv ? sizeof g.ttv : sizeof g.dv;
			memcpy(padded, vect, n);
			vect = padded;
		}
		void        *data = g.fresh(g.root);
		size_t       ncb  = 0, keys = n_keys(map);
		std::vector<int32_t> rcs;
		auto refs = [&]() {
			std::vector<int32_t> v;
			for (auto o : pool.objs) {
				int32_t r = -1;
				OK(ccs_object_get_refcount(o, &r));
				v.push_back(r);
			}
			return v;
		};
		rcs = refs();
		long         live = pbt::vp_live_allocs;
		ccs_object_t out  = nullptr;
		Bytes        in(st.size());
		memcpy(in.p.get(), st.data(), st.size());
		ccs_result_t r;
		int          fd0 = next_fd();
		if (s.chance(1, 4)) {
			int fd = memfd_create("p03", 0);
			CHECK(fd >= 0 && write(fd, st.data(), st.size()) == (ssize_t)st.size() && lseek(fd, 0, SEEK_SET) == 0, "memfd");
			void       *state = nullptr;
			std::string path  = sfmt("/proc/self/fd/%d", fd);
			switch (s.draw(3)) {
			case 0:
				r = deserialize(&out, nullptr, 0, map, vect, data, have_ud, &ncb, fd);
				s.label("descriptor");
				break;
			case 1:
				r = deserialize(&out, nullptr, 0, map, vect, data, have_ud, &ncb, fd, &state);
				CHECK(!state, "the state of a finished transfer is left");
				s.label("non blocking descriptor");
				break;
			default:
				r = deserialize(&out, nullptr, 0, map, vect, data, have_ud, &ncb, -1, nullptr, path.c_str());
				s.label("file");
			}
			close(fd);
			CHECK(next_fd() == fd0, "a descriptor is left open");
		} else
			r = deserialize(&out, in.p.get(), in.n, map, vect, data, have_ud, &ncb);
		CHECK(in.str() == st, "the input was modified");
		CHECK(r <= 0, "result %d", (int)r);
		s.log("result %d\n", (int)r);
		if (r < 0) {
			CHECK(changed || !vec || r == CCS_RESULT_ERROR_INVALID_HANDLE, "valid input refused");
			ccs_clear_thread_error();
			CHECK(n_keys(map) == keys, "%zu entries left in the handle map", n_keys(map) - keys);
			if (g.deps.empty()) // string parameters keep the values they have seen
				CHECK(pbt::vp_live_allocs == live, "%ld blocks left behind by a failed deserialization (%d)", pbt::vp_live_allocs - live, (int)r);
			CHECK(refs() == rcs, "references left behind by a failed deserialization");
			s.label("refused");
			s.nontrivial(changed);
		} else {
			CHECK(out, "no object");
			Dep copy = g.root;
			copy.h   = out;
			ccs_object_type_t t;
			OK(ccs_object_get_type(out, &t));
			copies.add(out);
			int32_t rc = 0;
			OK(ccs_object_get_refcount(out, &rc));
			CHECK(rc == 1 + (int32_t)(n_keys(map) - keys), "%d references", (int)rc);
			in = Bytes(0);
			// it is an object like any other
			reseed(out);
			std::vector<ccs_object_t> ext;
			for (auto &d : g.deps)
				ext.push_back(d.h);
			dump_wild()      = false;
			std::string want = dump(out, ext, have_ud);
			s.log("%s\n", want.c_str());
			if (!dump_wild())
				behave(out, 3);
			CHECK(ser_size(out, &cb) > 0, "size");
			serialize(out, &cb);
			dump(out, ext, have_ud);
			s.label(changed ? "accepted" : "unchanged");
			s.nontrivial(changed);
			s.feature(pbt::hstr(want));
		}
		s.feature(pbt::hstr(st));
	}
	CHECK(pbt::vp_live_allocs == base, "%ld blocks left behind", pbt::vp_live_allocs - base);
}
int
main(int argc, char **argv)
{
	pbt::Config c;
	c.property = "P03";
	c.rule = "streams of objects of 23 kinds, with one to four mutations each (bit flips, chosen bytes, compressed integers of any size, truncation, deletion, repetition, splices of other streams, raw words and floats, wrong sizes), or plain noise, are deserialized from an exactly sized buffer or a descriptor; a refusal must leave no block, reference or map entry, an accepted object must bear every accessor, sampling, suggestion and serialization and be released; non-trivial: the bytes differ from the valid ones";
	c.assumptions = {"the state of a random number generator is an opaque blob of GSL: objects read from corrupted bytes are given a new generator before they sample", "streams of at most 24000 bytes", "allocations above 1 GB fail"};
	c.quick_cases    = 60000;
	c.thorough_cases = 600000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 700;
	c.body           = body;
	return pbt::run_main(argc, argv, c);
}
