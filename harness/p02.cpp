// P02: all serialization transports agree and never write out of bounds.
#include "objs.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace objs;

// a scripted descriptor
struct Script {
	Src        *s = nullptr;
	int         fd = -1;
	std::string data;      // written so far, or to be read
	size_t      pos = 0;   // of the reader
	int         style = 0; // 0: everything at once, 1: pieces, 2: single bytes at places
	bool        again = false, intr = false;
	size_t      fail_after = (size_t)-1; // bytes, then an error
	size_t      calls = 0, agains = 0, pieces = 0, since = 0;
	bool        failed = false;
};
static Script *cur;
static ssize_t
fault(Script *c, size_t done)
{
	Src &s = *c->s;
	c->calls++;
	CHECK(c->calls < 100000, "%zu calls on the descriptor", c->calls);
	if (c->failed || (c->fail_after != (size_t)-1 && done >= c->fail_after)) {
		c->failed = true;
		errno     = EIO;
		return -1;
	}
	if (c->since < 3 && c->intr && s.chance(1, 6)) {
		c->since++;
		errno = EINTR;
		return -1;
	}
	if (c->since < 3 && c->again && s.chance(1, 3)) {
		c->since++;
		c->agains++;
		errno = EAGAIN;
		return -1;
	}
	c->since = 0;
	return 0;
}
static size_t
portion(Script *c, size_t n)
{
	Src &s = *c->s;
	size_t k = n;
	if (c->style == 1 && n > 1)
		k = s.coin() ? s.size(1, std::min<size_t>(n, 16)) : s.size(1, n);
	else if (c->style == 2 && n > 1 && c->pieces < 40)
		k = 1;
	if (c->style == 1 && c->pieces > 60)
		k = n;
	c->pieces++;
	return k;
}
static ssize_t
hook_write(int fd, const void *p, size_t n)
{
	Script *c = cur;
	if (!c || fd != c->fd)
		return syscall(SYS_write, fd, p, n);
	if (n == 0)
		return 0;
	if (fault(c, c->data.size()) < 0)
		return -1;
	size_t k = std::min(portion(c, n), c->fail_after - c->data.size());
	c->data.append((const char *)p, k);
	return (ssize_t)k;
}
static ssize_t
hook_read(int fd, void *p, size_t n)
{
	Script *c = cur;
	if (!c || fd != c->fd)
		return syscall(SYS_read, fd, p, n);
	if (n == 0)
		return 0;
	if (fault(c, c->pos) < 0)
		return -1;
	size_t k = std::min(portion(c, n), c->fail_after - c->pos);
	k        = std::min(k, c->data.size() - c->pos);
	memcpy(p, c->data.data() + c->pos, k);
	c->pos += k;
	return (ssize_t)k;
}
struct Use {
	Use(Script &c)
	{
		cur                = &c;
		pbt::vp_read_hook  = hook_read;
		pbt::vp_write_hook = hook_write;
	}
	~Use()
	{
		cur                = nullptr;
		pbt::vp_read_hook  = nullptr;
		pbt::vp_write_hook = nullptr;
	}
};
static int
some_fd()
{
	static int fd = -1;
	if (fd < 0)
		fd = memfd_create("p02", 0);
	return fd;
}
static void
plan(Src &s, Script &c, bool nonblock)
{
	c.s     = &s;
	c.fd    = some_fd();
	c.style = (int)s.draw(3);
	c.intr  = s.chance(1, 3);
	c.again = nonblock ? s.chance(3, 4) : s.chance(1, 8);
}
static std::string dir; // made and removed by main
static std::string
slurp(const std::string &path)
{
	std::string out;
	int         fd = open(path.c_str(), O_RDONLY);
	CHECK(fd >= 0, "%s is not there", path.c_str());
	char    b[4096];
	ssize_t n;
	while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0)
		out.append(b, (size_t)n);
	close(fd);
	return out;
}
static void
spill(const std::string &path, const std::string &t)
{
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
	CHECK(fd >= 0 && syscall(SYS_write, fd, t.data(), t.size()) == (long)t.size(), "scratch file");
	close(fd);
}

#define SER(o, cb, ...)                                                                                                  \
	((cb).use ? ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_SERIALIZE_OPTION_CALLBACK,     \
					 ud_ser, &(cb).n, CCS_SERIALIZE_OPTION_END) :                                    \
		    ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_SERIALIZE_OPTION_END))

static void
body(Src &s)
{
	long base = pbt::vp_live_allocs;
	{
		Graph g;
		Pool  pool, copies;
		K     kind = (K)s.draw(K_KINDS);
		gen_any(s, pool, g, kind);
		s.label(k_names[kind]);
		SerCb cb;
		bool  have_ud = s.chance(1, 3);
		if (have_ud) {
			cb.use = true;
			for (auto o : pool.objs)
				if (s.chance(1, 2))
					OK(ccs_object_set_user_data(o, ud_make("u" + s.text(s.chance(1, 8) ? 200 : 10))));
		}
		ccs_object_t root = g.root.h;
		Bytes        rb   = serialize(root, &cb);
		std::string  st   = rb.str();
		size_t       n    = st.size();
		{ // the header announces the size
			uint64_t le = 0, be = 0;
			CHECK(n > 13, "%zu bytes", n);
			for (int k = 0; k < 8; k++) {
				le |= (uint64_t)(unsigned char)st[4 + k] << (8 * k);
				be |= (uint64_t)(unsigned char)st[4 + k] << (56 - 8 * k);
			}
			CHECK(le == n || be == n, "the header announces %llu bytes, there are %zu", (unsigned long long)le, n);
		}
		s.log("%s, %zu bytes\n", k_names[kind], n);
		// memory
		{
			size_t extra = s.size(1, 40);
			Bytes  b(n + extra);
			memset(b.p.get(), 0x33, b.n);
			OK(SER(root, cb, CCS_SERIALIZE_OPERATION_MEMORY, b.n, b.p.get()));
			CHECK(b.str() == st + std::string(extra, 0x33), "a larger buffer is filled differently");
		}
		for (int i = 0; i < 3; i++) {
			size_t       m = i == 0 ? n - 1 : s.draw(n);
			Bytes        b(m);
			ccs_result_t r = SER(root, cb, CCS_SERIALIZE_OPERATION_MEMORY, m, b.p.get());
			ccs_clear_thread_error();
			// a user callback may use its own error
			CHECK(r < 0, "%zu bytes out of %zu are said to be enough", m, n);
			CHECK(r == CCS_RESULT_ERROR_NOT_ENOUGH_DATA, "a buffer of %zu bytes out of %zu gives error %d", m, n, (int)r);
		}
		// reading back: the route through memory is the reference
		std::vector<ccs_object_t> ext = g.refs;
		for (auto &d : g.deps)
			ext.push_back(d.h);
		size_t ncb = 0;
		auto   fresh_map = [&]() {
			ccs_map_t m = nullptr;
			OK(ccs_create_map(&m));
			copies.add(m);
			for (auto &d : g.deps)
				OK(ccs_map_set(m, handle_key(d.h), ccs_object(d.h)));
			return m;
		};
		auto read_mem = [&](ccs_object_t *o, const std::string &t) {
			Bytes b(t.size());
			memcpy(b.p.get(), t.data(), t.size());
			return deserialize(o, b.p.get(), b.n, fresh_map(), g.root.vector, g.fresh(g.root), have_ud, &ncb);
		};
		ccs_object_t ref = nullptr;
		OK(read_mem(&ref, st + std::string(s.draw(3), 'x')));
		copies.add(ref);
		std::string want = dump(ref, ext, have_ud);
		auto        check = [&](ccs_object_t o, const char *how) {
			CHECK(o, "no object from %s", how);
			copies.add(o);
			std::string got = dump(o, ext, have_ud);
			CHECK(got == want, "%s gives another object: %s", how, diff(want, got).c_str());
		};
		auto options = [&](int fd, const char *path, ccs_object_t *o, void **state, ccs_map_t map, void *data) {
#define DS(...)                                                                                                          \
	(path ? ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, ##__VA_ARGS__,  \
				       CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser,  \
				       &ncb, CCS_DESERIALIZE_OPTION_END) :                                               \
		ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd,      \
				       ##__VA_ARGS__, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map,                            \
				       CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, &ncb, CCS_DESERIALIZE_OPTION_END))
#define O_V CCS_DESERIALIZE_OPTION_VECTOR, g.root.vector, CCS_DESERIALIZE_OPTION_DATA, data
#define O_N CCS_DESERIALIZE_OPTION_NON_BLOCKING, state
			if (g.root.vector)
				return state ? DS(O_V, O_N) : DS(O_V);
			return state ? DS(O_N) : DS();
		};
		size_t agains = 0;
		bool   nb = false;
		// whole transfer through a scripted descriptor, or until it fails
		auto put = [&](Script &c, bool nonblock) {
			Use          u(c);
			void        *state = nullptr;
			ccs_result_t r;
			for (size_t i = 0;; i++) {
				r = nonblock ? SER(root, cb, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, c.fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, &state) :
					       SER(root, cb, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, c.fd);
				if (r != CCS_RESULT_AGAIN)
					break;
				CHECK(nonblock, "a blocking transfer says again");
				CHECK(state, "again, without a state");
				CHECK(c.agains > agains, "again, although the descriptor was ready");
				agains = c.agains;
				if (s.chance(1, 4)) {
					std::string before = c.data;
					ccs_result_t q = SER(root, cb, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, c.fd + 1000, CCS_SERIALIZE_OPTION_NON_BLOCKING, &state);
					CHECK(q < 0 && state && c.data == before, "resuming with another descriptor gives %d", (int)q);
					ccs_clear_thread_error();
				}
			}
			CHECK(!state, "a state is left after the end of the transfer");
			return r;
		};
		auto get = [&](Script &c, bool nonblock, ccs_object_t *o) {
			Use          u(c);
			void        *state = nullptr;
			ccs_result_t r;
			ccs_map_t    map = fresh_map();
			void        *data = g.fresh(g.root);
			size_t       ag = 0;
			for (size_t i = 0;; i++) {
				r = options(c.fd, nullptr, o, nonblock ? &state : nullptr, map, data);
				if (r != CCS_RESULT_AGAIN)
					break;
				CHECK(nonblock, "a blocking transfer says again");
				CHECK(state, "again, without a state");
				CHECK(!*o, "again, with an object");
				CHECK(c.agains > ag, "again, although the descriptor was ready");
				ag = c.agains;
				if (s.chance(1, 4)) {
					size_t       before = c.pos;
					ccs_result_t q = options(c.fd + 1000, nullptr, o, &state, map, data);
					CHECK(q < 0 && state && c.pos == before, "resuming with another descriptor gives %d", (int)q);
					ccs_clear_thread_error();
				}
			}
			CHECK(!state, "a state is left after the end of the transfer");
			return r;
		};
		size_t rounds = s.size(1, 3);
		for (size_t i = 0; i < rounds; i++) {
			agains = 0;
			switch (s.weighted({4, 4, 2, 2, 2, 2, 1})) {
			case 0: { // write
				nb = s.chance(3, 4);
				Script c;
				plan(s, c, nb);
				std::string head = s.coin() ? s.text(6) : "";
				c.data           = head;
				OK(put(c, nb));
				CHECK(c.data == head + st, "other bytes through a descriptor (%zu instead of %zu)", c.data.size() - head.size(), n);
				s.label(nb ? "non blocking write" : "blocking write");
				s.label_if(c.agains, "resumed");
				s.nontrivial(c.pieces > 1);
				break;
			}
			case 1: { // read, with something behind
				nb = s.chance(3, 4);
				Script c;
				plan(s, c, nb);
				size_t copies_n = s.size(1, 2);
				c.data          = st;
				if (copies_n > 1)
					c.data += st;
				c.data += s.coin() ? s.text(6) : "";
				for (size_t k = 1; k <= copies_n; k++) {
					ccs_object_t o = nullptr;
					OK(get(c, nb, &o));
					CHECK(c.pos == k * n, "%zu bytes read instead of %zu", c.pos, k * n);
					check(o, "a descriptor");
				}
				s.label(nb ? "non blocking read" : "blocking read");
				s.label_if(c.agains, "resumed");
				s.nontrivial(c.pieces > 2);
				break;
			}
			case 2: { // end of file at any place
				nb = s.chance(3, 4);
				Script c;
				plan(s, c, nb);
				size_t cut = s.chance(1, 4) ? s.draw(14) : s.draw(n);
				c.data     = st.substr(0, cut);
				ccs_object_t o = nullptr;
				ccs_result_t r = get(c, nb, &o);
				CHECK(r < 0 && !o, "%zu bytes out of %zu read as an object (%d)", cut, n, (int)r);
				ccs_clear_thread_error();
				s.label("end of file");
				s.nontrivial(cut > 0);
				break;
			}
			case 3: { // error at any place
				nb = s.chance(3, 4);
				Script c;
				plan(s, c, nb);
				c.fail_after = s.draw(n);
				bool w = s.coin();
				ccs_object_t o = nullptr;
				ccs_result_t r;
				if (w)
					r = put(c, nb);
				else {
					c.data = st;
					r      = get(c, nb, &o);
				}
				CHECK(r < 0 && !o, "an i/o error gives %d", (int)r);
				ccs_clear_thread_error();
				s.label("i/o error");
				s.nontrivial(c.fail_after > 0);
				break;
			}
			case 4: { // truncated memory
				ccs_object_t o   = nullptr;
				size_t       cut = s.chance(1, 4) ? n - 1 : s.draw(n);
				ccs_result_t r   = read_mem(&o, st.substr(0, cut));
				CHECK(r < 0 && !o, "%zu bytes out of %zu read as an object (%d)", cut, n, (int)r);
				ccs_clear_thread_error();
				s.label("truncated memory");
				break;
			}
			case 5: { // file
				int fd0 = next_fd();
				std::string path = dir + sfmt("/f%d", (int)getpid());
				if (s.coin())
					spill(path, std::string(s.draw(3) * n + s.draw(20), 'z'));
				OK(SER(root, cb, CCS_SERIALIZE_OPERATION_FILE, path.c_str()));
				std::string got = slurp(path);
				CHECK(got == st, "other bytes in a file (%zu instead of %zu)", got.size(), n);
				ccs_object_t o = nullptr;
				OK(options(0, path.c_str(), &o, nullptr, fresh_map(), g.fresh(g.root)));
				check(o, "a file");
				CHECK(slurp(path) == st, "reading modified the file");
				size_t cut = s.chance(1, 4) ? 0 : s.draw(n);
				spill(path, st.substr(0, cut));
				o              = nullptr;
				ccs_result_t r = options(0, path.c_str(), &o, nullptr, fresh_map(), g.fresh(g.root));
				CHECK(r < 0 && !o, "%zu bytes out of %zu read as an object (%d)", cut, n, (int)r);
				ccs_clear_thread_error();
				unlink(path.c_str());
				r = options(0, path.c_str(), &o, nullptr, fresh_map(), g.fresh(g.root));
				CHECK(r == CCS_RESULT_ERROR_INVALID_FILE_PATH && !o, "a missing file gives %d", (int)r);
				ccs_clear_thread_error();
				r = SER(root, cb, CCS_SERIALIZE_OPERATION_FILE, (dir + "/none/f").c_str());
				CHECK(r == CCS_RESULT_ERROR_INVALID_FILE_PATH, "a path that cannot be created gives %d", (int)r);
				ccs_clear_thread_error();
				CHECK(next_fd() == fd0, "a descriptor is left open");
				s.label("file");
				s.nontrivial();
				break;
			}
			default: { // misuse
				size_t       z = 4242;
				void        *state = nullptr;
				ccs_object_t o = nullptr;
				Bytes        b(n);
				memset(b.p.get(), 0x44, n);
				ccs_result_t r[11];
				r[0] = ccs_object_serialize(root, (ccs_serialize_format_t)7, CCS_SERIALIZE_OPERATION_MEMORY, n, b.p.get(), CCS_SERIALIZE_OPTION_END);
				r[1] = ccs_object_serialize(root, (ccs_serialize_format_t)7, CCS_SERIALIZE_OPERATION_SIZE, &z, CCS_SERIALIZE_OPTION_END);
				r[2] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, (ccs_serialize_operation_t)9, n, b.p.get(), CCS_SERIALIZE_OPTION_END);
				r[3] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, (size_t *)nullptr, CCS_SERIALIZE_OPTION_END);
				r[4] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, (char *)nullptr, CCS_SERIALIZE_OPTION_END);
				r[5] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b.p.get(), CCS_SERIALIZE_OPTION_NON_BLOCKING, &state, CCS_SERIALIZE_OPTION_END);
				r[6] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b.p.get(), (ccs_serialize_option_t)77, CCS_SERIALIZE_OPTION_END);
				r[7] = ccs_object_serialize(root, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, (const char *)nullptr, CCS_SERIALIZE_OPTION_END);
				CHECK(b.str() == std::string(n, 0x44), "a refused call wrote in the buffer");
				r[8] = ccs_object_deserialize(&o, (ccs_serialize_format_t)7, CCS_SERIALIZE_OPERATION_MEMORY, n, rb.p.get(), CCS_DESERIALIZE_OPTION_END);
				r[9] = ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, n, rb.p.get(), CCS_DESERIALIZE_OPTION_END);
				r[10] = ccs_object_deserialize(nullptr, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, rb.p.get(), CCS_DESERIALIZE_OPTION_END);
				for (int k = 0; k < 11; k++)
					CHECK(r[k] < 0, "misuse %d gives %d", k, (int)r[k]);
				CHECK(!o && !state, "misuse gives something back");
				ccs_clear_thread_error();
				s.label("misuse");
			}
			}
		}
		s.feature(pbt::hstr(want));
	}
	CHECK(pbt::vp_live_allocs == base, "%ld blocks left behind", pbt::vp_live_allocs - base);
}
int
main(int argc, char **argv)
{
	signal(SIGPIPE, SIG_IGN);
	large_ok = true;
	pbt::Config c;
	c.property = "P02";
	c.rule = "random objects of 23 kinds go through every transport: buffers of every size class, files in a scratch directory, and descriptors whose read and write calls are scripted (pieces of any size, interruptions, not ready, end of file and errors at any offset), compared with the bytes and the object of the memory route; non-trivial: a transfer in more than one piece, a file, or a cut or an error after the first byte";
	c.assumptions = {"the read and write calls of the library on the descriptor are intercepted at link time", "files live in a scratch directory that is removed"};
	c.quick_cases    = 40000;
	c.thorough_cases = 500000;
	c.quick_cap_s    = 60;
	c.thorough_cap_s = 700;
	c.body           = body;
	char b[] = "/dev/shm/p02-XXXXXX", d[] = "/tmp/p02-XXXXXX";
	dir = mkdtemp(b) ? b : mkdtemp(d) ? d : "";
	if (dir.empty())
		return 2;
	int r = pbt::run_main(argc, argv, c);
	if (DIR *l = opendir(dir.c_str())) {
		while (dirent *e = readdir(l))
			if (e->d_name[0] == 'f')
				unlink((dir + "/" + e->d_name).c_str());
		closedir(l);
	}
	rmdir(dir.c_str());
	return r;
}
