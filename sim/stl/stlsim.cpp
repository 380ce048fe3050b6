// Deterministic simulation of the STL converter (examples/stl.cxx of the repository, compiled unchanged from its working tree).
// The seam is the C library: libstdc++'s file streams and std::filesystem reach the system through fopen, read, write, writev,
// lseek, stat ..., and this executable defines those functions. Between sim_begin and sim_end they act on an in-memory disk.
// One stream of choices drawn from one seed decides the disk's contents, the command lines, the answers of the user, which
// converter runs next (two may run at once, switched at system calls), and every fault. Choice 0 is always "nothing special".
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "dsga.hxx"
extern int stl_main(int argc, char *argv[]);

typedef std::string str;
template <class T> using vec = std::vector<T>;

// ------------------------------------------------------------------------------------------------ choices
struct Choices
{
	bool replay = false;
	uint64_t s = 0;
	vec<uint32_t> log;		// every choice made
	vec<uint32_t> in;		// replay: the choices to make
	uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0, n)
	uint32_t pick(uint32_t n)
	{
		uint32_t v = replay ? (log.size() < in.size() ? in[log.size()] % n : 0) : uint32_t(next() % n);
		log.push_back(v);
		return v;
	}
	// 1..n with probability p/1000 in all, else 0
	uint32_t rare(uint32_t n, uint32_t permille)
	{
		uint32_t v = replay ? (log.size() < in.size() ? in[log.size()] % (n + 1) : 0) : (next() % 1000 < permille ? 1 + uint32_t(next() % n) : 0);
		log.push_back(v);
		return v;
	}
};
static Choices C;

// ------------------------------------------------------------------------------------------------ the disk
struct Node
{
	int ino = 0;
	char kind = 'f';		// f file, d directory, p pipe (not regular)
	str data;
};
struct Open
{
	bool used = false, wr = false;
	Node *n = nullptr;
	size_t pos = 0;
	int owner = 0;
};
static const char *const FN[] = {"short read", "interrupted read", "read error", "premature end of file", "short write", "interrupted write", "write error", "disk full", "error on close", "open refused",
	"stat refused", "process killed", "stalled (other process runs)"};
enum { F_SHORTR, F_EINTRR, F_EIOR, F_EOF, F_SHORTW, F_EINTRW, F_EIOW, F_FULL, F_CLOSE, F_OPEN, F_STAT, F_KILL, F_SWITCH, F_N };

struct Disk
{
	vec<std::unique_ptr<Node>> nodes;
	std::map<str, Node *> names;			// absolute, normalised
	std::map<str, str> links;				// symbolic links: absolute name -> target
	str cwd = "/w";
	int64_t space = -1;						// bytes that still fit (-1: plenty)
	Node *add(const str &p, char kind, str data)
	{
		nodes.push_back(std::make_unique<Node>());
		Node *n = nodes.back().get();
		n->ino = int(nodes.size()) + 10;
		n->kind = kind;
		n->data = std::move(data);
		names[p] = n;
		return n;
	}
	// absolute normalised name after following links; "" if a directory on the way does not exist. 'err' gets ENOENT / ENOTDIR / ELOOP
	str resolve(const str &path, int &err, int depth = 0)
	{
		err = 0;
		if (path.empty()) { err = ENOENT; return ""; }
		str cur = path[0] == '/' ? "" : cwd;
		size_t i = 0;
		vec<str> parts;
		while (i < path.size())
		{
			size_t j = path.find('/', i);
			if (j == str::npos) j = path.size();
			if (j > i) parts.push_back(path.substr(i, j - i));
			i = j + 1;
		}
		bool slash = path.back() == '/';
		for (size_t k = 0; k < parts.size(); ++k)
		{
			const str &p = parts[k];
			bool last = k + 1 == parts.size();
			if (p == ".") continue;
			if (p == "..") { size_t s = cur.rfind('/'); cur = s == str::npos ? "" : cur.substr(0, s); continue; }
			str nx = cur + "/" + p;
			auto l = links.find(nx);
			if (l != links.end())
			{
				if (depth > 8) { err = ELOOP; return ""; }
				str t = l->second[0] == '/' ? l->second : cur + "/" + l->second;
				nx = resolve(t, err, depth + 1);
				if (err && !(last && err == ENOENT && !nx.empty())) return "";
				err = 0;
			}
			if (!last || slash)
			{
				auto f = names.find(nx);
				if (f == names.end()) { err = ENOENT; return ""; }
				if (f->second->kind != 'd') { err = ENOTDIR; return ""; }
			}
			cur = nx;
		}
		if (cur.empty()) cur = "/";
		if (!names.count(cur)) err = ENOENT;
		return cur;
	}
	Node *find(const str &path, int &err)
	{
		str p = resolve(path, err);
		return err ? nullptr : names[p];
	}
};
static Disk *D;
static Open files[64];

// ------------------------------------------------------------------------------------------------ converters (fibers)
struct Proc
{
	ucontext_t ctx;
	char *stack = nullptr;
	vec<str> args;
	str answers, out, err;
	size_t ansi = 0;
	bool done = false, killed = false, threw = false, started = false;
	int rc = -1;
	str srcname, dstname;
};
static const size_t STACK = 256 * 1024;
static Proc P[2];
static int np, cur = -1;
static ucontext_t mainctx;
static bool active;				// inside the simulation
static int calls, killat[2];
static vec<str> trace;
static bool tracing;
static uint64_t H;
static long nfault[F_N];
static uint32_t rate;			// faults per 1000 system calls
static uint32_t kinds;			// fault kinds allowed in this run
static long nsys;
static bool faulted;
static uint32_t hard[2];			// kinds of calls that failed for good, per converter

static void mix(uint64_t v) { H ^= v + 0x9E3779B97F4A7C15ull + (H << 6) + (H >> 2); H *= 0xff51afd7ed558ccdull; H ^= H >> 29; }
static void mixs(const char *s) { for (; *s; ++s) mix((unsigned char)*s); }
static void note(const char *f, ...)
{
	char b[400];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	mixs(b);
	mix(cur);
	if (tracing) trace.push_back(np > 1 ? (cur == 0 ? "A: " : "B: ") + str(b) : str(b));
}
static bool fault(int k)
{
	++nfault[k];
	if (k != F_SWITCH) faulted = true;
	if (cur >= 0 && (1u << k & (1u << F_EIOR | 1u << F_EOF | 1u << F_EIOW | 1u << F_FULL | 1u << F_CLOSE | 1u << F_OPEN))) hard[cur] |= 1u << k;
	return true;
}
// one of the given fault kinds, or -1
static int draw(std::initializer_list<int> ks)
{
	int m = 0, t[8];
	for (int k : ks) if (kinds >> k & 1) t[m++] = k;
	if (!m) return -1;
	uint32_t v = C.rare(uint32_t(m), rate);
	return v ? t[v - 1] : -1;
}
static void yield_to_main()
{
	int me = cur;
	swapcontext(&P[me].ctx, &mainctx);
	cur = me;
}
// every simulated system call starts here
static bool enter()
{
	++calls;
	++nsys;
	if (np > 1 && !std::uncaught_exceptions() && !P[1 - cur].done && C.rare(1, 200))
	{
		fault(F_SWITCH);
		yield_to_main();
	}
	if (!P[cur].killed && killat[cur] && --killat[cur] == 0)
	{
		P[cur].killed = true;
		fault(F_KILL);
		note("process killed");
	}
	return P[cur].killed;		// a killed process has no effect on the disk any more
}

template <class F> static F real(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

static int vopen(const char *path, bool wr, bool trunc)
{
	if (enter()) { errno = EINTR; return -1; }
	if (draw({F_OPEN}) >= 0)
	{
		fault(F_OPEN);
		errno = C.pick(2) ? EACCES : EMFILE;
		note("open(%s, %s) -> %s", path, wr ? "write" : "read", strerror(errno));
		return -1;
	}
	int err;
	str p = D->resolve(path, err);
	Node *n = nullptr;
	if (err == ENOENT && wr && !p.empty()) n = D->add(p, 'f', "");
	else if (err) { errno = err; note("open(%s) -> %s", path, strerror(err)); return -1; }
	else n = D->names[p];
	if (n->kind == 'd' && wr) { errno = EISDIR; note("open(%s) -> is a directory", path); return -1; }
	int fd = -1;
	for (int i = 0; i < 64; ++i) if (!files[i].used) { fd = i; break; }
	if (fd < 0) { errno = EMFILE; return -1; }
	if (wr && trunc)
	{
		if (D->space >= 0) D->space += int64_t(n->data.size());
		n->data.clear();
	}
	files[fd] = Open{true, wr, n, 0, cur};
	note("open(%s, %s) -> fd %d", path, wr ? "write, truncate" : "read", fd);
	return fd;
}
static ssize_t vread(int fd, char *b, size_t n)
{
	if (enter()) return 0;
	Open &o = files[fd];
	int f = draw({F_SHORTR, F_EINTRR, F_EIOR, F_EOF});
	if (o.n->kind == 'd') { errno = EISDIR; return -1; }
	if (f == F_EINTRR) { fault(f); errno = EINTR; note("read(fd %d) -> interrupted", fd); return -1; }
	if (f == F_EIOR) { fault(f); errno = EIO; note("read(fd %d) -> I/O error", fd); return -1; }
	if (f == F_EOF) { fault(f); note("read(fd %d) -> 0, premature end of file", fd); return 0; }
	size_t left = o.pos < o.n->data.size() ? o.n->data.size() - o.pos : 0, k = std::min(n, left);
	if (f == F_SHORTR && k > 1) { fault(f); k = 1 + C.pick(uint32_t(std::min<size_t>(k - 1, 200))); }
	memcpy(b, o.n->data.data() + o.pos, k);
	note("read(fd %d, %zu at %zu) -> %zu", fd, n, o.pos, k);
	o.pos += k;
	return ssize_t(k);
}
static ssize_t vwrite(int fd, const char *b, size_t n)
{
	if (enter()) { errno = EIO; return -1; }
	Open &o = files[fd];
	int f = draw({F_SHORTW, F_EINTRW, F_EIOW});
	if (f == F_EINTRW) { fault(f); errno = EINTR; note("write(fd %d) -> interrupted", fd); return -1; }
	if (f == F_EIOW) { fault(f); errno = EIO; note("write(fd %d, %zu) -> I/O error", fd, n); return -1; }
	size_t k = n;
	if (f == F_SHORTW && k > 1) { fault(f); k = 1 + C.pick(uint32_t(std::min<size_t>(k - 1, 500))); }
	if (D->space >= 0 && int64_t(k) > D->space)
	{
		fault(F_FULL);
		k = size_t(D->space);
		if (!k && n) { errno = ENOSPC; note("write(fd %d, %zu) -> no space left", fd, n); return -1; }
	}
	if (D->space >= 0) D->space -= int64_t(k);
	str &d = o.n->data;
	if (d.size() < o.pos + k) d.resize(o.pos + k, '\0');
	memcpy(&d[o.pos], b, k);
	note("write(fd %d, %zu) -> %zu", fd, n, k);
	o.pos += k;
	return ssize_t(k);
}
static int vclose(int fd)
{
	bool dead = enter();
	Open &o = files[fd];
	o.used = false;
	if (dead) return 0;
	if (o.wr && draw({F_CLOSE}) >= 0) { fault(F_CLOSE); errno = EIO; note("close(fd %d) -> I/O error", fd); return -1; }
	note("close(fd %d)", fd);
	return 0;
}
static int vstat(const char *path, struct stat *st)
{
	if (enter()) { errno = EIO; return -1; }
	if (draw({F_STAT}) >= 0) { fault(F_STAT); errno = EIO; note("stat(%s) -> I/O error", path); return -1; }
	int err;
	Node *n = D->find(path, err);
	if (!n) { errno = err; note("stat(%s) -> %s", path, strerror(err)); return -1; }
	memset(st, 0, sizeof *st);
	st->st_dev = 1;
	st->st_ino = ino_t(n->ino);
	st->st_nlink = 1;
	st->st_mode = (n->kind == 'd' ? S_IFDIR : n->kind == 'p' ? S_IFIFO : S_IFREG) | 0644;
	st->st_size = off_t(n->data.size());
	note("stat(%s) -> %s of %zu bytes", path, n->kind == 'd' ? "directory" : n->kind == 'p' ? "pipe" : "file", n->data.size());
	return 0;
}
static off_t vseek(int fd, off_t off, int wh)
{
	if (enter()) { errno = EIO; return -1; }
	Open &o = files[fd];
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? int64_t(o.pos) : int64_t(o.n->data.size());
	if (b + off < 0) { errno = EINVAL; return -1; }
	o.pos = size_t(b + off);
	mix(o.pos);
	return off_t(o.pos);
}
static const int VFD = 100000;			// simulated descriptors as the library sees them
static bool vfd(int fd) { return active && fd >= VFD && fd < VFD + 64; }
static FILE *vfile(int fd) { return reinterpret_cast<FILE *>(&files[fd]); }
static int ofile(FILE *f) { auto p = reinterpret_cast<Open *>(f); return p >= files && p < files + 64 ? int(p - files) : -1; }

extern "C"
{
	FILE *fopen(const char *p, const char *m)
	{
		if (!active) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); return r(p, m); }
		int fd = vopen(p, m[0] != 'r' || strchr(m, '+'), m[0] == 'w');
		return fd < 0 ? nullptr : vfile(fd);
	}
	FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
	int fileno(FILE *f)
	{
		int i = ofile(f);
		if (i < 0) { static auto r = real<int (*)(FILE *)>("fileno"); return r(f); }
		return VFD + i;
	}
	int fclose(FILE *f)
	{
		int i = ofile(f);
		if (i < 0) { static auto r = real<int (*)(FILE *)>("fclose"); return r(f); }
		return vclose(i);
	}
	int fflush(FILE *f)
	{
		if (f && ofile(f) >= 0) return 0;
		static auto r = real<int (*)(FILE *)>("fflush");
		return r(f);
	}
	int setvbuf(FILE *f, char *b, int m, size_t n)
	{
		if (ofile(f) >= 0) return 0;
		static auto r = real<int (*)(FILE *, char *, int, size_t)>("setvbuf");
		return r(f, b, m, n);
	}
	int open(const char *p, int fl, ...)
	{
		va_list a;
		va_start(a, fl);
		mode_t m = fl & O_CREAT ? va_arg(a, mode_t) : 0;
		va_end(a);
		if (!active) { static auto r = real<int (*)(const char *, int, ...)>("open"); return r(p, fl, m); }
		int fd = vopen(p, (fl & O_ACCMODE) != O_RDONLY, fl & O_TRUNC);
		return fd < 0 ? -1 : VFD + fd;
	}
	int close(int fd)
	{
		if (!vfd(fd)) { static auto r = real<int (*)(int)>("close"); return r(fd); }
		return vclose(fd - VFD);
	}
	ssize_t read(int fd, void *b, size_t n)
	{
		if (!vfd(fd)) { static auto r = real<ssize_t (*)(int, void *, size_t)>("read"); return r(fd, b, n); }
		return vread(fd - VFD, static_cast<char *>(b), n);
	}
	ssize_t write(int fd, const void *b, size_t n)
	{
		if (!vfd(fd)) { static auto r = real<ssize_t (*)(int, const void *, size_t)>("write"); return r(fd, b, n); }
		return vwrite(fd - VFD, static_cast<const char *>(b), n);
	}
	ssize_t writev(int fd, const struct iovec *v, int n)
	{
		if (!vfd(fd)) { static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("writev"); return r(fd, v, n); }
		str s;
		for (int i = 0; i < n; ++i) s.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
		return vwrite(fd - VFD, s.data(), s.size());
	}
	size_t fread(void *b, size_t s, size_t n, FILE *f)
	{
		int i = ofile(f);
		if (i < 0) { static auto r = real<size_t (*)(void *, size_t, size_t, FILE *)>("fread"); return r(b, s, n, f); }
		ssize_t k = vread(i, static_cast<char *>(b), s * n);
		return k > 0 && s ? size_t(k) / s : 0;
	}
	off_t lseek(int fd, off_t o, int w)
	{
		if (!vfd(fd)) { static auto r = real<off_t (*)(int, off_t, int)>("lseek"); return r(fd, o, w); }
		return vseek(fd - VFD, o, w);
	}
	off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
	int stat(const char *p, struct stat *st)
	{
		if (!active) { static auto r = real<int (*)(const char *, struct stat *)>("stat"); return r(p, st); }
		return vstat(p, st);
	}
	int lstat(const char *p, struct stat *st)
	{
		if (!active) { static auto r = real<int (*)(const char *, struct stat *)>("lstat"); return r(p, st); }
		return vstat(p, st);
	}
	int fstat(int fd, struct stat *st)
	{
		if (!vfd(fd)) { static auto r = real<int (*)(int, struct stat *)>("fstat"); return r(fd, st); }
		memset(st, 0, sizeof *st);
		st->st_mode = S_IFREG | 0644;
		st->st_size = off_t(files[fd - VFD].n->data.size());
		return 0;
	}
	int ioctl(int fd, unsigned long q, ...)
	{
		va_list a;
		va_start(a, q);
		void *p = va_arg(a, void *);
		va_end(a);
		if (!vfd(fd)) { static auto r = real<int (*)(int, unsigned long, ...)>("ioctl"); return r(fd, q, p); }
		errno = ENOTTY;
		return -1;
	}
	int poll(struct pollfd *p, nfds_t n, int t)
	{
		if (!active) { static auto r = real<int (*)(struct pollfd *, nfds_t, int)>("poll"); return r(p, n, t); }
		return 0;
	}
	char *getcwd(char *b, size_t n)
	{
		if (!active) { static auto r = real<char *(*)(char *, size_t)>("getcwd"); return r(b, n); }
		if (!b) return strdup(D->cwd.c_str());
		if (n <= D->cwd.size()) { errno = ERANGE; return nullptr; }
		return strcpy(b, D->cwd.c_str());
	}
	ssize_t readlink(const char *p, char *b, size_t n)
	{
		if (!active) { static auto r = real<ssize_t (*)(const char *, char *, size_t)>("readlink"); return r(p, b, n); }
		str q = p[0] == '/' ? str(p) : D->cwd + "/" + p;
		auto l = D->links.find(q);
		if (l == D->links.end()) { errno = EINVAL; return -1; }
		size_t k = std::min(n, l->second.size());
		memcpy(b, l->second.data(), k);
		return ssize_t(k);
	}
	char *realpath(const char *p, char *b)
	{
		if (!active) { static auto r = real<char *(*)(const char *, char *)>("realpath"); return r(p, b); }
		int err;
		str q = D->resolve(p, err);
		if (err) { errno = err; return nullptr; }
		return b ? strcpy(b, q.c_str()) : strdup(q.c_str());
	}
}

// standard streams of the simulated processes
struct InBuf : std::streambuf
{
	char c;
	int_type underflow() override
	{
		Proc &p = P[cur];
		if (p.ansi >= p.answers.size()) return traits_type::eof();
		c = p.answers[p.ansi++];
		setg(&c, &c, &c + 1);
		return traits_type::to_int_type(c);
	}
	void reset() { setg(nullptr, nullptr, nullptr); }
};
struct OutBuf : std::streambuf
{
	bool e;
	OutBuf(bool err) : e(err) {}
	int_type overflow(int_type ch) override { (e ? P[cur].err : P[cur].out).push_back(char(ch)); return ch; }
	std::streamsize xsputn(const char *s, std::streamsize n) override { (e ? P[cur].err : P[cur].out).append(s, size_t(n)); return n; }
};

static void fiber()
{
	Proc &p = P[cur];
	vec<char *> av;
	for (auto &a : p.args) av.push_back(a.data());
	av.push_back(nullptr);
	try { p.rc = stl_main(int(p.args.size()), av.data()); }
	catch (const std::exception &e) { p.threw = true; p.err += str("exception: ") + e.what(); }
	catch (...) { p.threw = true; }
	p.done = true;
	setcontext(&mainctx);
}
static void run_procs()
{
	static InBuf in;
	static OutBuf out(false), err(true);
	auto a = std::cin.rdbuf(&in);
	auto b = std::cout.rdbuf(&out);
	auto c = std::cerr.rdbuf(&err);
	in.reset();
	std::cin.clear();
	std::cout.clear();
	std::cerr.clear();
	for (auto &f : files) f.used = false;
	for (int i = 0; i < np; ++i)
	{
		Proc &p = P[i];
		if (!p.stack) p.stack = static_cast<char *>(malloc(STACK));
		getcontext(&p.ctx);
		p.ctx.uc_stack = {p.stack, 0, STACK};
		p.ctx.uc_link = nullptr;
		makecontext(&p.ctx, fiber, 0);
		p.done = p.killed = p.threw = false;
		p.rc = -1;
		p.ansi = 0;
		p.out.clear();
		p.err.clear();
	}
	active = true;
	int who = 0;
	volatile int w;
	for (;;)
	{
		if (P[who].done) { if (np > 1 && !P[1 - who].done) who = 1 - who; else break; }
		cur = w = who;
		std::cin.clear();
		swapcontext(&mainctx, &P[who].ctx);
		who = w;
		if (np > 1) who = 1 - who;
	}
	active = false;
	std::cin.rdbuf(a);
	std::cout.rdbuf(b);
	std::cerr.rdbuf(c);
}

// ------------------------------------------------------------------------------------------------ reference
struct Facet { float n[3], v[3][3]; };

// the library's normal of a facet whose shape leaves no doubt about it must be the right one
static str wrongnormal;
static void check_normal(const Facet &f, bool usable, uint32_t i)
{
	double a[3], b[3], m = 0, lo = 1e300;
	for (int k = 0; k < 3; ++k)
	{
		a[k] = double(f.v[1][k]) - f.v[0][k];
		b[k] = double(f.v[2][k]) - f.v[0][k];
		for (int q = 0; q < 3; ++q) m = std::max(m, std::fabs(double(f.v[q][k])));
	}
	double c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
	auto len = [](const double *x) { return std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
	double la = len(a), lb = len(b), lc = len(c);
	lo = std::min(la, lb);
	if (!(m < 1e6 && lo > 1e-3 && lo > 0.05 * m && lc > 0.05 * la * lb)) return;
	str at = "facet " + std::to_string(i);
	if (!usable) { wrongnormal = at + " is well-formed but counts as unusable"; return; }
	for (int k = 0; k < 3; ++k)
		if (std::fabs(f.n[k] - c[k] / lc) > 1e-3) { wrongnormal = at + " has normal component " + std::to_string(k) + " = " + std::to_string(f.n[k]) + " instead of " + std::to_string(c[k] / lc); return; }
}

// the facets a binary STL image holds that can be converted, or false if the image is not a consistent binary STL
static bool reference(const str &img, vec<Facet> &good, size_t &total)
{
	good.clear();
	total = 0;
	if (img.size() < 84) return false;
	uint32_t n;
	memcpy(&n, img.data() + 80, 4);
	if (84 + 50 * uint64_t(n) != img.size()) return false;
	total = n;
	for (uint32_t i = 0; i < n; ++i)
	{
		Facet f;
		memcpy(f.v, img.data() + 84 + 50 * size_t(i) + 12, 36);
		bool ok = true;
		for (auto &v : f.v) for (float x : v) if (!std::isfinite(x)) ok = false;
		if (!ok) continue;
		auto p = [&](int k) { return dsga::vec3(f.v[k][0], f.v[k][1], f.v[k][2]); };
		dsga::vec3 nn = dsga::normalize(dsga::cross(p(1) - p(0), p(2) - p(0)));
		bool zero = true;
		for (int k = 0; k < 3; ++k)
		{
			f.n[k] = nn[k];
			if (!std::isfinite(f.n[k])) ok = false;
			if (f.n[k] != 0) zero = false;
		}
		check_normal(f, ok && !zero, i);
		if (ok && !zero) good.push_back(f);
	}
	return true;
}
// reads an ASCII STL; "" or what is wrong with it
static str parse_ascii(const str &text, vec<Facet> &got)
{
	got.clear();
	std::istringstream s(text);
	str w;
	auto next = [&]() { w.clear(); s >> w; return w; };
	auto num = [&](float &x) { next(); char *e; x = strtof(w.c_str(), &e); return !w.empty() && !*e; };
	if (next() != "solid") return "does not start with 'solid'";
	str line;
	std::getline(s, line);
	for (;;)
	{
		next();
		if (w == "endsolid") break;
		if (w.empty()) return "ends without 'endsolid' after " + std::to_string(got.size()) + " facets";
		Facet f;
		if (w != "facet" || next() != "normal") return "has '" + w + "' where a facet should start";
		for (float &x : f.n) if (!num(x)) return "has a normal that is not three numbers";
		if (next() != "outer" || next() != "loop") return "has a facet without 'outer loop'";
		for (auto &v : f.v)
		{
			if (next() != "vertex") return "has a loop of fewer than three vertices";
			for (float &x : v) if (!num(x)) return "has a vertex that is not three numbers";
		}
		if (next() != "endloop" || next() != "endfacet") return "has a facet that is not closed";
		got.push_back(f);
	}
	std::getline(s, line);
	if (s >> w) return "goes on after 'endsolid'";
	return "";
}
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }
static str fl(float x) { char b[40]; snprintf(b, sizeof b, "%.9g", double(x)); return b; }
// complete and faithful conversion of 'want'? "" or what is wrong
static bool firstoff;			// the first number of the destination has the digits of %.8g only (see known_findings.txt)
static str compare(const str &text, const vec<Facet> &want)
{
	firstoff = false;
	vec<Facet> got;
	str e = parse_ascii(text, got);
	if (!e.empty()) return "the destination " + e;
	if (got.size() != want.size()) return "the destination holds " + std::to_string(got.size()) + " facets instead of " + std::to_string(want.size());
	for (size_t i = 0; i < got.size(); ++i)
	{
		for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j)
			if (!same(got[i].v[k][j], want[i].v[k][j])) return "facet " + std::to_string(i) + " vertex " + std::to_string(k) + " component " + std::to_string(j) + " reads back as " + fl(got[i].v[k][j]) + " instead of " + fl(want[i].v[k][j]);
		for (int j = 0; j < 3; ++j)
			if (!same(got[i].n[j], want[i].n[j]))
			{
				char b[40];
				snprintf(b, sizeof b, "%.8g", double(want[i].n[j]));
				if (i == 0 && j == 0 && same(got[i].n[j], strtof(b, nullptr))) { firstoff = true; continue; }
				return "facet " + std::to_string(i) + " normal component " + std::to_string(j) + " reads back as " + fl(got[i].n[j]) + " instead of " + fl(want[i].n[j]);
			}
	}
	return "";
}

// ------------------------------------------------------------------------------------------------ one run
static float gen_float(int cls)
{
	switch (cls)
	{
		case 0: return float(int(C.pick(41)) - 20) * 0.5f;
		case 1: return float(int(C.pick(2000001)) - 1000000) / 7.0f;
		case 2: { static const float t[] = {0.0f, -0.0f, 1e-20f, -1e-20f, 1e-40f, 3e18f, -3e18f, 1e-6f, 16777217.0f, 0.1f}; return t[C.pick(10)]; }
		case 3: { uint32_t b = C.pick(1u << 31) * 2u + C.pick(2); float f; memcpy(&f, &b, 4); return f; }		// any bit pattern
		default: { static const float t[] = {INFINITY, -INFINITY, NAN}; return t[C.pick(3)]; }
	}
}
static str gen_stl(bool sane)
{
	str s;
	uint32_t style = C.rare(3, 300);
	s = style == 1 ? "solid ascii?" : style == 2 ? str(80, '\xff') : str();
	s.resize(80, style == 3 ? 'x' : '\0');
	uint32_t n = 1 + C.pick(4), bigger = C.rare(3, 60);
	if (bigger == 1) n = 0;
	if (bigger == 2) n = 150 + C.pick(60);			// larger than a stream buffer
	if (bigger == 3) n = 20 + C.pick(20);
	s.append(reinterpret_cast<char *>(&n), 4);
	int fc = int(C.rare(3, 500));
	for (uint32_t i = 0; i < n; ++i)
	{
		float f[12] = {0, 0, 1};
		int cls = n > 10 ? 0 : fc;
		for (int k = 3; k < 12; ++k) f[k] = n > 10 ? float((i * 7 + unsigned(k) * unsigned(k) * 3) % 23) * 0.37f : gen_float(cls);
		uint32_t bad = n > 10 && n < 100 ? 0 : C.rare(3, 120);
		if (bad == 1) memcpy(f + 6, f + 3, 12);		// degenerate: two equal vertices
		if (bad == 2) f[3 + C.pick(9)] = gen_float(4);
		if (bad == 3) f[3 + C.pick(9)] = gen_float(2);
		s.append(reinterpret_cast<char *>(f), 48);
		s.append(C.rare(1, 100) ? "\xff\xff" : str("\0\0", 2));
	}
	if (sane) return s;
	switch (C.pick(8))
	{
		case 0: s.pop_back(); break;
		case 1: s.push_back('z'); break;
		case 2: s.resize(C.pick(84)); break;
		case 3: s[80] = char(s[80] + 1 + char(C.pick(200))); break;
		case 4: s.replace(80, 4, "\xff\xff\xff\xff"); break;
		case 5: s.resize(84 + C.pick(50)); if (s.size() == 84) s.push_back('q'); break;
		case 6: s = "solid text\n  facet normal 0 0 1\n    outer loop\n      vertex 0 0 0\n      vertex 1 0 0\n      vertex 0 1 0\n    endloop\n  endfacet\nendsolid text\n"; break;
		case 7: { uint32_t k; memcpy(&k, &s[80], 4); k = __builtin_bswap32(k); if (k == 0) s.push_back('q'); memcpy(&s[80], &k, 4); break; }
	}
	vec<Facet> g;
	size_t t;
	if (reference(s, g, t)) s += "x";		// a change above happened to be consistent
	return s;
}

struct Verdict { str prop, text; };
// defects listed in known_findings.txt: violations of exactly these classes are counted, not reported
static std::set<str> listed;
static std::map<str, std::pair<long, str>> shown;
struct Run
{
	Node *src[2], *dst0[2];
	str srcimg[2], dstimg[2];
	bool sane[2], samefile[2], existed[2], badpath[2], declined[2];
	vec<Facet> want[2];
	size_t total[2];
};
static Run R;

static void note_world(const char *f, ...)
{
	char b[400];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	mixs(b);
	if (tracing) trace.push_back(b);
}

// which: the property being decided shapes the runs
static Verdict one_run(const str &prop)
{
	Disk disk;
	D = &disk;
	trace.clear();
	H = 1469598103934665603ull;
	calls = 0;
	faulted = false;
	cur = 0;
	killat[0] = killat[1] = 0;
	hard[0] = hard[1] = 0;
	disk.add("/", 'd', "");
	disk.add("/w", 'd', "");
	disk.add("/w/sub", 'd', "");
	np = 1;
	rate = 0;
	kinds = ~0u;
	const char *DST[] = {"out.stl", "sub/out.stl", "/w/o2.stl", "./out.stl", "../w/out.stl", "missing/out.stl", "sub", "pipe"};
	const char *SRC[] = {"in.stl", "./in.stl", "/w/in.stl", "sub/../in.stl", "slink.stl"};
	wrongnormal.clear();
	int procs = int(1 + C.rare(1, 250));
	for (int i = 0; i < procs; ++i)
	{
		bool share = i == 1 && C.pick(2);
		R.sane[i] = prop == "S03" ? C.pick(3) == 0 : !C.rare(1, 40);
		str base = i == 0 ? "in.stl" : "in2.stl";
		if (share) { R.srcimg[1] = R.srcimg[0]; R.sane[1] = R.sane[0]; R.src[1] = R.src[0]; }
		else
		{
			R.srcimg[i] = gen_stl(R.sane[i]);
			R.src[i] = disk.add("/w/" + base, 'f', R.srcimg[i]);
		}
		vec<Facet> g;
		if (!reference(R.srcimg[i], R.want[i], R.total[i])) R.total[i] = 0;
		str sname = share || i == 0 ? SRC[C.rare(4, 300)] : "in2.stl";
		if (i == 0) disk.links["/w/slink.stl"] = "in.stl";
		// destination
		int k = int(C.rare(7, 400));
		R.samefile[i] = R.badpath[i] = R.existed[i] = R.declined[i] = false;
		R.dst0[i] = nullptr;
		str dname = i == 0 ? DST[k] : "second.stl";
		if (i == 0 && k >= 5) R.badpath[i] = true;
		if (k == 7 && i == 0) disk.add("/w/pipe", 'p', "");
		if (C.rare(1, prop == "S02" ? 600 : 40) && i == 0)
		{
			// some other name of the source itself
			R.samefile[i] = true;
			R.badpath[i] = false;
			switch (C.pick(7))
			{
				case 0: dname = "in.stl"; break;
				case 1: dname = "./in.stl"; break;
				case 2: dname = "/w/in.stl"; break;
				case 3: dname = "sub/../in.stl"; break;
				case 4: dname = "hard.stl"; disk.names["/w/hard.stl"] = R.src[i]; break;
				case 5: dname = "soft.stl"; disk.links["/w/soft.stl"] = "in.stl"; break;
				case 6: dname = "sub/soft.stl"; disk.links["/w/sub/soft.stl"] = "../in.stl"; break;
			}
		}
		int err;
		str full = disk.resolve(dname, err);
		bool exists = false;
		if (!R.samefile[i] && !R.badpath[i] && C.rare(1, prop == "S04" ? 800 : 300))
		{
			exists = true;
			Node *n;
			if (C.rare(1, 200)) { str t = i ? "/w/target2.stl" : "/w/target.stl"; n = disk.add(t, 'f', ""); disk.links[full] = t; }
			else n = disk.add(full, 'f', "");
			uint32_t sz = C.pick(3);
			n->data = sz == 0 ? str("precious") : sz == 1 ? str(9000, 'p') : str();
			R.dst0[i] = n;
			R.dstimg[i] = n->data;
		}
		R.existed[i] = exists;
		uint32_t ans = C.rare(6, prop == "S04" ? 700 : 300);
		static const char *A[] = {"y\n", "Y\n", "\n", "n\n", "N\n", "no\n", "quit\n"};
		P[i].answers = A[ans];
		if (R.samefile[i]) P[i].answers = "y\n";
		R.declined[i] = exists && ans >= 3;
		P[i].args = {"stl", sname, dname};
		P[i].srcname = sname;
		P[i].dstname = dname;
		note_world("%sconverter %s %s (source: %zu bytes, %s; destination: %s)%s", procs > 1 ? (i ? "B: " : "A: ") : "", sname.c_str(), dname.c_str(), R.srcimg[i].size(), R.sane[i] ? "consistent binary STL" : "not a binary STL", R.samefile[i] ? "another name of the source" : exists ? "exists" : R.badpath[i] ? "not a usable path" : "absent", exists || R.samefile[i] ? (", user answers '" + P[i].answers.substr(0, P[i].answers.size() - 1) + "'").c_str() : "");
		for (unsigned char c : R.srcimg[i]) mix(c);
	}
	np = procs;
	static const uint32_t RATES[] = {0, 20, 60, 200, 500};
	rate = RATES[C.pick(5)];
	if (C.rare(1, 300)) kinds = 1u << F_SHORTR | 1u << F_EINTRR | 1u << F_SHORTW | 1u << F_EINTRW;		// only what leaves the data intact
	uint32_t one = C.rare(12, 300);
	if (one && one - 1 != F_SWITCH && one - 1 != F_KILL && one - 1 != F_FULL) kinds = 1u << (one - 1);
	if (C.rare(1, 200)) disk.space = C.pick(1 + 500 * uint32_t(R.total[0] + 1));
	for (int i = 0; i < np; ++i) if (C.rare(1, prop == "S05" ? 500 : 150)) killat[i] = int(1 + C.pick(30));
	run_procs();
	Verdict v;
	auto bad = [&](const char *id, str t, const char *cls = "") {
		if (!v.prop.empty() || (prop != id && prop != "all")) return;
		if (*cls && listed.count(cls)) { if (!shown[cls].first++) shown[cls].second = t; return; }
		v = {id, t};
	};
	for (int i = 0; i < np; ++i)
	{
		Proc &p = P[i];
		cur = i;
		note("%s", p.killed ? "killed" : p.threw ? "ended by an exception" : p.rc == 0 ? "reports success" : "reports failure");
		str who = np > 1 ? (i ? "converter B: " : "converter A: ") : "";
		int err;
		bool ok = !p.killed && !p.threw && p.rc == 0;
		// another spelling or link that names the same file, not the same name
		auto othername = [&] { auto abs = [](const str &x) { return x[0] == '/' ? x : "/w/" + x; }; return R.samefile[0] && abs(P[0].srcname) != abs(P[0].dstname); };
		// S02: the source is never altered
		if (R.src[i]->data != R.srcimg[i]) bad("S02", who + "the source file was altered: " + std::to_string(R.srcimg[i].size()) + " bytes before, " + std::to_string(R.src[i]->data.size()) + " after", othername() ? "another name of the source" : "");
		// S01: success means complete and faithful
		if (ok && R.src[i]->data == R.srcimg[i])
		{
			Node *n = D->find(p.dstname, err);
			if (!n || n->kind != 'f') bad("S01", who + "success was reported without a destination file", hard[i] ? "failed call" : "");
			else
			{
				str e = compare(n->data, R.want[i]);
				if (!wrongnormal.empty()) bad("S01", "the destination follows the library's normals, but " + wrongnormal);
				if (!e.empty()) bad("S01", who + "success was reported, but " + e, hard[i] ? "failed call" : "");
				else if (firstoff) bad("S01", who + "success was reported, but the first number does not read back exactly", "first number");
			}
		}
		// S01 (second half): a healthy conversion does succeed
		// S03: what is not a consistent binary STL is refused and the destination left alone
		if (!R.sane[i])
		{
			// the count of facets could not be read and was taken for zero
			const char *cls = R.srcimg[i].size() == 84 && hard[i] & (1u << F_EIOR | 1u << F_EOF) ? "failed read of the count" : "";
			if (ok) bad("S03", who + "a file that is not a consistent binary STL was accepted", cls);
			if (R.dst0[i] && R.dst0[i]->data != R.dstimg[i]) bad("S03", who + "the destination was altered although the source is not a binary STL", cls);
			if (!R.dst0[i] && !R.samefile[i] && !R.badpath[i] && D->find(p.dstname, err)) bad("S03", who + "a destination was created although the source is not a binary STL", cls);
		}
		// S04: an existing destination is only replaced with consent
		if (R.declined[i])
		{
			if (R.dst0[i]->data != R.dstimg[i]) bad("S04", who + "the destination was altered although the user declined");
			if (ok) bad("S04", who + "success was reported although the user declined");
		}
		if (R.existed[i] && R.dst0[i]->data != R.dstimg[i] && p.ansi == 0) bad("S04", who + "the destination was altered without asking");
	}
	// S05: once faults stop, the same command succeeds
	bool again = true;
	if (!faulted && prop != "S05") again = C.pick(8) == 1;
	bool hadfault = faulted;
	if (v.prop.empty() && again)
	{
		rate = 0;
		kinds = 0;
		killat[0] = killat[1] = 0;
		disk.space = -1;
		np = 1;
		for (int i = 0; i < procs; ++i)
		{
			if (!R.sane[i] || R.samefile[i] || R.badpath[i]) continue;
			if (R.src[i]->data != R.srcimg[i]) continue;
			Proc keep0;
			if (i) std::swap(P[0].args, P[1].args), std::swap(P[0].dstname, P[1].dstname);
			P[0].answers = "y\n";
			note_world("faults stop; the user runs %s %s %s again", P[0].args[0].c_str(), P[0].args[1].c_str(), P[0].args[2].c_str());
			run_procs();
			cur = 0;
			note("%s", P[0].threw ? "ended by an exception" : P[0].rc == 0 ? "reports success" : "reports failure");
			int err;
			if (R.want[i].empty())
			{
				if (P[0].rc == 0 && R.total[i]) bad("S05", "a source without a single usable facet was reported as converted");
			}
			else if (P[0].threw || P[0].rc != 0) bad("S05", str("without faults the conversion ") + (P[0].threw ? "ended by an exception" : "reports failure") + ", though the source holds " + std::to_string(R.want[i].size()) + " usable facets: " + P[0].err.substr(0, 120));
			else if (!wrongnormal.empty()) bad("S05", "without faults, " + wrongnormal);
			else { Node *n = D->find(P[0].dstname, err); str e = n ? compare(n->data, R.want[i]) : "there is no destination"; if (!e.empty()) bad("S05", "after faults stop, " + e); else if (firstoff) bad("S05", "after faults stop, the first number does not read back exactly", "first number"); }
			if (R.src[i]->data != R.srcimg[i]) bad("S02", "the source file was altered");
		}
	}
	faulted = hadfault;
	np = procs;
	D = nullptr;
	return v;
}

// ------------------------------------------------------------------------------------------------ driver
static str js(const str &s)
{
	str r = "\"";
	for (unsigned char c : s)
	{
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
static void seed_run(uint64_t seed, uint64_t run)
{
	C = Choices();
	C.s = seed * 0x9E3779B97F4A7C15ull ^ (run + 1) * 0xD1B54A32D192ED03ull;
	C.next();
}
static Verdict rerun(const str &prop, const vec<uint32_t> &in)
{
	C = Choices();
	C.replay = true;
	C.in = in;
	return one_run(prop);
}
int main(int argc, char **argv)
{
	std::map<str, str> o;
	for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	str mode = argc > 1 ? argv[1] : "", prop = o["--prop"];
	std::istringstream ls(o["--known"]);
	for (str x; std::getline(ls, x, ';');) listed.insert(x);
	if (mode == "replay")
	{
		vec<uint32_t> in;
		std::istringstream s(o["--choices"]);
		uint32_t x;
		while (s >> x) in.push_back(x);
		tracing = true;
		Verdict v = rerun(prop, in);
		printf("{\"violation\":%s,\"property\":%s,\"text\":%s,\"hash\":\"%016lx\",\"narrative\":[", v.prop.empty() ? "false" : "true", js(v.prop).c_str(), js(v.text).c_str(), H);
		for (size_t i = 0; i < trace.size(); ++i) printf("%s%s", i ? "," : "", js(trace[i]).c_str());
		printf("]}\n");
		return v.prop.empty() ? 0 : 1;
	}
	uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 10), runs = strtoull(o["--runs"].c_str(), nullptr, 10), from = strtoull(o["--worker"].c_str(), nullptr, 10), step = strtoull(o["--workers"].c_str(), nullptr, 10);
	std::unordered_set<uint64_t> seen;
	long n = 0, withf = 0, two = 0, det = 0, ok = 0, again = 0;
	vec<str> sample;
	for (uint64_t r = from; r < runs; r += step)
	{
		seed_run(seed, r);
		Verdict v = one_run(prop);
		uint64_t h = H;
		++n;
		withf += faulted;
		two += np > 1;
		ok += P[0].rc == 0;
		if (faulted || np > 1) seen.insert(h);
		auto log = C.log;
		if (v.prop.empty() && n % 512 == 1)
		{
			auto keep = std::vector<long>(nfault, nfault + F_N);
			++det;
			Verdict w = rerun(prop, log);
			std::copy(keep.begin(), keep.end(), nfault);
			if (H != h || !w.prop.empty()) { printf("{\"error\":\"run %lu is not deterministic\"}\n", r); return 2; }
		}
		if (sample.size() < 2 && faulted && v.prop.empty())
		{
			auto keep = std::vector<long>(nfault, nfault + F_N);
			tracing = true;
			rerun(prop, log);
			tracing = false;
			std::copy(keep.begin(), keep.end(), nfault);
			str t;
			for (size_t i = 0; i < trace.size() && i < 14; ++i) t += (i ? ", " : "") + js(trace[i]);
			sample.push_back("{\"run\":" + std::to_string(r) + ",\"history\":[" + t + "]}");
		}
		if (!v.prop.empty())
		{
			// minimise: shorten the choice stream, then set choices to 0
			vec<uint32_t> best = log;
			auto fails = [&](const vec<uint32_t> &c) { Verdict w = rerun(prop, c); return w.prop == v.prop; };
			for (size_t cut = best.size() / 2; cut; cut /= 2)
				while (best.size() >= cut)
				{
					vec<uint32_t> t(best.begin(), best.end() - long(cut));
					if (!fails(t)) break;
					best = t;
				}
			for (int pass = 0; pass < 3; ++pass)
				for (size_t i = 0; i < best.size(); ++i)
					if (best[i])
					{
						uint32_t was = best[i];
						best[i] = 0;
						if (!fails(best)) { best[i] = was; if (was > 1) { best[i] = 1; if (!fails(best)) best[i] = was; } }
					}
			tracing = true;
			Verdict w = rerun(prop, best);
			printf("{\"violation\":true,\"run\":%lu,\"runs\":%ld,\"property\":%s,\"text\":%s,\"hash\":\"%016lx\",\"choices\":\"", r, n, js(w.prop).c_str(), js(w.text).c_str(), H);
			for (size_t i = 0; i < best.size(); ++i) printf("%s%u", i ? " " : "", best[i]);
			printf("\",\"narrative\":[");
			for (size_t i = 0; i < trace.size(); ++i) printf("%s%s", i ? "," : "", js(trace[i]).c_str());
			printf("]}\n");
			return 1;
		}
	}
	printf("{\"violation\":false,\"runs\":%ld,\"faulted\":%ld,\"two\":%ld,\"determinism\":%ld,\"succeeded\":%ld,\"system_calls\":%ld,\"distinct\":%zu,\"faults\":{", n, withf, two, det, ok, nsys, seen.size());
	for (int i = 0; i < F_N; ++i) printf("%s%s:%ld", i ? "," : "", js(FN[i]).c_str(), nfault[i]);
	printf("},\"known\":{");
	for (auto i = shown.begin(); i != shown.end(); ++i) printf("%s%s:%ld", i != shown.begin() ? "," : "", js(i->first).c_str(), i->second.first);
	printf("},\"samples\":[");
	for (size_t i = 0; i < sample.size(); ++i) printf("%s%s", i ? "," : "", sample[i].c_str());
	printf("]}\n");
	return 0;
}
