#include "rt.hpp"
#include <sys/mman.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <unistd.h>
#include <cerrno>
#include <pthread.h>

Rt rt;
volatile bool g_active = false;

// ---------------------------------------------------------------- context switch
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8,%rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp,(%rdi)
	movq (%rsi),%rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void fiber_main()
{
	Fiber &f = *rt.cur;
	f.fn(f);
	f.st = FS_DONE;
	// fn must have switched away; reaching this point is a harness error
	fprintf(stderr, "fiber returned\n");
	_exit(2);
}

void rt_start(Fiber &f, void (*fn)(Fiber &), void *arg)
{
	f.fn = fn; f.arg = arg; f.st = FS_READY;
	uintptr_t top = STK + STK_ONE * (f.id + 1) - 64;
	void **sp = (void **)top;
	*--sp = nullptr;                        // alignment / fake return
	*--sp = (void *)fiber_main;
	for (int i = 0; i < 6; ++i) *--sp = nullptr;
	--sp;
	((u32 *)sp)[0] = 0x1f80; ((unsigned short *)sp)[2] = 0x37f;     // the default floating-point environment
	f.ctx.sp = sp;
	f.tls = rt.tls_snap;
	f.eh[0] = f.eh[1] = 0;
	f.esc_ok = false; f.active = false; f.fp = nullptr; f.pend_n = 0; f.stalled = false; f.opi = -1; f.acc = 0; f.parent = -1; f.guard_depth = 0; f.waiting_lock = 0; f.wait_mutex = nullptr; f.edge_budget = 0; f.edges = 0;
	f.writes = f.reads = f.gwrites = 0;
}

void rt_poison(Fiber &f, u64 seed)
{
	// fill the dead part of this fiber's stack below the current frame
	char here;
	uintptr_t lo = STK + STK_ONE * f.id + 4096, sp = (uintptr_t)&here;
	if (sp < lo || sp > lo + STK_ONE) return;
	uintptr_t end = sp - 512, beg = end - 3072;
	if (beg < lo) beg = lo;
	u64 v = seed;
	for (uintptr_t a = beg & ~7ull; a < end; a += 8) { v = v * 6364136223846793005ull + 1442695040888963407ull; *(volatile u64 *)a = v; }
}

static u64 *eh_globals() { return (u64 *)abi::__cxa_get_globals(); }

static void tls_save(Fiber *f, bool save)
{
	if (!rt.tls_sz || !rt.tls_lo) return;
	if (save) memcpy(f->tls.data(), (void *)rt.tls_lo, rt.tls_sz);
	else memcpy((void *)rt.tls_lo, f->tls.data(), rt.tls_sz);
}

void rt_switch(Fiber *to)
{
	Fiber *from = rt.cur;
	if (from == to) return;
	bool act = g_active;
	g_active = false;
	u64 *eh = eh_globals();
	if (from) { from->active = act; from->eh[0] = eh[0]; from->eh[1] = eh[1]; } else { rt.main_eh[0] = eh[0]; rt.main_eh[1] = eh[1]; }
	// an interrupt handler runs on the interrupted thread: it shares its thread-local storage
	auto owner = [](Fiber *f) { while (f && f->parent >= 0) f = &rt.fib[f->parent]; return f; };
	Fiber *fo = owner(from), *toO = owner(to);
	if (rt.tls_sz && fo != toO) { if (fo) tls_save(fo, true); if (toO) tls_save(toO, false); }
	if (to) { eh[0] = to->eh[0]; eh[1] = to->eh[1]; } else { eh[0] = rt.main_eh[0]; eh[1] = rt.main_eh[1]; }
	rt.cur = to;
	Ctx *fc = from ? &from->ctx : &rt.main_ctx;
	Ctx *tc = to ? &to->ctx : &rt.main_ctx;
	sim_switch(fc, tc);
	g_active = rt.cur ? rt.cur->active : false;
}

[[noreturn]] void rt_escape(Fiber &f, EscReason why)
{
	g_active = false; f.active = false;
	f.why = why;
	if (!f.esc_ok) { fprintf(stderr, "sim: escape (%d) outside an operation\n", (int)why); _exit(2); }
	f.esc_ok = false;
	u64 *eh = eh_globals(); eh[0] = eh[1] = 0;
	__builtin_longjmp(f.esc.buf, 1);
}

// ---------------------------------------------------------------- accesses
bool same_val(const void *a, const void *b, int sz)
{
	if (!memcmp(a, b, sz)) return true;
	if (rt.fp && sz == 4) { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x == y || (x != x && y != y); }
	if (rt.fp && sz == 8) { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x == y || (x != x && y != y); }
	return false;
}
void rt_settle(Fiber &f)
{
	if (!f.pend_n) return;
	u32 off = f.pend_off, n = f.pend_n;
	f.pend_n = 0;
	if (!f.fp || !f.fp->check_atomic) return;
	const u8 *mem = (const u8 *)ARENA;
	for (int i = 0; i < f.fp->n; ++i)
	{
		FpE &e = f.fp->e[i];
		if (e.off < off + n && off < e.off + e.sz)
			if (!same_val(mem + e.off, e.oldv, e.sz) && !same_val(mem + e.off, e.newv, e.sz))
			{
				char b[200]; snprintf(b, sizeof b, "component at +%u was given an intermediate value (bytes %02x%02x%02x%02x, neither its old nor its new value)", e.off, mem[e.off], e.sz > 1 ? mem[e.off + 1] : 0, e.sz > 2 ? mem[e.off + 2] : 0, e.sz > 3 ? mem[e.off + 3] : 0);
				rt.hk.violation("torn", b);
			}
	}
}

static const char *where(uintptr_t a, char *b, size_t n)
{
	if (a - ARENA < ARENA_SZ) snprintf(b, n, "arena+%lu", (unsigned long)(a - ARENA));
	else if (a < 4096) snprintf(b, n, "null+%lu", (unsigned long)a);
	else { for (auto &s : rt.segs) if (a >= s.lo && a < s.hi) { snprintf(b, n, "static storage+%lu", (unsigned long)(a - s.lo)); return b; } snprintf(b, n, "other memory"); }
	return b;
}

enum Cls { C_ARENA, C_GLOB, C_OTHER, C_NULL, C_TLS };
static void access_slow(uintptr_t a, size_t n, bool w, bool atomic)
{
	Fiber &f = *rt.cur;
	rt_settle(f);
	Cls c = C_OTHER;
	if (a - ARENA < ARENA_SZ) c = C_ARENA;
	else if (a < 4096) c = C_NULL;
	else if (a >= rt.so_lo && a < rt.so_hi)
		for (auto &s : rt.segs) if (a >= s.lo && a < s.hi) { c = C_GLOB; break; }
	if (rt.tls_lo && a - rt.tls_lo < rt.tls_sz) c = C_TLS;      // the thread's own storage (shared with its interrupt handlers)
	if (c == C_OTHER && a >= rt.so_lo && a < rt.so_hi) return;  // constants
	f.acc++;
	rt.accesses++;
	rt.steps++;
	u64 off = c == C_ARENA ? a - ARENA : c == C_GLOB ? a - rt.so_lo : c == C_TLS ? a - rt.tls_lo : 0;
	rt.hash = mix(rt.hash ^ (u64)f.id << 56 ^ (u64)c << 48 ^ off << 8 ^ n << 1 ^ w);
	rt.hk.yield_point(f, w ? 4 : 0);
	char b[80];
	if (c == C_NULL) { rt.hk.violation("null-access", std::string(w ? "write" : "read") + " through a null pointer (" + where(a, b, sizeof b) + ")"); return; }
	if (c == C_GLOB && w)
	{
		rt.glob_dirty = true;
		f.gwrites++;
		if (rt.strict_globals && !atomic && !f.guard_depth) rt.hk.violation("static-write", std::string("unsynchronised write to shared static storage (") + where(a, b, sizeof b) + ")");
	}
	if (c != C_ARENA) return;
	if (w)
	{
		f.writes++;
		Fp *fp = f.fp;
		if (fp && !fp->any)
		{
			// every written byte must belong to a component (or object) this operation may write
			for (u32 x = (u32)off; x < off + n;)
			{
				u32 nx = x;
				for (int i = 0; i < fp->n && nx == x; ++i) if (x >= fp->e[i].off && x < fp->e[i].off + fp->e[i].sz) nx = fp->e[i].off + fp->e[i].sz;
				for (int i = 0; i < fp->nx && nx == x; ++i) if (x >= fp->xoff[i] && x < fp->xoff[i] + fp->xlen[i]) nx = fp->xoff[i] + fp->xlen[i];
				if (nx == x) { rt.hk.violation("stray-write", std::string("write of ") + std::to_string(n) + " bytes at " + where(a, b, sizeof b) + " touches memory the operation does not address"); return; }
				x = nx;
			}
		}
		f.pend_off = (u32)off; f.pend_n = (u32)n;
	}
	else
	{
		f.reads++;
		Fp *fp = f.fp;
		if (fp && fp->readcheck)
		{
			bool ok = false;
			for (int i = 0; i < fp->nr && !ok; ++i) ok = off >= fp->roff[i] && off + n <= fp->roff[i] + fp->rlen[i];
			if (!ok) rt.hk.violation("stray-read", std::string("read of ") + std::to_string(n) + " bytes at " + where(a, b, sizeof b) + " is outside the operands");
		}
	}
}
static inline void acc(void *p, size_t n, bool w, bool atomic = false)
{
	if (!g_active) return;
	uintptr_t a = (uintptr_t)p;
	if (a - STK < STK_SZ || a - ENG < ENG_SZ) return;
	g_active = false;
	access_slow(a, n, w, atomic);
	g_active = true;
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void *p) { acc(p, N, false); } \
	void __tsan_write##N(void *p) { acc(p, N, true); } \
	void __tsan_unaligned_read##N(void *p) { acc(p, N, false); } \
	void __tsan_unaligned_write##N(void *p) { acc(p, N, true); } \
	void __tsan_read_write##N(void *p) { acc(p, N, false); acc(p, N, true); } \
	void __tsan_unaligned_read_write##N(void *p) { acc(p, N, false); acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_read_range(void *p, long n) { acc(p, n, false); }
void __tsan_write_range(void *p, long n) { acc(p, n, true); }

// Bulk copies happen piecewise in the simulator, so that they can be interrupted half way like
// any other sequence of stores. Pieces follow the element size of the world (set by the plan).
int sim_chunk = 4;
static inline bool tracked(const void *p) { uintptr_t a = (uintptr_t)p; return !(a - STK < STK_SZ || a - ENG < ENG_SZ); }
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	if (!g_active || (!tracked(d) && !tracked(s)) || !n) return memmove(d, s, n);
	size_t c = sim_chunk;
	bool back = (uintptr_t)d > (uintptr_t)s && (uintptr_t)d < (uintptr_t)s + n;
	size_t k = (n + c - 1) / c;
	for (size_t i = 0; i < k; ++i)
	{
		size_t j = back ? k - 1 - i : i, o = j * c, m = o + c <= n ? c : n - o;
		acc((char *)const_cast<void *>(s) + o, m, false);
		u8 t[16]; memcpy(t, (const char *)s + o, m);
		acc((char *)d + o, m, true);
		memcpy((char *)d + o, t, m);
	}
	return d;
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n)
{
	if (!g_active || !tracked(d) || !n) return memset(d, v, n);
	size_t c = sim_chunk;
	for (size_t o = 0; o < n; o += c) { size_t m = o + c <= n ? c : n - o; acc((char *)d + o, m, true); memset((char *)d + o, v, m); }
	return d;
}

#define ATOMICS(N, T) \
	T __tsan_atomic##N##_load(const volatile T *p, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), false, true); return *p; } \
	void __tsan_atomic##N##_store(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); *p = v; } \
	T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)(o & v); return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)(o | v); return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)(o ^ v); return o; } \
	T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; *p = (T)~(o & v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { rt.atomic_ops += g_active; acc((void *)p, sizeof(T), true, true); T o = *p; if (o == e) *p = v; return o; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// control-flow edges: the step clock and the coverage measure
void __sanitizer_cov_trace_pc_guard_init(u32 *b, u32 *e) { for (; b < e; ++b) if (!*b) *b = ++rt.ncov; }
static inline void edge()
{
	rt.edges++;
	Fiber &f = *rt.cur;
	if (++f.edges > f.edge_budget && f.edge_budget)
	{
		g_active = false;
		rt.hk.violation("progress", "operation did not finish within " + std::to_string(f.edge_budget) + " control-flow steps of its own");
		rt_escape(f, ESC_BUDGET);
	}
}
void __sanitizer_cov_trace_pc_guard(u32 *g)
{
	if (!g_active) return;
	if (rt.cov) rt.cov[*g] = 1;
	edge();
}
void __sanitizer_cov_trace_pc() { if (g_active) edge(); }      // units compiled by gcc: they count as steps, not for coverage
void __sanitizer_cov_trace_pc_indir(void *) {}

// ---------------------------------------------------------------- environment of the library
void __assert_fail(const char *e, const char *file, unsigned line, const char *)
{
	if (rt.cur && rt.cur->esc_ok && g_active)
	{
		g_active = false;
		rt_settle(*rt.cur);
		rt.cur->assert_msg = e;
		rt_escape(*rt.cur, ESC_ASSERT);
	}
	fprintf(stderr, "harness assertion: %s (%s:%u)\n", e, file, line);
	_exit(2);
}
void abort()
{
	if (rt.cur && rt.cur->esc_ok && g_active) { g_active = false; rt_escape(*rt.cur, ESC_ABORT); }
	_exit(2);
}

static int mtx_block(pthread_mutex_t *m)
{
	// contended: another client (possibly dead or stalled) holds it
	Fiber &f = *rt.cur;
	rt.mutex_ops++;
	int spins = 0;
	while (__atomic_load_n((int *)m, __ATOMIC_RELAXED) != 0)
	{
		bool act = g_active; g_active = false;
		if (++spins > 4000) { rt.hk.violation("progress", "operation waits for a lock that is not released"); rt_escape(f, ESC_BUDGET); }
		f.acc++; rt.steps++;
		rt.hk.yield_point(f, 3);
		g_active = act;
	}
	*(int *)m = 1;
	return 0;
}
int __real_mutex_lock(pthread_mutex_t *m)
{
	static int (*fn)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	return fn(m);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!g_active) return __real_mutex_lock(m);
	return mtx_block(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	static int (*fn)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	if (!g_active) return fn(m);
	rt.mutex_ops++;
	if (*(int *)m) return EBUSY;
	*(int *)m = 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	static int (*fn)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	if (!g_active) return fn(m);
	*(int *)m = 0;
	return 0;
}
int __cxa_guard_acquire(abi::__guard *g)
{
	if (*(u8 *)g) return 0;
	if (g_active)
	{
		Fiber &f = *rt.cur;
		rt.glob_dirty = true;
		int spins = 0;
		while (((u8 *)g)[1])
		{
			g_active = false;
			if (++spins > 4000) { rt.hk.violation("progress", "operation waits for the initialisation of a static object that does not finish"); rt_escape(f, ESC_BUDGET); }
			f.acc++; rt.steps++;
			rt.hk.yield_point(f, 3);
			g_active = true;
			if (*(u8 *)g) return 0;
		}
		f.guard_depth++;
	}
	((u8 *)g)[1] = 1;
	return 1;
}
void __cxa_guard_release(abi::__guard *g) noexcept { ((u8 *)g)[1] = 0; *(u8 *)g = 1; if (g_active && rt.cur->guard_depth) rt.cur->guard_depth--; }
void __cxa_guard_abort(abi::__guard *g) noexcept { ((u8 *)g)[1] = 0; if (g_active && rt.cur->guard_depth) rt.cur->guard_depth--; }
int sched_yield() { if (g_active) { g_active = false; Fiber &f = *rt.cur; f.acc++; rt.steps++; rt.hk.yield_point(f, 3); g_active = true; } return 0; }

// allocation: the library must not need any
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static bool alloc_fails()
{
	if (!g_active) return false;
	++rt.allocs;
	bool r = rt.alloc_mode == 1 || (rt.alloc_mode == 2 && (int)rt.allocs == rt.alloc_nth) || (rt.alloc_mode == 3 && (int)rt.allocs >= rt.alloc_nth);
	rt.alloc_failed += r;
	return r;
}
void *malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
void free(void *p) { __libc_free(p); }
void *aligned_alloc(size_t a, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (alloc_fails()) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }

void sim_yield()
{
	if (!g_active) return;
	g_active = false;
	Fiber &f = *rt.cur;
	rt_settle(f);
	f.acc++; rt.steps++;
	rt.hk.yield_point(f, 1);
	g_active = true;
}
void sim_callback(long tag, double v)
{
	if (!g_active) return;
	g_active = false;
	Fiber &f = *rt.cur;
	rt_settle(f);
	u64 x; memcpy(&x, &v, 8);
	if (v != v) x = 1;
	rt.hash = mix(rt.hash ^ (u64)tag << 40 ^ x ^ (u64)f.id << 60);
	f.acc++; rt.steps++;
	rt.hk.yield_point(f, 1);
	g_active = true;
}
void sim_fresh(const void *p) { if (rt.fresh && (u64)p - ARENA < ARENA_SZ) sim_note("an operation that computes a new object has returned one that lies in the memory of its operands"); }
void sim_note(const char *w) { bool a = g_active; g_active = false; rt.hk.violation("workload", w); g_active = a; }
}   // extern "C"

void *operator new(size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static void on_terminate()
{
	if (rt.cur && rt.cur->esc_ok) { g_active = false; rt_escape(*rt.cur, ESC_TERMINATE); }
	fprintf(stderr, "sim: terminate outside an operation\n");
	_exit(2);
}
static void on_signal(int sig, siginfo_t *, void *)
{
	if (rt.cur && rt.cur->esc_ok)
	{
		g_active = false;
		sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
		rt_escape(*rt.cur, sig == SIGFPE ? ESC_FPE : ESC_SEGV);
	}
	static const char m[] = "sim: fatal signal outside an operation\n";
	if (write(2, m, sizeof m - 1)) {}
	_exit(2);
}

static void *map_at(uintptr_t a, size_t n)
{
	void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)a) { fprintf(stderr, "sim: cannot map %lx\n", (unsigned long)a); _exit(2); }
	return p;
}
void rt_init()
{
	map_at(ARENA, ARENA_SZ); map_at(STK, STK_SZ); map_at(ENG, ENG_SZ);
	for (unsigned i = 0; i < NSTK; ++i) { rt.fib[i].id = i; mprotect((void *)(STK + STK_ONE * i), 4096, PROT_NONE); }
	stack_t ss{}; ss.ss_sp = mmap(nullptr, 64 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 64 << 10;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
	std::set_terminate(on_terminate);
}

void rt_load(const char *so, Registry &R)
{
	void *h = dlopen(so, RTLD_NOW | RTLD_GLOBAL);
	if (!h) { fprintf(stderr, "sim: %s\n", dlerror()); _exit(2); }
	auto reg = (void (*)(Registry *))dlsym(h, "dsga_sim_register");
	if (!reg) { fprintf(stderr, "sim: %s\n", dlerror()); _exit(2); }
	reg(&R);

	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) -> int {
		if (!i->dlpi_name || !strstr(i->dlpi_name, "libwork")) return 0;
		for (int k = 0; k < i->dlpi_phnum; ++k)
		{
			auto &p = i->dlpi_phdr[k];
			uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
			if (p.p_type == PT_LOAD)
			{
				if (!rt.so_lo || lo < rt.so_lo) rt.so_lo = lo;
				if (hi > rt.so_hi) rt.so_hi = hi;
				if (p.p_flags & PF_W) rt.segs.push_back(Rt::Seg{lo, hi, {}});
			}
			if (p.p_type == PT_GNU_RELRO) {}
			if (p.p_type == PT_TLS) { rt.tls_sz = p.p_memsz; rt.tls_lo = (uintptr_t)i->dlpi_tls_data; rt.tls_mod = i->dlpi_tls_modid; }
		}
		return 1;
	}, nullptr);
	if (!rt.so_lo) { fprintf(stderr, "sim: workload library not found in the process map\n"); _exit(2); }
	if (rt.tls_sz && !rt.tls_lo)
	{
		struct { size_t m, o; } ti{rt.tls_mod, 0};
		extern void *tls_get(void *) asm("__tls_get_addr");
		rt.tls_lo = (uintptr_t)tls_get(&ti);
	}
	if (rt.tls_sz) rt.tls_snap.assign((u8 *)rt.tls_lo, (u8 *)rt.tls_lo + rt.tls_sz);
	for (auto &s : rt.segs) s.snap.assign((u8 *)s.lo, (u8 *)s.hi);
}
void rt_reset_globals()
{
	if (!rt.glob_dirty) return;
	for (auto &s : rt.segs)
		for (size_t o = 0; o < s.snap.size();)
		{   // pages made read-only after relocation hold no state; write back only what differs
			size_t n = s.snap.size() - o < 4096 ? s.snap.size() - o : 4096;
			if (memcmp((void *)(s.lo + o), s.snap.data() + o, n)) memcpy((void *)(s.lo + o), s.snap.data() + o, n);
			o += n;
		}
	rt.glob_dirty = false;
}
void rt_reset_run()
{
	rt_reset_globals();
	if (rt.tls_sz) memcpy((void *)rt.tls_lo, rt.tls_snap.data(), rt.tls_sz);
	rt.hash = 0x1234; rt.steps = 0; rt.edges = 0; rt.accesses = 0; rt.allocs = 0; rt.alloc_failed = 0; rt.alloc_mode = 0; rt.alloc_nth = 0;
	rt.cur = nullptr; g_active = false;
	for (auto &f : rt.fib) { f.st = FS_DONE; f.stalled = false; f.parent = -1; f.fp = nullptr; f.active = false; f.esc_ok = false; f.pend_n = 0; }
}
