// Simulator runtime: fibers, intercepted memory accesses, intercepted environment.
#pragma once
#include "../iface.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static constexpr uintptr_t ARENA = 0x100000000000, ARENA_SZ = 64 << 10;
static constexpr uintptr_t STK = 0x110000000000, STK_ONE = 256 << 10, NSTK = 16, STK_SZ = STK_ONE * NSTK;
static constexpr uintptr_t ENG = 0x120000000000, ENG_SZ = 4 << 20;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng
{
	u64 s;
	explicit Rng(u64 x = 1) : s(mix(x)) {}
	u64 next() { return s = mix(s); }
	u32 below(u32 n) { return n ? (u32)((next() >> 33) % n) : 0; }
	bool chance(double p) { return (double)(next() >> 11) * 0x1p-53 < p; }
	int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
};

struct Ctx { void *sp; };
extern "C" void sim_switch(Ctx *from, Ctx *to);
extern "C" void sim_fiber_entry();

// escape from library code back into the operation wrapper (abort, terminate, fault signals)
struct Esc { void *buf[8]; };

enum EscReason { ESC_NONE, ESC_ASSERT, ESC_TERMINATE, ESC_SEGV, ESC_FPE, ESC_VIOL, ESC_ABORT, ESC_BUDGET };

enum FState { FS_READY, FS_BLOCKED, FS_DONE, FS_DEAD, FS_WAITALL };

// what an executing operation may write: components with their old and new values
struct FpE { u32 off; u8 sz; u8 oldv[8], newv[8]; };
struct Fp
{
	int n = 0;
	FpE e[48];
	int nx = 0;
	u32 xoff[6], xlen[6];           // further byte ranges that may be written (whole objects)
	int nr = 0;
	u32 roff[12], rlen[12];         // byte ranges that may be read
	bool check_atomic = true;       // every write must store an old or a new component value
	bool approx = false;
	bool any = false;               // no footprint check at all
	bool readcheck = false;
};

struct Fiber
{
	Ctx ctx;
	int id;
	int st = FS_DONE;
	bool stalled = false;
	u64 stall_until = 0;
	void (*fn)(Fiber &) = nullptr;
	void *arg = nullptr;
	// position, for reproducible scheduling decisions
	int opi = -1;
	u32 acc = 0;
	u64 edges = 0, edge_budget = 0;
	bool active = false;            // executing library code
	Fp *fp = nullptr;
	u32 pend_off = 0, pend_n = 0;
	Esc esc;
	bool esc_ok = false;
	EscReason why = ESC_NONE;
	u64 eh[2] = {0, 0};
	std::vector<u8> tls;
	u64 writes = 0, reads = 0, gwrites = 0;
	int prio = 0;
	int parent = -1;                // interrupt handler: the interrupted fiber
	int waiting_lock = 0;
	void *wait_mutex = nullptr;
	int guard_depth = 0;
	const char *assert_msg = nullptr;
};

struct Hooks    // provided by the simulation proper
{
	void (*yield_point)(Fiber &, int kind);     // kind: 0 access, 1 callback, 2 sync
	void (*violation)(const char *cls, const std::string &txt);
};

struct Rt
{
	Fiber fib[NSTK];
	Fiber *cur = nullptr;
	Ctx main_ctx;
	u64 main_eh[2] = {0, 0};
	bool *active_p;
	u64 hash = 0, steps = 0, edges = 0, accesses = 0;
	Hooks hk;
	bool fresh = false;             // results are checked to lie outside shared memory
	// allocation
	int alloc_mode = 0;             // 0 normal, 1 always fail, 2 fail nth, 3 fail from nth on
	int alloc_nth = 0;
	u64 allocs = 0, alloc_failed = 0;
	bool glob_dirty = false;
	bool strict_globals = false;    // writes to static storage are violations
	bool trace = false;
	bool fp = false;                // scalar type of the run is floating point
	uintptr_t so_lo = 0, so_hi = 0; // mapping of the workload library
	struct Seg { uintptr_t lo, hi; std::vector<u8> snap; };
	std::vector<Seg> segs;
	uintptr_t tls_lo = 0; size_t tls_sz = 0; size_t tls_mod = 0;
	std::vector<u8> tls_snap;
	u8 *cov = nullptr; u32 ncov = 0;
	u64 mutex_ops = 0, atomic_ops = 0;
};
extern Rt rt;
extern volatile bool g_active;      // mirrors cur->active, checked first by every hook

void rt_init();                                 // maps memory, installs handlers
void rt_load(const char *so, Registry &R);      // loads the workload library, takes snapshots
void rt_reset_globals();
void rt_reset_run();
void rt_start(Fiber &f, void (*fn)(Fiber &), void *arg);
void rt_switch(Fiber *to);                      // nullptr: main context
[[noreturn]] void rt_escape(Fiber &f, EscReason why);
void rt_settle(Fiber &f);
void rt_poison(Fiber &f, u64 seed);
bool same_val(const void *a, const void *b, int sz); // equal as values (NaN equals NaN)
