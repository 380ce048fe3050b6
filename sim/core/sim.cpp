// The simulation: seeded worlds and histories, scheduler, fault injection, reference model checks,
// minimisation and replay. Everything random is derived from the run's seed.
#include "rt.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fenv.h>

extern "C" int sim_chunk;
using std::string;
using std::vector;

static string fmt(const char *f, ...)
{
	char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ================================================================ configuration of a property
enum Mode { M_DISJOINT, M_READONLY, M_LOCKED, M_RACY };
enum FaultKind { FK_CRASH, FK_STALL, FK_INTERRUPT, FK_ALLOC, FK_ADVERSARY, FK_COUNT };
static const char *fault_name[] = {"crash", "stall", "interrupt", "allocation-failure", "adversary"};

struct Cfg
{
	const char *id;
	Mode mode = M_DISJOINT;
	int min_clients = 2, max_clients = 4, min_ops = 3, max_ops = 10;
	double p_fault[FK_COUNT] = {0, 0, 0, 0, 0};    // probability that a run injects (some of) this kind
	int max_crash = 1;
	bool recovery = false;
	double alias = 0.2;             // bias towards operands overlapping other operands
	double p_reset = 0, p_copy = 0; // plan steps: rebinding of views; copies of objects
	double p_handle = 0;            // preference for handles
	bool readcheck = false;
	bool rerun = false;
	bool misuse = false;            // injects misuse steps
	bool no_alloc = false;
	int alloc_mode = 0;
	u32 need = 0, forbid = 0;       // op flags
	u32 prefer = 0;                 // op flags drawn more often
	double p_prefer = 0;
	bool views_heavy = false;
	bool fresh = false;             // results must be objects of their own
	bool vary_fp = false;           // some clients run with another rounding direction or with denormals flushed
	u64 edge_budget = 400000;
	bool extreme = false;
};

static vector<Cfg> make_cfgs()
{
	vector<Cfg> v;
	auto add = [&](Cfg c) { c.forbid |= F_KNOWN; if (!c.misuse) c.forbid |= F_MISUSE; v.push_back(c); };
	{ Cfg c; c.id = "C01"; c.readcheck = true; c.p_fault[FK_STALL] = .25; c.p_fault[FK_CRASH] = .25; c.prefer = F_PART; c.p_prefer = .3; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C02"; c.vary_fp = true; c.mode = M_READONLY; c.need = F_READ; c.readcheck = true; c.p_fault[FK_STALL] = .2; c.p_fault[FK_CRASH] = .2; c.forbid = F_HANDLE | F_HUSE; c.max_clients = 5; add(c); }
	{ Cfg c; c.id = "C03"; c.need = F_WRITE; c.p_fault[FK_CRASH] = 1; c.max_crash = 3; c.recovery = true; c.min_clients = 1; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C04"; c.mode = M_LOCKED; c.alias = .9; c.min_clients = 1; c.max_clients = 3; c.need = F_WRITE; c.views_heavy = true; c.forbid = F_HANDLE | F_HUSE; c.max_ops = 14; add(c); }
	{ Cfg c; c.id = "C05"; c.mode = M_LOCKED; c.alias = .3; c.p_fault[FK_CRASH] = .3; c.p_fault[FK_STALL] = .3; c.max_ops = 16; c.p_reset = .03; c.p_copy = .03; c.recovery = true; c.max_clients = 5; add(c); }
	{ Cfg c; c.id = "C06"; c.mode = M_LOCKED; c.alias = .3; c.p_fault[FK_CRASH] = .25; c.p_reset = .35; c.p_copy = .12; c.views_heavy = true; c.max_ops = 12; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C07"; c.need = F_CALLBACK; c.p_fault[FK_CRASH] = .3; c.p_fault[FK_STALL] = .3; c.p_fault[FK_INTERRUPT] = .2; add(c); }
	{ Cfg c; c.id = "C08"; c.mode = M_LOCKED; c.p_fault[FK_ALLOC] = .4; c.p_fault[FK_CRASH] = .25; c.alias = .6; c.views_heavy = true; c.prefer = F_THROW; c.p_prefer = .6; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C09"; c.mode = M_LOCKED; c.no_alloc = true; c.alloc_mode = 1; c.p_copy = .05; c.p_reset = .05; c.forbid = F_THROW; c.p_fault[FK_CRASH] = .1; add(c); }
	{ Cfg c; c.id = "C10"; c.vary_fp = true; c.p_fault[FK_INTERRUPT] = 1; c.p_fault[FK_STALL] = .2; c.min_clients = 1; c.max_clients = 3; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C11"; c.mode = M_LOCKED; c.prefer = F_ITER | F_HANDLE; c.p_prefer = .9; c.alias = .5; c.p_fault[FK_CRASH] = .15; c.max_ops = 14; add(c); }
	{ Cfg c; c.id = "C12"; c.misuse = true; c.mode = M_LOCKED; c.readcheck = true; c.min_clients = 1; c.max_clients = 3; c.prefer = F_MISUSE; c.p_prefer = .6; c.p_fault[FK_STALL] = .2; add(c); }
	{ Cfg c; c.id = "C13"; c.fresh = true; c.mode = M_LOCKED; c.alias = .3; c.p_copy = .3; c.p_reset = .08; c.prefer = F_CONV; c.p_prefer = .3; c.p_fault[FK_CRASH] = .2; c.forbid = F_HANDLE | F_HUSE; c.views_heavy = true; add(c); }
	{ Cfg c; c.id = "C14"; c.mode = M_LOCKED; c.rerun = true; c.readcheck = true; c.alias = .3; c.p_fault[FK_STALL] = .2; c.forbid = F_HANDLE | F_HUSE; add(c); }
	{ Cfg c; c.id = "C15"; c.mode = M_RACY; c.alias = .4; c.p_fault[FK_STALL] = .5; c.p_fault[FK_CRASH] = .4; c.p_fault[FK_ADVERSARY] = .4; c.extreme = true; c.edge_budget = 2500; c.forbid = F_MULTI | F_HANDLE | F_HUSE; c.min_clients = 3; c.max_clients = 5; add(c); }
	return v;
}

// ================================================================ registry index
static Registry REG;
struct Group { string name; vector<int> ops; };
struct TypeIndex
{
	vector<Group> groups;                       // all operations for one scalar type, by function
	std::map<int, vector<int>> by_type;         // operations by key of operand 0
	vector<int> pref;                           // indices into groups: preferred groups
};
static TypeIndex IDX[ST_COUNT];
static vector<int> USABLE_ST;
static std::map<int, const ObjVT *> OBJVT[ST_COUNT];

static bool op_ok(const Cfg &c, const OpDesc &d)
{
	if (d.flags & c.forbid) return false;
	if (c.need && !(d.flags & c.need)) return false;
	if (c.mode == M_READONLY && !(d.flags & F_READ)) return false;
	if (d.flags & F_HUSE) return false;         // only together with its 'take'
	return true;
}
static void build_index(const Cfg &c)
{
	for (auto &o : REG.objs) OBJVT[o.st][o.t.key()] = &o;
	for (int s = 0; s < ST_COUNT; ++s)
	{
		std::map<string, vector<int>> g;
		for (int i = 0; i < (int)REG.ops.size(); ++i)
		{
			OpDesc &d = REG.ops[i];
			if (d.st != s || !op_ok(c, d)) continue;
			if (c.mode == M_RACY && d.st != ST_FLOAT && d.st != ST_DOUBLE && (d.grp[0] == '/' || d.grp[0] == '%')) continue;
			bool have = true;
			for (int k = 0; k < d.nobj; ++k) have = have && OBJVT[s].count(d.ot[k].key());
			if (!have) { fprintf(stderr, "sim: no object type for %s\n", d.name.c_str()); _exit(2); }
			g[d.grp].push_back(i);
			IDX[s].by_type[d.ot[0].key()].push_back(i);
		}
		for (auto &kv : g) { IDX[s].groups.push_back({kv.first, kv.second}); if (REG.ops[kv.second[0]].flags & c.prefer) IDX[s].pref.push_back((int)IDX[s].groups.size() - 1); }
		if (!IDX[s].groups.empty()) USABLE_ST.push_back(s);
	}
	if (USABLE_ST.empty()) { fprintf(stderr, "sim: no operations for this property\n"); _exit(2); }
}

// ================================================================ worlds and plans
struct Obj
{
	const ObjVT *vt;
	u32 off = 0, size = 0;
	bool alive = false;
	u32 cell0 = 0;          // address of component 0 (views: current target)
	int src = -1;           // copies: created from
	int gen = 0;            // how often it was rebound
	bool move = false;
	bool view() const { return vt->t.kind == K_W || vt->t.kind == K_C; }
};
struct Region { u32 off; int n; int obj; };     // cells that views may be bound to
enum StepKind : u8 { S_OP, S_RESET, S_COPY };
struct Step
{
	StepKind kind = S_OP;
	int op = -1;
	int o[3] = {-1, -1, -1};
	alignas(8) u8 imm[64];
	int ii[8];
	int slot = -1;
	u32 target = 0;         // reset: new target (arena offset)
	bool removed = false;
};
struct Client
{
	vector<Step> steps;
	bool handler = false, recovery = false;
	bool used = false;
};
struct FaultPlan { int kind; int client; int opi; int acc; int arg; };  // acc: access index (drawn), arg: e.g. stall length
struct Sched { int client, opi; u32 acc; int to; };

struct Plan
{
	ST st; int sz;
	vector<Obj> objs;
	vector<Region> regs;
	u32 top = 0;
	vector<Client> cl;
	vector<u8> owner;       // per arena byte: 0 harness, 1+client, 254 read-only, 255 any
	vector<FaultPlan> faults;
	int policy; double pp; int pk;
	int alloc_mode = 0, alloc_nth = 0;
	u64 seed;
};

struct Viol { bool set = false; string cls, txt; int client = -1, opi = -1; u32 acc = 0; };
struct FiredFault { int kind, client, opi; u32 acc; int arg; };

struct Adversary { bool on = false; Rng rng{1}; int how = 0, often = 0; u32 tick = 0; };

struct Run
{
	Adversary adv[NSTK];
	const Cfg *cfg = nullptr;
	Plan P;
	Rng sr{1};              // scheduling decisions
	bool replay = false;
	std::map<u64, std::deque<int>> rep_sw;
	std::map<u64, std::deque<std::pair<int, int>>> rep_fault;
	vector<Sched> trace;
	vector<FiredFault> fired;
	Viol v;
	int lock_owner = -1;
	vector<int> prio;
	vector<u64> chg;        // PCT change points
	u64 ops_done = 0, ops_skipped = 0, switches = 0, mid = 0, boundary = 0, refresh = 0, odd_fp = 0;
	u64 fcount[FK_COUNT] = {0, 0, 0, 0, 0};
	u64 rechecks = 0, relocated = 0, misuse_stopped = 0;
	vector<u8> covered_ops;
	int rr = 0;
	bool logging = false; vector<string> log;
};
static Run *R;
static u8 *const MEM = (u8 *)ARENA;
static constexpr u32 RELOC = 28 << 10;       // where relocated operands live (C14)
static u8 *SHADOW, *KNOWN;                      // expected arena contents

// simulator-side storage handed to operations (ignored by the access hooks)
static int SLOTGEN[NSTK][8][3];             // binding of the operands when the handle was taken
struct EngSlot { Out out; alignas(16) u8 imm[64]; int ii[8]; alignas(16) u8 scratch[8][128]; alignas(16) u8 obj[512]; };
static EngSlot *ENGS() { return (EngSlot *)ENG; }
static_assert(sizeof(EngSlot) * NSTK < ENG_SZ);

static void gen_value(ST st, Rng &r, bool extreme, void *out)
{
	int big = extreme ? r.below(4) == 0 : r.below(16) == 0;
	auto putv = [&](auto x) { memcpy(out, &x, sizeof x); };
	switch (st)
	{
		case ST_BOOL: putv((u8)r.below(2)); break;
		case ST_INT: case ST_LL: case ST_UINT: case ST_ULL:
		{
			int bits = st_size(st) * 8;
			bool sgn = st == ST_INT || st == ST_LL;
			u64 v;
			if (!big) v = (u64)(long long)(sgn ? r.range(-40, 40) : r.range(0, 60));
			else switch (r.below(5))
			{
				case 0: v = r.below(2) ? ~0ull >> (sgn ? 1 + 64 - bits : 64 - bits) : sgn ? 1ull << (bits - 1) : 0; break;      // largest, smallest
				case 1: v = (u64)(long long)(sgn ? r.range(-100000, 100000) : r.range(0, 200000)); break;
				case 2: v = (1ull << r.below((u32)bits)) + (u64)(long long)r.range(-1, 1); break;                          // around a power of two
				case 3: v = r.next() >> r.below((u32)bits); break;                                                        // any width
				default: v = (u64)-(long long)(r.next() >> (1 + r.below((u32)bits - 1))); break;
			}
			if (bits == 32) putv((u32)v); else putv(v);
			break;
		}
		default:
		{
			double v = r.range(-64, 64) * 0.25;
			if (big) switch (r.below(13))
			{
				// next to a half or a whole number, odd numbers where halves end, around the limits of integer types
				case 10: v = r.range(-8, 8) * 0.5; if (st == ST_FLOAT) v = std::nextafterf((float)v, r.below(2) ? 100.f : -100.f); else v = std::nextafter(v, r.below(2) ? 100. : -100.); break;
				case 11: v = (std::ldexp(1., (st == ST_FLOAT ? 22 : 51) + (int)r.below(4)) + r.range(-5, 5) * 0.5) * (r.below(2) ? 1 : -1); break;
				case 12: { static const int e[] = {7, 15, 16, 24, 31, 32, 53, 62, 63, 64}; v = std::ldexp(1., e[r.below(10)]); v = (v + (r.range(-1, 1) ? r.range(-2, 2) * v / (st == ST_FLOAT ? 8388608. : 4503599627370496.) : 0)) * (r.below(2) ? 1 : -1); } break;
				case 0: v = INFINITY; break;
				case 1: v = -INFINITY; break;
				case 2: v = NAN; break;
				case 3: v = -0.0; break;
				case 4: v = (st == ST_FLOAT ? 1e-40 : 4e-310) * r.range(-3, 3); break;
				case 5: v = (st == ST_FLOAT ? 3e38 : 1e308) * (r.below(2) ? 1 : -1); break;
				case 6: v = r.range(-100000, 100000) * 0.37; break;
				case 7: v = r.range(-5, 5) + 0.5; break;
				default: v = std::ldexp((double)(long long)r.next(), -63 + r.range(-12, 12)); break;        // any mantissa
			}
			if (st == ST_FLOAT) putv((float)v); else putv(v);
		}
	}
}
static void small_value(ST st, u64 h, void *out)
{
	Rng r(h);
	auto putv = [&](auto x) { memcpy(out, &x, sizeof x); };
	switch (st)
	{
		case ST_BOOL: putv((u8)r.below(2)); break;
		case ST_INT: putv((int)r.range(1, 9)); break;
		case ST_LL: putv((long long)r.range(1, 9)); break;
		case ST_UINT: putv((u32)r.range(10, 19)); break;
		case ST_ULL: putv((unsigned long long)r.range(10, 19)); break;
		case ST_FLOAT: putv((float)(r.range(1, 15) * 0.0625f)); break;
		default: putv(r.range(1, 15) * 0.0625); break;
	}
}
static string show_val(ST st, const void *p)
{
	switch (st)
	{
		case ST_BOOL: return *(const u8 *)p ? (*(const u8 *)p == 1 ? "true" : fmt("bool(%u)", *(const u8 *)p)) : "false";
		case ST_INT: { int x; memcpy(&x, p, 4); return fmt("%d", x); }
		case ST_LL: { long long x; memcpy(&x, p, 8); return fmt("%lld", x); }
		case ST_UINT: { u32 x; memcpy(&x, p, 4); return fmt("%u", x); }
		case ST_ULL: { unsigned long long x; memcpy(&x, p, 8); return fmt("%llu", x); }
		case ST_FLOAT: { float x; memcpy(&x, p, 4); return fmt("%.9g", x); }
		default: { double x; memcpy(&x, p, 8); return fmt("%.17g", x); }
	}
}
static u32 cell_addr(const Plan &P, const Obj &o, int i) { return o.cell0 + i * P.sz; }

static bool ranges_overlap(u32 a, u32 an, u32 b, u32 bn) { return a < b + bn && b < a + an; }

// -------- world construction (real constructors run, outside of any fiber)
static u32 place(Plan &P, Rng &r, u32 size, u32 align)
{
	P.top += 8 + r.below(3) * 8;
	P.top = (P.top + align - 1) / align * align;
	u32 o = P.top;
	P.top += size;
	if (P.top + 4096 > ARENA_SZ) { fprintf(stderr, "sim: world too large\n"); _exit(2); }
	return o;
}
static u32 pick_target(Plan &P, Rng &r, int cells, u32 avoid)
{
	// a run of `cells` consecutive cells inside some region
	for (int t = 0; t < 20; ++t)
	{
		Region &g = P.regs[r.below(2) && P.regs.size() ? 0 : r.below((u32)P.regs.size())];
		if (g.n < cells) continue;
		u32 a = g.off + r.below(g.n - cells + 1) * P.sz;
		if (a == avoid && t < 10) continue;
		return a;
	}
	return P.regs[0].off;
}
static int add_obj(Plan &P, Rng &r, const ObjT &t)
{
	Obj o;
	o.vt = OBJVT[P.st].at(t.key());
	o.size = (u32)o.vt->size;
	o.off = place(P, r, o.size, (u32)o.vt->align);
	P.objs.push_back(o);
	return (int)P.objs.size() - 1;
}
static void bring_up(Plan &P, int i, u32 target)
{
	Obj &o = P.objs[i];
	if (o.view()) { o.vt->construct(MEM + o.off, MEM + target); o.cell0 = target; }
	else
	{
		o.vt->construct(MEM + o.off, nullptr);
		if (o.vt->t.kind == K_Y || o.size != (u32)(o.vt->t.cells() * P.sz)) o.cell0 = (u32)((u8 *)o.vt->comp(MEM + o.off, 0) - MEM);
		else o.cell0 = o.off;
		if (o.cell0 < o.off || o.cell0 + o.vt->t.cells() * P.sz > o.off + o.size) { R->v.set = true; R->v.cls = "layout"; R->v.txt = "data() of a freshly constructed " + string(kind_name(o.vt->t.kind)) + " does not point into the object"; o.cell0 = o.off; }
		P.regs.push_back({o.cell0, o.vt->t.cells(), i});
	}
	o.alive = true;
}

static void gen_step_args(const Cfg &c, Plan &P, Rng &r, Step &s)
{
	bool ex = c.extreme && r.below(3) == 0;
	for (int i = 0; i < 8; ++i) { memset(s.imm + i * 8 * 0, 0, 0); }
	memset(s.imm, 0, sizeof s.imm);
	for (int i = 0; i < 8; ++i) gen_value(P.st, r, ex, s.imm + i * P.sz);
	for (int i = 0; i < 8; ++i) s.ii[i] = (int)r.below(1u << 20);
}

// may client c perform this step (ownership of the memory it reads and writes)?
static bool allowed(const Cfg &c, const Plan &P, int cl, const OpDesc &d, const int *o)
{
	if (c.mode == M_READONLY) return !(d.flags & F_WRITE);
	bool own = c.mode == M_DISJOINT && !P.cl[cl].recovery;
	for (int k = 0; k < d.nobj; ++k)
	{
		const Obj &b = P.objs[o[k]];
		if (d.flags & F_OBJW && d.wr[k] && own) for (u32 x = b.off; x < b.off + b.size; ++x) if (P.owner[x] != 1 + cl) return false;
		if (own)
			for (int i = 0; i < d.nc[k]; ++i)
			{
				u8 w = P.owner[cell_addr(P, b, d.comp[k][i])];
				if (d.wr[k] ? w != 1 + cl : (w != 1 + cl && w != 254)) return false;
			}
	}
	// written operands must not overlap other written operands, unless the operation handles that itself
	for (int k = 0; k < d.nobj; ++k)
		for (int j = 0; j < d.nobj; ++j)
		{
			if (j == k || !d.wr[k]) continue;
			bool w2 = d.wr[j];
			if (!w2 && !(d.flags & F_NOALIAS)) continue;
			if (w2 && (d.flags & F_THROW)) continue;
			if (w2 && o[j] == o[k] && !(d.flags & F_NOALIAS)) continue;
			const Obj &a = P.objs[o[k]], &b = P.objs[o[j]];
			if (ranges_overlap(a.cell0, a.vt->t.cells() * P.sz, b.cell0, b.vt->t.cells() * P.sz)) return false;
		}
	return true;
}
static bool bind_operands(const Cfg &c, const Plan &P, Rng &r, const OpDesc &d, int *o)
{
	for (int k = 0; k < d.nobj; ++k)
	{
		int cand[64], n = 0, ov[64], m = 0;
		for (int i = 0; i < (int)P.objs.size() && n < 64; ++i)
		{
			const Obj &b = P.objs[i];
			if (!(b.vt->t == d.ot[k]) || !b.alive) continue;
			cand[n++] = i;
			if (k) { const Obj &a = P.objs[o[0]]; if (ranges_overlap(a.cell0, a.vt->t.cells() * P.sz, b.cell0, b.vt->t.cells() * P.sz)) ov[m++] = i; }
		}
		if (!n) return false;
		o[k] = m && r.chance(c.alias) ? ov[r.below(m)] : cand[r.below(n)];
	}
	return true;
}
static int pick_group_op(const Cfg &c, ST st, Rng &r)
{
	TypeIndex &x = IDX[st];
	int g = !x.pref.empty() && r.chance(c.p_prefer) ? x.pref[r.below((u32)x.pref.size())] : (int)r.below((u32)x.groups.size());
	auto &v = x.groups[g].ops;
	return v[r.below((u32)v.size())];
}

static void gen_plan(const Cfg &c, u64 seed)
{
	Plan &P = R->P;
	P = Plan();
	P.seed = seed;
	Rng r(seed);
	// scalar type: proportional to the number of operation groups
	{
		u32 tot = 0;
		for (int s : USABLE_ST) tot += (u32)IDX[s].groups.size() + 4;
		u32 q = r.below(tot);
		for (int s : USABLE_ST) { u32 k = (u32)IDX[s].groups.size() + 4; if (q < k) { P.st = (ST)s; break; } q -= k; }
	}
	P.sz = st_size(P.st);
	rt.fp = P.st == ST_FLOAT || P.st == ST_DOUBLE;
	sim_chunk = P.sz;

	// palette of operations and the objects they need
	int npal = r.range(2, 7);
	vector<int> pal;
	vector<ObjT> want;
	for (int i = 0; i < npal; ++i)
	{
		int op = pick_group_op(c, P.st, r);
		if (c.views_heavy && r.below(2)) { for (int t = 0; t < 6; ++t) { bool vw = false; for (int k = 0; k < REG.ops[op].nobj; ++k) vw |= REG.ops[op].ot[k].kind == K_W || REG.ops[op].ot[k].kind == K_C; if (vw) break; op = pick_group_op(c, P.st, r); } }
		pal.push_back(op);
		const OpDesc &d = REG.ops[op];
		for (int k = 0; k < d.nobj; ++k)
		{
			int have = (int)std::count(want.begin(), want.end(), d.ot[k]);
			bool vw = d.ot[k].kind == K_W || d.ot[k].kind == K_C;
			if (have == 0 || (have < (vw ? 4 : 2) && r.below(vw ? 2 : 4) == 0) || (k && d.ot[k] == d.ot[0] && have < 2)) want.push_back(d.ot[k]);
		}
	}
	if (want.size() > 14) want.resize(14);
	// raw buffer first, then owning objects, then views
	int rawn = r.range(5, 10);
	P.top = 64;
	u32 raw = place(P, r, rawn * P.sz, 16);
	P.regs.push_back({raw, rawn, -1});
	P.objs.reserve(40);
	memset(MEM, 0xC5, 8192);
	for (int pass = 0; pass < 2; ++pass)
		for (auto &t : want)
		{
			bool vw = t.kind == K_W || t.kind == K_C;
			if (vw != (pass == 1)) continue;
			int i = add_obj(P, r, t);
			bring_up(P, i, vw ? (r.chance(.55) ? raw + r.below(rawn - t.s + 1) * P.sz : pick_target(P, r, t.s, ~0u)) : 0);
		}
	// initial values
	bool wild = r.below(3) == 0;
	for (auto &g : P.regs) for (int i = 0; i < g.n; ++i) gen_value(P.st, r, c.extreme, MEM + g.off + i * P.sz);
	if (!wild) for (auto &g : P.regs) for (int i = 0; i < g.n; ++i) if (r.below(2)) small_value(P.st, r.next(), MEM + g.off + i * P.sz);

	// clients
	int nc = r.range(c.min_clients, c.max_clients);
	bool intr = r.chance(c.p_fault[FK_INTERRUPT]);
	int nh = intr ? r.range(1, 3) : 0;
	P.cl.resize(nc + nh);
	for (int i = nc; i < nc + nh; ++i) P.cl[i].handler = true;
	if (c.recovery && r.below(2)) { Client k; k.recovery = true; P.cl.push_back(k); }

	// ownership of every cell
	P.owner.assign(8192, 0);
	int no = nc + nh;
	for (auto &g : P.regs)
	{
		int style = (int)r.below(10), one = (int)r.below(no), two = (int)r.below(no);
		for (int i = 0; i < g.n; ++i)
		{
			int w;
			if (style < 5) w = r.below(5) == 0 ? 254 : 1 + (int)r.below(no);
			else if (style < 7) w = 1 + one;
			else if (style < 8) w = 254;
			else w = 1 + ((i & 1) ? one : two);
			for (int b = 0; b < P.sz; ++b) P.owner[g.off + i * P.sz + b] = (u8)w;
		}
		if (g.obj >= 0)
		{   // the rest of the object belongs to a client only if all its cells do
			Obj &o = P.objs[g.obj];
			u8 w = P.owner[o.cell0];
			bool all = true;
			for (int i = 0; i < g.n; ++i) all = all && P.owner[o.cell0 + i * P.sz] == w;
			if (all) for (u32 x = o.off; x < o.off + o.size; ++x) P.owner[x] = w;
		}
	}

	// histories
	std::set<int> types;
	for (auto &o : P.objs) types.insert(o.vt->t.key());
	vector<int> byt;
	for (auto &kv : IDX[P.st].by_type) if (types.count(kv.first)) byt.push_back(kv.first);
	int copies = 0;
	// generation walks the clients round robin so that copies created by one are used by others
	vector<int> left(P.cl.size());
	for (size_t i = 0; i < P.cl.size(); ++i) left[i] = P.cl[i].handler ? r.range(1, 2) : P.cl[i].recovery ? r.range(2, 4) : r.range(c.min_ops, c.max_ops);
	struct Pend { int at; Step s; };
	vector<vector<Pend>> pend(P.cl.size());
	int slot[NSTK] = {0};
	for (bool more = true; more;)
	{
		more = false;
		for (int ci = 0; ci < (int)P.cl.size(); ++ci)
		{
			Client &k = P.cl[ci];
			// due handle uses
			for (size_t q = 0; q < pend[ci].size();)
				if (pend[ci][q].at <= (int)k.steps.size() || !left[ci]) { k.steps.push_back(pend[ci][q].s); pend[ci].erase(pend[ci].begin() + q); } else ++q;
			if (!left[ci]) continue;
			more = true; --left[ci];
			Step s;
			if (c.p_reset && c.mode == M_LOCKED && r.chance(c.p_reset))
			{
				vector<int> vs; for (int i = 0; i < (int)P.objs.size(); ++i) if (P.objs[i].view()) vs.push_back(i);
				if (!vs.empty())
				{
					s.kind = S_RESET; s.o[0] = vs[r.below((u32)vs.size())];
					s.target = pick_target(P, r, P.objs[s.o[0]].vt->t.s, P.objs[s.o[0]].cell0);
					gen_step_args(c, P, r, s);
					k.steps.push_back(s);
					continue;
				}
			}
			if (c.p_copy && c.mode == M_LOCKED && copies < 10 && r.chance(c.p_copy) && !P.objs.empty())
			{
				int src = (int)r.below((u32)P.objs.size());
				Obj nobj; nobj.vt = P.objs[src].vt; nobj.size = P.objs[src].size; nobj.src = src; nobj.move = r.below(3) == 0;
				nobj.off = place(P, r, nobj.size, (u32)nobj.vt->align);
				if (P.objs.size() < 40)
				{
					++copies;
					nobj.alive = true;         // for generation; it comes to life when the step runs
					nobj.cell0 = nobj.view() ? P.objs[src].cell0 : nobj.off + (P.objs[src].cell0 - P.objs[src].off);
					P.objs.push_back(nobj);
					s.kind = S_COPY; s.o[0] = src; s.o[1] = (int)P.objs.size() - 1;
					gen_step_args(c, P, r, s);
					k.steps.push_back(s);
					continue;
				}
			}
			for (int t = 0; t < 50; ++t)
			{
				int op;
				if (r.below(2)) op = pal[r.below((u32)pal.size())];
				else if (r.below(2) || byt.empty()) op = pick_group_op(c, P.st, r);
				else { auto &v = IDX[P.st].by_type[byt[r.below((u32)byt.size())]]; op = v[r.below((u32)v.size())]; }
				const OpDesc &d = REG.ops[op];
				if ((k.handler || k.recovery) && d.flags & (F_HANDLE | F_MISUSE)) continue;
				int o[3] = {-1, -1, -1};
				if (!bind_operands(c, P, r, d, o)) continue;
				if (!allowed(c, P, ci, d, o)) continue;
				s.kind = S_OP; s.op = op; memcpy(s.o, o, sizeof o);
				gen_step_args(c, P, r, s);
				if (d.flags & F_HANDLE)
				{
					const OpDesc &u = REG.ops[op + 1];
					if (slot[ci] >= 8 || !(u.flags & F_HUSE) || !allowed(c, P, ci, u, o)) continue;
					s.slot = slot[ci]++;
					for (int reps = r.range(1, 3), at = (int)k.steps.size(); reps--;)
					{
						Step w = s; w.op = op + 1; gen_step_args(c, P, r, w);
						pend[ci].push_back({at += 1 + (int)r.below(5), w});
					}
				}
				k.steps.push_back(s);
				break;
			}
		}
	}
	// copies do not exist before their step has run
	for (auto &o : P.objs) if (o.src >= 0) o.alive = false;
	memcpy(SHADOW, MEM, 8192 > P.top + 64 ? 8192 : P.top + 64);

	// faults
	auto some_op = [&](int cl) { return P.cl[cl].steps.empty() ? 0 : (int)r.below((u32)P.cl[cl].steps.size()); };
	auto some_acc = [&]() { static const int mean[] = {1, 3, 8, 20}; int m = mean[r.below(4)], k = 0; while (k < 200 && !r.chance(1.0 / m)) ++k; return k; };
	if (r.chance(c.p_fault[FK_CRASH]))
		for (int i = r.range(1, c.max_crash); i--;) { int cl = (int)r.below(nc); P.faults.push_back({FK_CRASH, cl, some_op(cl), some_acc(), 0}); }
	if (r.chance(c.p_fault[FK_STALL]))
		for (int i = r.range(1, 2); i--;) { int cl = (int)r.below(nc); P.faults.push_back({FK_STALL, cl, some_op(cl), some_acc(), r.below(3) ? (int)r.below(300) : 1 << 28}); }
	if (intr)
		for (int h = 0; h < nh; ++h)
		{   // an interrupt strikes a client, or a handler that is already running (nesting)
			int cl = h && r.below(3) == 0 ? nc + h - 1 : (int)r.below(nc);
			P.faults.push_back({FK_INTERRUPT, cl, some_op(cl), some_acc(), nc + h});
		}
	if (c.p_fault[FK_ADVERSARY] > 0 && r.chance(c.p_fault[FK_ADVERSARY]))
	{ int cl = (int)r.below(nc); P.faults.push_back({FK_ADVERSARY, cl, r.below(2) ? 0 : some_op(cl), r.below(3) ? 0 : some_acc(), (int)(r.next() & 0x7fffffff)}); }
	if (c.alloc_mode) P.alloc_mode = c.alloc_mode;
	if (r.chance(c.p_fault[FK_ALLOC])) { P.alloc_mode = 1 + (int)r.below(3); P.alloc_nth = 1 + (int)r.below(4); }

	// scheduling policy (swarm)
	static const double pr[] = {.5, .2, .07, .02};
	P.policy = (int)r.below(6);
	P.pp = pr[r.below(4)]; P.pk = r.range(1, 6);
	R->sr = Rng(r.next());
	R->prio.clear(); R->chg.clear();
	for (size_t i = 0; i < P.cl.size(); ++i) R->prio.push_back((int)R->sr.below(1000) + 10);
	if (P.policy == 1) for (int i = 0; i < 4; ++i) R->chg.push_back(R->sr.below(P.pk < 3 ? 120 : 600));
	rt.alloc_mode = P.alloc_mode; rt.alloc_nth = P.alloc_nth; rt.fresh = R->cfg->fresh;
}

// ================================================================ scheduler
static u64 pos_key(int cl, int opi, u32 acc) { return (u64)cl << 44 | (u64)(u32)(opi & 0xfffff) << 24 | (acc & 0xffffff); }
static constexpr u32 ACC_DONE = 0xfffff0, ACC_LOCK = 0xfffff1, ACC_SPIN = 0xfffff2, ACC_STALL = 0xfffff3;

static bool runnable(int i)
{
	Fiber &f = rt.fib[i];
	if (i >= (int)R->P.cl.size()) return false;
	if (f.st != FS_READY) return false;
	if (f.stalled && rt.steps >= f.stall_until) f.stalled = false;
	return !f.stalled;
}
static void wake_up()
{
	// nobody can run: stalled clients continue, then the recovery client
	int n = (int)R->P.cl.size();
	bool any = false;
	for (int i = 0; i < n; ++i) if (rt.fib[i].st == FS_READY && rt.fib[i].stalled) { rt.fib[i].stalled = false; any = true; }
	if (any) return;
	for (int i = 0; i < n; ++i) if (rt.fib[i].st == FS_WAITALL) { rt.fib[i].st = FS_READY; any = true; break; }
}
static int next_default(int cur)
{
	int n = (int)R->P.cl.size();
	for (int t = 0; t < 2; ++t)
	{
		for (int k = 1; k <= n; ++k) { int i = (cur + k) % n; if (runnable(i)) return i; }
		wake_up();
	}
	return -1;
}
static void go(int to) { rt_switch(to < 0 ? nullptr : &rt.fib[to]); }

static void switch_to(Fiber &f, int to, u32 acc, bool forced, bool def)
{
	if (!def || acc >= ACC_LOCK) R->trace.push_back({f.id, f.opi, acc, to});
	if (to == f.id) return;
	if (R->logging && to >= 0) R->log.push_back(forced ? fmt("-> client %d runs", to) : acc ? fmt("client %d preempted before its access #%u; client %d runs", f.id, acc, to) : fmt("client %d preempted between operations; client %d runs", f.id, to));
	R->switches++;
	if (!forced && acc) R->mid++; else R->boundary++;
	rt.hash = mix(rt.hash ^ 0x5157ull ^ (u64)to << 32);
	go(to);
}
static int pick_random(int cur, bool incl)
{
	int c[NSTK], n = 0;
	for (int i = 0; i < (int)R->P.cl.size(); ++i) if ((incl || i != cur) && runnable(i)) c[n++] = i;
	return n ? c[R->sr.below(n)] : -1;
}
// the current client cannot continue
static void leave(Fiber &f, u32 acc)
{
	int def = next_default(f.id), to = def;
	if (R->replay)
	{
		auto it = R->rep_sw.find(pos_key(f.id, f.opi, acc));
		if (it != R->rep_sw.end() && !it->second.empty()) { int t = it->second.front(); it->second.pop_front(); if (runnable(t)) to = t; }
	}
	else if (def >= 0)
	{
		if (R->P.policy == 1) { for (int i = 0; i < (int)R->P.cl.size(); ++i) if (runnable(i) && R->prio[i] > R->prio[to]) to = i; }
		else if (int t = pick_random(f.id, false); t >= 0) to = t;
	}
	switch_to(f, to, acc, true, to == def);
}

static void crash_here(Fiber &f);
static void fire(Fiber &f, int kind, int arg)
{
	R->fired.push_back({kind, f.id, f.opi, f.acc, arg});
	R->fcount[kind]++;
	if (R->logging) R->log.push_back(fmt("FAULT %s: client %d, before its access #%u", fault_name[kind], f.id, f.acc) + (kind == FK_INTERRUPT ? fmt(" (handler: client %d)", arg) : kind == FK_STALL ? fmt(" (%d accesses)", arg) : ""));
	rt.hash = mix(rt.hash ^ 0xFA17ull ^ (u64)kind << 32 ^ (u64)f.id << 40);
	if (kind == FK_CRASH) crash_here(f);            // does not return
	if (kind == FK_ADVERSARY) { Adversary &a = R->adv[f.id]; a.on = true; a.rng = Rng((u64)arg * 0x9e3779b97f4a7c15ull + 1); a.how = (int)a.rng.below(6); a.often = (int)a.rng.below(3); a.tick = 0; }
	if (kind == FK_STALL) { f.stalled = true; f.stall_until = rt.steps + (u64)arg; if (next_default(f.id) != f.id) leave(f, ACC_STALL); }
	if (kind == FK_INTERRUPT)
	{
		Fiber &h = rt.fib[arg];
		R->P.cl[arg].used = true;
		h.st = FS_READY; h.parent = f.id;
		f.st = FS_BLOCKED;
		R->switches++; R->mid++;
		go(arg);
	}
}
// Another caller that never lets go of the data: from here on, at the accesses of this client's operations,
// the components they address get new values. Views stay bound as they are.
static void adversary(Fiber &f)
{
	Adversary &a = R->adv[f.id];
	Plan &P = R->P;
	if (f.acc == 0 || f.opi >= (int)P.cl[f.id].steps.size() || R->cfg->mode != M_RACY) return;
	const Step &s = P.cl[f.id].steps[f.opi];
	if (s.kind != S_OP) return;
	if (a.often && a.rng.below(a.often == 1 ? 2 : 8)) return;
	const OpDesc &d = REG.ops[s.op];
	a.tick++;
	auto put = [&](u8 *x, long long t)
	{
		switch (P.st)
		{
			case ST_BOOL: *x = (u8)(t & 1); break;
			case ST_INT: case ST_UINT: { u32 v = (u32)t; memcpy(x, &v, 4); } break;
			case ST_LL: case ST_ULL: memcpy(x, &t, 8); break;
			case ST_FLOAT: { float v = (float)t * 0.25f; memcpy(x, &v, 4); } break;
			default: { double v = (double)t * 0.25; memcpy(x, &v, 8); }
		}
	};
	for (int k = 0; k < d.nobj; ++k)
	{
		Obj &o = P.objs[s.o[k]];
		if (!o.alive) continue;
		int n = o.vt->t.cells(), one = a.how >= 4 ? (int)a.rng.below((u32)n) : -1;
		for (int i = 0; i < n; ++i)
		{
			if (one >= 0 && i != one) continue;
			u8 *x = MEM + cell_addr(P, o, i);
			switch (a.how)
			{
				case 0: case 4: gen_value(P.st, a.rng, false, x); break;
				case 1: case 5: put(x, 1000000 + (long long)a.tick * (k + 1) + i); break;         // ever growing
				case 2: put(x, 1000000 - (long long)a.tick * (k + 1) - i); break;                   // ever shrinking
				default: put(x, (a.tick + (u32)k + (u32)i) & 1); break;                             // to and fro
			}
		}
	}
}
static void yield_point(Fiber &f, int kind)
{
	// ---- faults
	u32 acc = kind == 3 ? (f.acc & 0xffffff) : f.acc;
	if (R->replay)
	{
		auto it = R->rep_fault.find(pos_key(f.id, f.opi, acc));
		if (it != R->rep_fault.end() && !it->second.empty())
		{
			auto q = it->second.front(); it->second.pop_front();
			if (q.first != FK_INTERRUPT || (q.second < (int)R->P.cl.size() && R->P.cl[q.second].handler && !R->P.cl[q.second].used)) fire(f, q.first, q.second);
		}
	}
	else
		for (size_t i = 0; i < R->P.faults.size(); ++i)
		{
			FaultPlan p = R->P.faults[i];
			if (p.client != f.id || f.opi < p.opi || f.acc == 0) continue;
			if (R->P.faults[i].acc-- > 0) continue;
			if (p.kind == FK_CRASH && (R->P.cl[f.id].handler || f.guard_depth)) continue;
			R->P.faults.erase(R->P.faults.begin() + i);
			fire(f, p.kind, p.arg);
			break;
		}
	if (R->adv[f.id].on) adversary(f);
	// ---- scheduling
	if (kind == 3) { leave(f, ACC_SPIN); return; }
	int to = -1;
	if (R->replay)
	{
		auto it = R->rep_sw.find(pos_key(f.id, f.opi, acc));
		if (it != R->rep_sw.end() && !it->second.empty()) { int t = it->second.front(); it->second.pop_front(); if (runnable(t)) to = t; }
	}
	else
		switch (R->P.policy)
		{
			case 0: case 2: if (R->sr.chance(R->P.pp)) to = pick_random(f.id, false); break;
			case 1:
				for (size_t i = 0; i < R->chg.size(); ++i) if (R->chg[i] == rt.steps) { R->prio[f.id] = (int)i; }
				for (int i = 0; i < (int)R->P.cl.size(); ++i) if (i != f.id && R->prio[i] > R->prio[to < 0 ? f.id : to] && runnable(i)) to = i;
				break;
			case 3: if (++R->rr >= R->P.pk) { R->rr = 0; int n = (int)R->P.cl.size(); for (int k = 1; k < n && to < 0; ++k) { int i = (f.id + k) % n; if (runnable(i)) to = i; } } break;
			case 4: if (f.acc == 0 && R->sr.chance(.6)) to = pick_random(f.id, false); break;
			case 5: if (kind == 4 && R->sr.chance(.7)) to = pick_random(f.id, false); break;
		}
	if (to >= 0 && to != f.id) switch_to(f, to, acc, false, false);
}

[[noreturn]] static void stop_run()
{
	rt_switch(nullptr);
	fprintf(stderr, "sim: resumed after the end of the run\n"); _exit(2);
}
static void violation(const char *cls, const string &txt)
{
	if (!R->v.set)
	{
		R->v.set = true; R->v.cls = cls; R->v.txt = txt;
		if (rt.cur) { R->v.client = rt.cur->id; R->v.opi = rt.cur->opi; R->v.acc = rt.cur->acc; }
	}
	if (rt.cur) stop_run();
}

// ================================================================ executing one step
struct Ctxt             // what the checker knows about the operation in flight (one per client)
{
	Fp fp;
	Out exp;
	bool valid = false, values = false;
	const Step *s = nullptr;
	alignas(16) u8 in[3][128], w[3][128];
	u32 objchk[3]; int nobjchk;
	u8 objbytes[3][64];
	int copying = -1;
	int resets = -1; u32 reset_target; u8 reset_new[64], reset_old[64];
};
static Ctxt CT[NSTK];

static bool elem_same(const Out::E &e, const Out::E &g, float reltol)
{
	if (e.t == Out::I) return g.t == Out::I && e.i == g.i;
	if (g.t == Out::I) return false;
	double a = e.d, b = g.d;
	if (a != a || b != b) return a != a && b != b;
	if (a == b) return true;
	if (e.t == Out::A)
	{
		if (std::isinf(a) || std::isinf(b)) return false;
		return std::fabs(a - b) <= (double)reltol * (std::fabs(a) + e.scale) + 1e-30;
	}
	return false;
}
static string show_e(const Out::E &e) { return e.t == Out::I ? fmt("%lld", (long long)e.i) : fmt("%.9g", e.d); }
static string show_out(const Out &o) { string s = "["; for (int i = 0; i < o.n && i < 72; ++i) s += (i ? " " : "") + show_e(o.e[i]); return s + "]"; }

static string operand_text(const Step &s)
{
	Plan &P = R->P;
	string t;
	if (s.kind == S_RESET) return fmt("reset obj%d to cell +%u", s.o[0], s.target);
	if (s.kind == S_COPY) return fmt("obj%d = %s of obj%d", s.o[1], P.objs[s.o[1]].move ? "move" : "copy", s.o[0]);
	const OpDesc &d = REG.ops[s.op];
	t = d.name + " (";
	for (int k = 0; k < d.nobj; ++k) t += (k ? ", obj" : "obj") + std::to_string(s.o[k]);
	t += "; imm";
	for (int i = 0; i < 4; ++i) t += " " + show_val(P.st, s.imm + i * P.sz);
	t += "; ii"; for (int i = 0; i < 3; ++i) t += " " + std::to_string(s.ii[i]);
	return t + ")";
}

struct FpState { u32 mx; unsigned short cw; };
static FpState fpstate() { FpState s; u32 m; asm volatile("stmxcsr %0" : "=m"(m)); asm volatile("fnstcw %0" : "=m"(s.cw)); s.mx = m; return s; }
static void set_fpstate(FpState s) { u32 m = s.mx; asm volatile("ldmxcsr %0" : : "m"(m)); asm volatile("fldcw %0" : : "m"(s.cw)); }
// the floating-point environment a client keeps for itself: all exception flags raised (an operation must not clear them),
// sometimes another rounding direction, sometimes denormals flushed
static FpState client_fp(const Cfg &cfg, u64 seed, int client, FpState base, u64 opseed)
{
	FpState s = base;
	s.mx = (s.mx & ~0x3fu) | (cfg.rerun ? mix(opseed ^ 0xf1a6) & 0x3f : 0x3f);     // C14: a result must not depend on them
	u64 q = mix(seed ^ 0xf9f9ull ^ (u64)client << 40);
	if (!cfg.vary_fp || q % 8) return s;
	q /= 8;
	if (q % 5 == 4) s.mx |= 0x8040;
	else { u32 m = 1 + q % 3; s.mx |= m << 13; s.cw |= m << 10; }
	return s;
}

// control bits as before, and no exception flag cleared
static bool fp_kept(FpState a, FpState b) { return (a.mx & ~0x3fu) == (b.mx & ~0x3fu) && (a.mx & b.mx & 0x3f) == (a.mx & 0x3f) && a.cw == b.cw; }

// run the operation itself; on return f.why tells how it ended
[[gnu::noinline]] static void call_op(Fiber &f, const OpDesc &d, Args &a)
{
	f.why = ESC_NONE; f.edges = 0; f.edge_budget = (d.flags & F_MATRIX ? R->cfg->edge_budget : R->cfg->edge_budget / 5) * (d.loose ? 10 : 1);
	f.assert_msg = nullptr;
	if (__builtin_setjmp(f.esc.buf) == 0)
	{
		f.esc_ok = true;
		try
		{
			g_active = true;
			d.run(a);
			g_active = false;
		}
		catch (...) { g_active = false; rt.cur->why = (EscReason)100; }
		rt.cur->esc_ok = false;
	}
	g_active = false;
	rt.cur->active = false;
}
[[gnu::noinline]] static void poisoned_call(Fiber &f, const OpDesc &d, Args &a, u64 seed)
{
	rt_poison(f, seed);
	errno = (int)(seed & 63);
	call_op(f, d, a);
}

static void gather(const OpDesc &d, const Step &s, Ctxt &c)
{
	Plan &P = R->P;
	for (int k = 0; k < d.nobj; ++k)
		for (int i = 0; i < d.nc[k]; ++i)
		{
			memcpy(c.in[k] + i * P.sz, SHADOW + cell_addr(P, P.objs[s.o[k]], d.comp[k][i]), P.sz);
			memcpy(c.w[k] + i * P.sz, c.in[k] + i * P.sz, P.sz);
		}
}
static bool model(const OpDesc &d, const Step &s, Ctxt &c)
{
	Plan &P = R->P;
	gather(d, s, c);
	RefArgs ra;
	for (int k = 0; k < 3; ++k)
	{
		ra.in[k] = c.in[k]; ra.w[k] = c.w[k];
		ra.addr[k] = k < d.nobj ? MEM + P.objs[s.o[k]].cell0 : nullptr;
	}
	ra.imm = s.imm; ra.ii = s.ii; ra.out = &c.exp;
	c.exp.n = 0; c.exp.reltol = 0;
	return d.ref(ra);
}
static bool owns(int cl, u32 a)
{
	const Cfg &c = *R->cfg;
	if (c.mode == M_LOCKED) return true;
	if (c.mode == M_DISJOINT) return R->P.owner[a] == 1 + cl || R->P.cl[cl].recovery;
	return false;
}
static void build_fp(const OpDesc &d, const Step &s, Ctxt &c)
{
	Plan &P = R->P;
	Fp &fp = c.fp;
	fp = Fp();
	c.nobjchk = 0;
	for (int k = 0; k < d.nobj; ++k)
	{
		const Obj &o = P.objs[s.o[k]];
		if (d.wr[k])
		{
			for (int i = 0; i < d.nc[k]; ++i)
			{
				u32 a = cell_addr(P, o, d.comp[k][i]);
				FpE *e = nullptr;
				for (int j = 0; j < fp.n; ++j) if (fp.e[j].off == a) e = &fp.e[j];
				if (!e) { e = &fp.e[fp.n++]; e->off = a; e->sz = (u8)P.sz; }
				memcpy(e->oldv, SHADOW + a, P.sz);
				memcpy(e->newv, c.w[k] + i * P.sz, P.sz);
			}
			if (d.flags & F_OBJW && o.vt->t.kind == K_Y)
			{
				fp.xoff[fp.nx] = o.off; fp.xlen[fp.nx++] = o.size;
				c.objchk[c.nobjchk] = s.o[k]; memcpy(c.objbytes[c.nobjchk++], SHADOW + o.off, o.size < 64 ? o.size : 64);
			}
		}
		// may be read: the addressed components, and for views their pointer
		if (fp.nr + d.nc[k] + 2 < 12 || true)
		{
			auto addr = [&](u32 off, u32 len) { if (fp.nr < 12) { fp.roff[fp.nr] = off; fp.rlen[fp.nr++] = len; } else fp.any = fp.any; };
			if (o.vt->t.kind == K_W || o.vt->t.kind == K_C) addr(o.off, o.size);
			if (o.vt->t.kind == K_Y)
			{
				u32 cn = o.vt->t.cells() * P.sz;
				if (o.cell0 > o.off) addr(o.off, o.cell0 - o.off);
				if (o.cell0 + cn < o.off + o.size) addr(o.cell0 + cn, o.off + o.size - o.cell0 - cn);
			}
			if (o.vt->t.kind == K_M || (d.flags & F_OBJREAD && o.vt->t.kind == K_V)) addr(o.cell0, o.vt->t.cells() * P.sz);
			else
			{
				// merge contiguous components
				bool seen[4] = {false, false, false, false};
				for (int i = 0; i < d.nc[k]; ++i) seen[d.comp[k][i] & 3] = true;
				for (int i = 0; i < 4;) { if (!seen[i]) { ++i; continue; } int j = i; while (j < 4 && seen[j]) ++j; addr(cell_addr(P, o, i), (j - i) * P.sz); i = j; }
			}
		}
	}
	fp.readcheck = R->cfg->readcheck && fp.nr < 12;
	fp.check_atomic = !(d.flags & (F_MULTI | F_APPROXW)) && R->cfg->mode != M_RACY;
}

// the footprint of an operation in flight: what the world may look like if it stops now
static void adopt_partial(Fiber &f, const char *how)
{
	Ctxt &c = CT[f.id];
	if (!c.valid) return;
	Plan &P = R->P;
	if (c.resets >= 0)
	{
		Obj &o = P.objs[c.resets];
		u8 *m = MEM + o.off;
		if (!memcmp(m, c.reset_new, o.size)) { o.cell0 = c.reset_target; o.gen++; memcpy(SHADOW + o.off, m, o.size); }
		else if (memcmp(m, c.reset_old, o.size)) violation("torn", string("a client that ") + how + " while rebinding a view left it bound to neither its old nor its new target");
		return;
	}
	if (c.copying >= 0) { Obj &o = P.objs[c.copying]; memcpy(SHADOW + o.off, MEM + o.off, o.size); c.copying = -1; return; }
	for (int i = 0; i < c.nobjchk; ++i)
	{
		Obj &o = P.objs[c.objchk[i]];
		for (u32 b = 0; b < o.size && b < 64; ++b)
			if ((o.off + b < o.cell0 || o.off + b >= o.cell0 + o.vt->t.cells() * P.sz) && MEM[o.off + b] != c.objbytes[i][b]) violation("value", string("a client that ") + how + " left an object with a damaged binding");
	}
	for (int i = 0; i < c.fp.n; ++i)
	{
		FpE &e = c.fp.e[i];
		if (c.fp.check_atomic && !same_val(MEM + e.off, e.oldv, e.sz) && !same_val(MEM + e.off, e.newv, e.sz))
			violation("torn", fmt("component at +%u is %s after its writer %s; expected its old value %s or its new value %s", e.off, show_val(P.st, MEM + e.off).c_str(), how, show_val(P.st, e.oldv).c_str(), show_val(P.st, e.newv).c_str()));
		memcpy(SHADOW + e.off, MEM + e.off, e.sz);
	}
	if (c.values)
	{
		Out &g = ENGS()[f.id].out;
		int n = g.n < c.exp.n ? g.n : c.exp.n;
		for (int i = 0; i < n && i < 72; ++i) if (!elem_same(c.exp.e[i], g.e[i], c.exp.reltol)) violation("out", fmt("result %d observed before the client %s is %s, expected %s", i, how, show_e(g.e[i]).c_str(), show_e(c.exp.e[i]).c_str()));
		if (g.n > c.exp.n) violation("out", fmt("%d results observed before the client %s, expected at most %d", g.n, how, c.exp.n));
	}
}
static void unlock(int id)
{
	if (R->lock_owner != id) return;
	R->lock_owner = -1;
	for (int i = 0; i < (int)R->P.cl.size(); ++i) if (rt.fib[i].st == FS_BLOCKED && rt.fib[i].waiting_lock) { rt.fib[i].st = FS_READY; rt.fib[i].waiting_lock = 0; }
}
static void crash_here(Fiber &f)
{
	adopt_partial(f, "crashed");
	CT[f.id].valid = false;
	unlock(f.id);
	f.st = FS_DEAD; f.active = false;
	leave(f, ACC_DONE);
	_exit(2);
}
static void check_quiet(const char *when)
{
	// memory outside operations in flight must equal the model
	Plan &P = R->P;
	u32 n = P.top + 32;
	if (!memcmp(MEM, SHADOW, n)) return;
	for (u32 a = 0; a < n; ++a)
		if (MEM[a] != SHADOW[a])
		{
			bool inflight = false;
			for (size_t i = 0; i < P.cl.size() && !inflight; ++i)
				if (CT[i].valid)
				{
					for (int k = 0; k < CT[i].fp.n; ++k) if (a >= CT[i].fp.e[k].off && a < CT[i].fp.e[k].off + CT[i].fp.e[k].sz) inflight = true;
					for (int k = 0; k < CT[i].fp.nx; ++k) if (a >= CT[i].fp.xoff[k] && a < CT[i].fp.xoff[k] + CT[i].fp.xlen[k]) inflight = true;
				}
			if (!inflight) { violation("value", fmt("%s: byte at +%u is %02x, the model expects %02x", when, a, MEM[a], SHADOW[a])); return; }
		}
}

struct Rerun { Step s; vector<u8> in[3], w[3]; Out out; u64 seed; };
static vector<Rerun> RERUNS;

static void fill_args(Fiber &f, const OpDesc &d, const Step &s, Args &a)
{
	Plan &P = R->P;
	EngSlot &E = ENGS()[f.id];
	memcpy(E.imm, s.imm, 64); memcpy(E.ii, s.ii, sizeof s.ii);
	E.out.n = 0; E.out.reltol = 0;
	for (int k = 0; k < 3; ++k) a.obj[k] = k < d.nobj ? MEM + P.objs[s.o[k]].off : nullptr;
	a.imm = E.imm; a.ii = E.ii; a.out = &E.out;
	a.scratch = s.slot >= 0 ? E.scratch[s.slot] : E.scratch[7];
}
static void escaped(Fiber &f, const OpDesc &d)
{
	switch ((int)f.why)
	{
		case ESC_NONE: return;
		case ESC_ASSERT:
			// racing values can break the value preconditions some functions document (abs of the minimum, clamp with max < min)
			if (R->cfg->mode == M_RACY && f.assert_msg && (strstr(f.assert_msg, "undefined behavior") || strstr(f.assert_msg, "is UB"))) break;
			violation("assert", string("assertion failed in a valid operation: ") + (f.assert_msg ? f.assert_msg : "?")); break;
		case ESC_TERMINATE: violation("terminate", "std::terminate was called in a valid operation"); break;
		case ESC_SEGV: violation("segv", "memory fault in a valid operation"); break;
		case ESC_FPE: if (R->cfg->mode != M_RACY) violation("fpe", "arithmetic fault in a valid operation"); break;
		case ESC_ABORT: violation("abort", "abort() in a valid operation"); break;
		case 100: violation("exception", "an undocumented exception left a valid operation"); break;
		default: violation("escape", "operation ended abnormally"); break;
	}
	(void)d;
}

static void deferred_rerun(Fiber &f, u64 seed)
{
	if (RERUNS.empty()) return;
	Rng r(seed);
	size_t qi = r.below((u32)RERUNS.size());
	Rerun q = RERUNS[qi];
	RERUNS.erase(RERUNS.begin() + qi);
	Plan &P = R->P;
	const OpDesc &d = REG.ops[q.s.op];
	vector<u8> save(MEM, MEM + P.top + 32), far;
	vector<Obj> objs0;
	u32 far_n = 0;
	// two out of three times the operands live elsewhere, at another alignment, with other bytes around them
	if (r.below(3) && P.top < 24 << 10)
	{
		bool wide = false;
		for (int k = 0; k < d.nobj; ++k) if (P.objs[q.s.o[k]].vt->t.kind == K_Y) wide = true;
		u32 unit = wide ? 8 : P.sz, shift = RELOC + 64 + unit * r.below(64 / unit + 1), views = (shift + P.top + 71) / 8 * 8;
		far_n = views + 4 * 64 - RELOC;
		objs0 = P.objs;
		far.assign(MEM + RELOC, MEM + RELOC + far_n);
		for (u32 x = 0; x < far_n; x += 8) { u64 v = r.next(); memcpy(MEM + RELOC + x, &v, 8); }
		for (int k = 0; k < d.nobj; ++k)
		{
			int oi = q.s.o[k];
			Obj &o = P.objs[oi];
			if (o.off >= RELOC) continue;       // the same object as an earlier operand
			o.cell0 += shift;
			if (o.view()) { o.off = views + 64 * k; o.vt->construct(MEM + o.off, MEM + o.cell0); memcpy(MEM + o.cell0, MEM + o.cell0 - shift, o.vt->t.cells() * P.sz); }
			else
			{
				o.off += shift;
				o.vt->construct(MEM + o.off, nullptr);
				memcpy(MEM + o.cell0, MEM + o.cell0 - shift, o.vt->t.cells() * P.sz);
			}
		}
		memcpy(SHADOW + RELOC, MEM + RELOC, far_n);
		R->relocated++;
	}
	for (int k = 0; k < d.nobj; ++k) for (int i = 0; i < d.nc[k]; ++i) { u32 a = cell_addr(P, P.objs[q.s.o[k]], d.comp[k][i]); memcpy(MEM + a, q.in[k].data() + i * P.sz, P.sz); memcpy(SHADOW + a, MEM + a, P.sz); }
	Ctxt &c = CT[f.id];
	Args a;
	c.s = &q.s;
	for (int k = 0; k < d.nobj; ++k) { memcpy(c.w[k], q.w[k].data(), q.w[k].size()); }
	build_fp(d, q.s, c);
	if (q.s.slot >= 0) return;
	fill_args(f, d, q.s, a);
	c.valid = true; c.values = true; f.fp = &c.fp; f.acc = 0;
	int opi = f.opi; f.opi = opi | 0x80000;
	FpState base = fpstate(), fs = client_fp(*R->cfg, 0, f.id, base, seed);
	set_fpstate(fs);
	poisoned_call(f, d, a, seed ^ 0x77);
	rt_settle(f);
	FpState fe = fpstate();
	set_fpstate(base);
	if (!fp_kept(fs, fe)) violation("fpstate", fmt("the floating-point environment changed (mxcsr %x -> %x, x87 %x -> %x)", fs.mx, fe.mx, fs.cw, fe.cw));
	f.opi = opi;
	f.fp = nullptr; c.valid = false;
	R->rechecks++;
	escaped(f, d);
	Out &g = ENGS()[f.id].out;
	auto bits = [](const Out::E &x, const Out::E &y) { return x.t == Out::I || y.t == Out::I ? x.t == y.t && x.i == y.i : (x.i == y.i || (x.d != x.d && y.d != y.d)); };
	bool same = g.n == q.out.n;
	for (int i = 0; i < g.n && i < 72 && same; ++i) same = bits(g.e[i], q.out.e[i]);
	if (!same) violation("repeat", "same operand values, different result: first " + show_out(q.out) + ", later " + show_out(g) + " (" + operand_text(q.s) + ")");
	for (int k = 0; k < d.nobj; ++k) if (d.wr[k]) for (int i = 0; i < d.nc[k]; ++i)
	{
		u32 x = cell_addr(P, P.objs[q.s.o[k]], d.comp[k][i]);
		if (memcmp(MEM + x, q.w[k].data() + i * P.sz, P.sz) && !same_val(MEM + x, q.w[k].data() + i * P.sz, P.sz))
			violation("repeat", "same operand values, different stored result: first " + show_val(P.st, q.w[k].data() + i * P.sz) + ", later " + show_val(P.st, MEM + x) + " (" + operand_text(q.s) + ")");
	}
	memcpy(MEM, save.data(), save.size());
	memcpy(SHADOW, save.data(), save.size());
	if (!objs0.empty())
	{
		P.objs = objs0;
		memcpy(MEM + RELOC, far.data(), far.size());
		memcpy(SHADOW + RELOC, far.data(), far.size());
	}
}

static void do_op(Fiber &f, const Step &s)
{
	Plan &P = R->P;
	const Cfg &cfg = *R->cfg;
	const OpDesc &d = REG.ops[s.op];
	Ctxt &c = CT[f.id];
	for (int k = 0; k < d.nobj; ++k) if (!P.objs[s.o[k]].alive) { R->ops_skipped++; return; }
	if (cfg.p_reset) if (!allowed(cfg, P, f.id, d, s.o)) { R->ops_skipped++; return; }     // bindings may have changed since
	if (s.slot >= 0)
		for (int k = 0; k < d.nobj; ++k)
		{
			int &g = SLOTGEN[f.id][s.slot][k];
			if (d.flags & F_HANDLE) g = -1;       // valid once taken
			else if (g != P.objs[s.o[k]].gen) { R->ops_skipped++; return; }    // handles into a view end with its binding
		}
	c.s = &s; c.resets = -1; c.copying = -1;
	u64 opseed = mix(P.seed ^ (u64)f.id << 32 ^ (u64)f.opi);
	bool racy = cfg.mode == M_RACY, misuse = d.flags & F_MISUSE;
	if (!racy)
	{
		if (!model(d, s, c))
		{
			// the values are outside what the model (or C++) defines: take small ones where this client may write
			R->refresh++;
			for (int k = 0; k < d.nobj; ++k)
				for (int i = 0; i < d.nc[k]; ++i)
				{
					u32 x = cell_addr(P, P.objs[s.o[k]], d.comp[k][i]);
					if (!owns(f.id, x)) continue;
					small_value(P.st, opseed + k * 16 + i, SHADOW + x);
					memcpy(MEM + x, SHADOW + x, P.sz);
				}
			if (!model(d, s, c)) { R->ops_skipped++; return; }
		}
	}
	else { memset(c.w, 0, sizeof c.w); }
	build_fp(d, s, c);
	if (misuse) { c.fp.n = 0; c.fp.nx = 0; c.fp.readcheck = cfg.readcheck; }
	Args a;
	fill_args(f, d, s, a);
	c.valid = !racy; c.values = !racy && !misuse; f.fp = &c.fp;
	u64 failed0 = rt.alloc_failed;
	FpState base = fpstate(), fs = client_fp(cfg, P.seed, f.id, base, opseed);
	bool plain = (fs.mx & ~0x3fu) == (base.mx & ~0x3fu);    // otherwise results legitimately differ from the model's
	if (!plain) { c.values = c.fp.check_atomic = false; R->odd_fp++; }
	set_fpstate(fs);
	poisoned_call(f, d, a, opseed);
	rt_settle(f);
	f.fp = nullptr;
	FpState fe = fpstate();
	set_fpstate(base);
	c.valid = false;
	if (f.edges > 0 && getenv("SIM_EDGES") && f.edges > 500) fprintf(stderr, "edges %lu %s\n", (unsigned long)f.edges, d.name.c_str());
	if (!fp_kept(fs, fe)) violation("fpstate", fmt("the floating-point environment changed (mxcsr %x -> %x, x87 %x -> %x)", fs.mx, fe.mx, fs.cw, fe.cw));
	if (misuse)
	{
		if (f.why == ESC_ASSERT) { R->misuse_stopped++; R->ops_done++; return; }
		violation("no-assert", f.why == ESC_NONE ? "misuse was not stopped by an assertion" : f.why == ESC_SEGV ? "misuse reached memory (fault) before any assertion" : "misuse ended other than by an assertion");
	}
	escaped(f, d);
	if (d.flags & F_HANDLE) for (int k = 0; k < d.nobj; ++k) SLOTGEN[f.id][s.slot][k] = P.objs[s.o[k]].gen;
	R->ops_done++;
	if (s.op < (int)R->covered_ops.size()) R->covered_ops[s.op] = 1;
	if (racy) return;
	if (!plain)
	{
		for (int i = 0; i < c.fp.n; ++i) memcpy(SHADOW + c.fp.e[i].off, MEM + c.fp.e[i].off, c.fp.e[i].sz);
		return;
	}
	Out &g = ENGS()[f.id].out;
	// results
	bool relaxed = d.flags & F_THROW && rt.alloc_failed > failed0;  // the exception object itself could not be allocated
	if (relaxed && g.n == c.exp.n && g.n > 0 && g.e[g.n - 1].t == Out::I && g.e[g.n - 1].i == 4 && c.exp.e[g.n - 1].i > 0) g.e[g.n - 1].i = c.exp.e[g.n - 1].i;
	if (g.n != c.exp.n) violation("out", fmt("%d results, expected %d: got %s, expected %s", g.n, c.exp.n, show_out(g).c_str(), show_out(c.exp).c_str()));
	for (int i = 0; i < g.n && i < 72; ++i)
		if (!elem_same(c.exp.e[i], g.e[i], c.exp.reltol)) violation("out", fmt("result %d is %s, expected %s (got %s, expected %s)", i, show_e(g.e[i]).c_str(), show_e(c.exp.e[i]).c_str(), show_out(g).substr(0, 300).c_str(), show_out(c.exp).substr(0, 300).c_str()));
	// memory
	for (int i = 0; i < c.fp.n; ++i)
	{
		FpE &e = c.fp.e[i];
		bool ok = same_val(MEM + e.off, e.newv, e.sz);
		if (!ok && d.flags & F_APPROXW)
		{
			double x, y;
			if (e.sz == 4) { float p, q; memcpy(&p, MEM + e.off, 4); memcpy(&q, e.newv, 4); x = p; y = q; } else { memcpy(&x, MEM + e.off, 8); memcpy(&y, e.newv, 8); }
			double m[2] = {1, 1};
			for (int k = 0; k < d.nobj && k < 2; ++k) for (int j = 0; j < d.nc[k]; ++j) { double v; if (P.sz == 4) { float q; memcpy(&q, c.in[k] + j * 4, 4); v = q; } else memcpy(&v, c.in[k] + j * 8, 8); if (std::fabs(v) > m[k]) m[k] = std::fabs(v); }
			ok = std::fabs(x - y) <= c.exp.reltol * (std::fabs(y) + 8 * m[0] * m[1]);
		}
		if (!ok) violation("value", fmt("component at +%u is %s after the operation, the model expects %s (was %s)", e.off, show_val(P.st, MEM + e.off).c_str(), show_val(P.st, e.newv).c_str(), show_val(P.st, e.oldv).c_str()));
		memcpy(SHADOW + e.off, MEM + e.off, e.sz);
	}
	for (int i = 0; i < c.nobjchk; ++i)
	{
		Obj &o = P.objs[c.objchk[i]];
		for (u32 b = 0; b < o.size && b < 64; ++b)
			if ((o.off + b < o.cell0 || o.off + b >= o.cell0 + o.vt->t.cells() * P.sz) && MEM[o.off + b] != c.objbytes[i][b]) violation("value", "the operation changed the object's own binding");
	}
	if (cfg.mode == M_LOCKED) check_quiet("after the operation");
	if (cfg.rerun && RERUNS.size() < 8 && s.slot < 0 && !(d.flags & (F_CALLBACK * 0)))
	{
		Rerun q; q.s = s; q.out = g; q.seed = opseed;
		for (int k = 0; k < d.nobj; ++k)
		{
			q.in[k].assign(c.in[k], c.in[k] + d.nc[k] * P.sz);
			q.w[k].resize(d.nc[k] * P.sz);
			for (int i = 0; i < d.nc[k]; ++i) memcpy(q.w[k].data() + i * P.sz, MEM + cell_addr(P, P.objs[s.o[k]], d.comp[k][i]), P.sz);
		}
		RERUNS.push_back(q);
	}
	if (cfg.rerun && mix(opseed) % 3 != 0) deferred_rerun(f, mix(opseed ^ 0x99));
}

static void do_reset(Fiber &f, const Step &s)
{
	Plan &P = R->P;
	Obj &o = P.objs[s.o[0]];
	if (!o.alive) { R->ops_skipped++; return; }
	Ctxt &c = CT[f.id];
	EngSlot &E = ENGS()[f.id];
	o.vt->construct(E.obj, MEM + s.target);         // what a view bound there looks like
	c.fp = Fp();
	c.fp.xoff[0] = o.off; c.fp.xlen[0] = o.size; c.fp.nx = 1;
	c.resets = s.o[0]; c.reset_target = s.target;
	memcpy(c.reset_new, E.obj, o.size); memcpy(c.reset_old, MEM + o.off, o.size);
	c.valid = true; c.values = false; f.fp = &c.fp;
	f.why = ESC_NONE; f.edges = 0; f.edge_budget = R->cfg->edge_budget;
	if (__builtin_setjmp(f.esc.buf) == 0)
	{
		f.esc_ok = true;
		try { g_active = true; o.vt->reset(MEM + o.off, MEM + s.target); g_active = false; } catch (...) { g_active = false; rt.cur->why = (EscReason)100; }
		rt.cur->esc_ok = false;
	}
	g_active = false; rt.cur->active = false;
	rt_settle(f);
	f.fp = nullptr; c.valid = false; c.resets = -1;
	escaped(f, REG.ops[0]);
	if (memcmp(MEM + o.off, E.obj, o.size)) violation("value", "a view that was reset is not bound to its new target");
	memcpy(SHADOW + o.off, MEM + o.off, o.size);
	o.cell0 = s.target; o.gen++;
	R->ops_done++;
	check_quiet("after reset");
}
static void do_copy(Fiber &f, const Step &s)
{
	Plan &P = R->P;
	Obj &src = P.objs[s.o[0]], &o = P.objs[s.o[1]];
	if (!src.alive || o.alive) { R->ops_skipped++; return; }
	Ctxt &c = CT[f.id];
	c.fp = Fp();
	c.fp.xoff[0] = o.off; c.fp.xlen[0] = o.size; c.fp.nx = 1;
	c.resets = -1; c.copying = s.o[1]; c.nobjchk = 0;
	c.valid = true; c.values = false; f.fp = &c.fp;
	f.why = ESC_NONE; f.edges = 0; f.edge_budget = R->cfg->edge_budget;
	if (__builtin_setjmp(f.esc.buf) == 0)
	{
		f.esc_ok = true;
		try { g_active = true; (o.move ? o.vt->move_construct : o.vt->copy_construct)(MEM + o.off, MEM + src.off); g_active = false; } catch (...) { g_active = false; rt.cur->why = (EscReason)100; }
		rt.cur->esc_ok = false;
	}
	g_active = false; rt.cur->active = false;
	rt_settle(f);
	f.fp = nullptr; c.valid = false; c.copying = -1;
	escaped(f, REG.ops[0]);
	o.alive = true;
	if (o.view())
	{
		o.cell0 = src.cell0;
		if (memcmp(MEM + o.off, MEM + src.off, o.size)) violation("value", "the copy of a view is not bound to the same memory as the original");
	}
	else
	{
		if (o.vt->t.kind == K_Y)
		{
			u32 cn = o.vt->t.cells() * P.sz;
			o.cell0 = (u32)((u8 *)o.vt->comp(MEM + o.off, 0) - MEM);
			if (o.cell0 < o.off || o.cell0 + cn > o.off + o.size) { violation("value", "the copy of a view_vector does not own its components"); return; }
		}
		else o.cell0 = o.off;
		for (int i = 0; i < o.vt->t.cells(); ++i)
			if (!same_val(MEM + cell_addr(P, o, i), SHADOW + cell_addr(P, src, i), P.sz)) violation("value", fmt("component %d of the copy is %s, the original holds %s", i, show_val(P.st, MEM + cell_addr(P, o, i)).c_str(), show_val(P.st, SHADOW + cell_addr(P, src, i)).c_str()));
	}
	memcpy(SHADOW + o.off, MEM + o.off, o.size);
	R->ops_done++;
	check_quiet("after copying an object");
}

static void client_main(Fiber &f)
{
	Client &k = *(Client *)f.arg;
	bool locked = R->cfg->mode == M_LOCKED;
	for (int i = 0; i < (int)k.steps.size(); ++i)
	{
		const Step &s = k.steps[i];
		if (s.removed) continue;
		f.opi = i; f.acc = 0;
		yield_point(f, 0);
		if (locked)
		{
			while (R->lock_owner >= 0)
			{
				f.st = FS_BLOCKED; f.waiting_lock = 1;
				leave(f, ACC_LOCK);
			}
			R->lock_owner = f.id;
		}
		rt.hash = mix(rt.hash ^ 0x09ull ^ (u64)f.id << 32 ^ (u64)i << 8);
		if (R->logging) R->log.push_back(fmt("client %d step %d: ", f.id, i) + operand_text(s));
		if (s.kind == S_OP) do_op(f, s);
		else if (s.kind == S_RESET) do_reset(f, s);
		else do_copy(f, s);
		unlock(f.id);
	}
	f.opi = (int)k.steps.size();
	f.st = FS_DONE;
	if (f.parent >= 0) { rt.fib[f.parent].st = FS_READY; rt.hash = mix(rt.hash ^ 0x1e7ull); int p = f.parent; if (!R->replay && R->P.policy != 4) { } go(p); }
	leave(f, ACC_DONE);
	stop_run();
}

// ================================================================ one run
struct Spec         // explicit schedule and faults, for minimisation and replay
{
	u64 run = 0;
	bool fromseed = false, probe = false, determ = false;
	vector<std::pair<int, int>> removed;
	vector<Sched> sw;
	vector<FiredFault> faults;
};

static void run_one(const Cfg &cfg, u64 seed, const Spec *spec, bool logging = false)
{
	u64 cov = R ? R->covered_ops.size() : 0; (void)cov;
	vector<u8> covered; if (R) covered.swap(R->covered_ops);
	delete R;
	R = new Run();
	R->covered_ops.swap(covered);
	R->covered_ops.resize(REG.ops.size());
	R->cfg = &cfg; R->logging = logging;
	rt_reset_run();
	rt.hk.yield_point = yield_point; rt.hk.violation = violation;
	rt.strict_globals = true;
	RERUNS.clear();
	memset(SLOTGEN, -1, sizeof SLOTGEN);
	for (auto &c : CT) { c.valid = false; c.copying = c.resets = -1; c.nobjchk = 0; }
	memset((void *)ENG, 0, sizeof(EngSlot) * 8);
	gen_plan(cfg, seed);
	if (spec)
	{
		R->replay = true;
		R->P.faults.clear();
		for (auto &q : spec->removed) if (q.first < (int)R->P.cl.size() && q.second < (int)R->P.cl[q.first].steps.size()) R->P.cl[q.first].steps[q.second].removed = true;
		for (auto &q : spec->sw) R->rep_sw[pos_key(q.client, q.opi, q.acc)].push_back(q.to);
		for (auto &q : spec->faults) { if (q.kind == FK_ALLOC) continue; R->rep_fault[pos_key(q.client, q.opi, q.acc)].push_back({q.kind, q.arg}); }
		bool alloc = cfg.alloc_mode; for (auto &q : spec->faults) alloc = alloc || q.kind == FK_ALLOC;
		if (!alloc) { R->P.alloc_mode = 0; rt.alloc_mode = 0; }
	}
	if (R->P.alloc_mode) { R->fired.push_back({FK_ALLOC, 0, 0, 0, R->P.alloc_mode}); }
	if (R->v.set) return;
	Plan &P = R->P;
	for (int i = 0; i < (int)P.cl.size(); ++i)
	{
		rt_start(rt.fib[i], client_main, &P.cl[i]);
		if (P.cl[i].handler) rt.fib[i].st = FS_BLOCKED;
		if (P.cl[i].recovery) rt.fib[i].st = FS_WAITALL;
	}
	int first = -1;
	{
		Fiber dummy; (void)dummy;
		int def = next_default((int)P.cl.size() - 1);
		first = def;
	}
	if (first >= 0) rt_switch(&rt.fib[first]);
	// back in the main context: everything is over
	rt.cur = nullptr;
	if (!R->v.set && cfg.mode != M_RACY) check_quiet("at the end");
	if (!R->v.set && cfg.no_alloc && rt.allocs) { R->v.set = true; R->v.cls = "alloc"; R->v.txt = fmt("%lu dynamic allocations were requested", (unsigned long)rt.allocs); }
	if (!R->v.set)
		for (int i = 0; i < (int)P.cl.size(); ++i)
			if (rt.fib[i].st == FS_READY || (rt.fib[i].st == FS_BLOCKED && !(P.cl[i].handler && !P.cl[i].used)))
			{ R->v.set = true; R->v.cls = "progress"; R->v.txt = fmt("client %d never finished", i); }
	R->fcount[FK_ALLOC] += rt.alloc_failed;
	rt.hash = mix(rt.hash ^ rt.edges);
}

// ================================================================ known call classes (see known_findings.txt)
// Each operation flagged F_KNOWN is executed on its own. Correct behaviour is silent; the recorded
// defect (the assignment transfers every component of the underlying vector) is a known finding;
// anything else is a violation.
struct ProbeResult { int ops = 0, correct = 0, known = 0; string example, viol; std::set<string> names; };
static ProbeResult probe_known(u64 seed)
{
	ProbeResult pr;
	Rng r(seed);
	for (auto &d : REG.ops)
	{
		if (!(d.flags & F_KNOWN) || d.nobj != 2 || d.nc[0] == d.ot[0].s) continue;
		for (int t = 0; t < 3; ++t)
		{
			rt_reset_run();
			memset(MEM, 0xC5, 1024);
			int S = d.ot[0].s, sz = st_size(d.st);
			u8 a0[64], b0[64];
			rt.fp = false;
			const ObjVT *vt = OBJVT[d.st].at(d.ot[0].key());
			u8 *A = MEM + 128, *B = MEM + 256;
			vt->construct(A, nullptr); vt->construct(B, nullptr);
			for (int i = 0; i < S; ++i) { u64 q = r.next(); Rng v(q); gen_value(d.st, v, false, a0 + i * sz); gen_value(d.st, v, false, b0 + i * sz); if (d.st != ST_BOOL) { small_value(d.st, q, b0 + i * sz); } else { a0[i] = t & 1; b0[i] = !(t & 1); } }
			memcpy(A, a0, S * sz); memcpy(B, b0, S * sz);
			Args ar{}; static Out out; out.n = 0; u8 imm[64] = {0}; int ii[8] = {0};
			ar.obj[0] = A; ar.obj[1] = B; ar.imm = imm; ar.ii = ii; ar.out = &out; static u8 scr[128]; ar.scratch = scr;
			d.run(ar);
			bool swp = d.wr[1];
			auto matches = [&](bool all) {
				u8 ea[64], eb[64]; memcpy(ea, a0, S * sz); memcpy(eb, b0, S * sz);
				for (int i = 0; i < S; ++i) { bool in = all; for (int k = 0; k < d.nc[0]; ++k) in |= d.comp[0][k] == i; if (in) { memcpy(ea + i * sz, b0 + i * sz, sz); if (swp) memcpy(eb + i * sz, a0 + i * sz, sz); } }
				// the rest of memory must be untouched
				for (int i = 0; i < 1024; ++i) if (!((i >= 128 && i < 128 + S * sz) || (i >= 256 && i < 256 + S * sz)) && MEM[i] != 0xC5) return false;
				return !memcmp(A, ea, S * sz) && !memcmp(B, eb, S * sz); };
			if (matches(false)) pr.correct++;
			else if (matches(true)) { pr.known++; pr.names.insert(d.grp); if (pr.example.empty()) pr.example = d.name; }
			else { if (pr.viol.empty()) pr.viol = d.name; }
		}
		pr.ops++;
	}
	return pr;
}

// ================================================================ driver
struct Shared
{
	volatile u64 lowest;            // lowest failing run
	volatile u64 current[64];
	u64 runs[64], ops[64], skipped[64], accesses[64], edges[64], switches[64], mid[64], nontriv[64], faults[64][FK_COUNT], faulted[64], rechecks[64], misuse[64], refresh[64], oddfp[64], reloc[64], determ[64], policy[64][6], steps_crash[64], clients[64], maxedges[64];
	volatile int err; volatile u64 errrun;
	char errtxt[512];
};
static Shared *SH;
static u8 *HBITS; static const u64 HB = 1ull << 27;    // distinct executions (one bit each)
static u64 *NB;
static u8 *COVOPS;

static u64 seed_of(u64 seed, const char *prop, u64 run) { u64 h = mix(seed); for (const char *p = prop; *p; ++p) h = mix(h ^ (u64)*p); return mix(h ^ run * 0x9e3779b97f4a7c15ull); }

static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static string spec_text(const Cfg &c, u64 seed, const Spec &s)
{
	string t = fmt("prop %s\nseed %lu\nrun %lu\n", c.id, (unsigned long)seed, (unsigned long)s.run);
	for (auto &q : s.removed) t += fmt("rm %d %d\n", q.first, q.second);
	for (auto &q : s.sw) t += fmt("sw %d %d %u %d\n", q.client, q.opi, q.acc, q.to);
	for (auto &q : s.faults) t += fmt("fault %d %d %d %u %d\n", q.kind, q.client, q.opi, q.acc, q.arg);
	return t;
}
struct Res { bool viol = false; string cls, txt; u64 hash = 0; bool died = false; int sig = 0; };
// run a spec in a child process (candidates may do anything)
static Res run_child(const Cfg &c, u64 seed, const Spec &s)
{
	int fd[2];
	Res r;
	if (pipe(fd)) _exit(2);
	pid_t p = fork();
	if (p == 0)
	{
		close(fd[0]);
		alarm(20);
		run_one(c, seed_of(seed, c.id, s.run), s.fromseed ? nullptr : &s);
		string o = fmt("%d\n%lu\n", (int)R->v.set, (unsigned long)rt.hash) + R->v.cls + "\n" + R->v.txt + "\n";
		if (write(fd[1], o.data(), o.size())) {}
		_exit(0);
	}
	close(fd[1]);
	string o; char b[4096]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
	close(fd[0]);
	int st = 0; waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { r.died = true; r.viol = true; r.cls = "process-death"; r.txt = WIFSIGNALED(st) ? fmt("the simulated process died of signal %d", WTERMSIG(st)) : fmt("the simulated process ended with status %d", WEXITSTATUS(st)); return r; }
	size_t a = o.find('\n'), b2 = o.find('\n', a + 1), c2 = o.find('\n', b2 + 1);
	r.viol = o[0] == '1'; r.hash = strtoul(o.c_str() + a + 1, nullptr, 10); r.cls = o.substr(b2 + 1, c2 - b2 - 1); r.txt = o.substr(c2 + 1, o.size() - c2 - 2);
	return r;
}
static double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

static Spec minimise(const Cfg &c, u64 seed, Spec s, const string &cls, int &tried)
{
	double t0 = now();
	auto test = [&](const Spec &x) { ++tried; Res r = run_child(c, seed, x); return r.viol && r.cls == cls; };
	auto timeup = [&] { return now() - t0 > 25 || tried > 1500; };
	// operations: sets of (client, step)
	vector<std::pair<int, int>> all;
	for (int i = 0; i < (int)R->P.cl.size(); ++i) for (int k = 0; k < (int)R->P.cl[i].steps.size(); ++k) all.push_back({i, k});
	for (size_t chunk = (all.size() + 1) / 2; chunk >= 1 && !timeup(); chunk /= 2)
	{
		for (size_t i = 0; i < all.size() && !timeup();)
		{
			Spec x = s;
			size_t e = std::min(all.size(), i + chunk);
			for (size_t k = i; k < e; ++k) x.removed.push_back(all[k]);
			if (test(x)) { s = x; all.erase(all.begin() + i, all.begin() + e); }
			else i += chunk;
		}
		if (chunk == 1) break;
	}
	auto shrink = [&](auto &vec) {
		for (size_t chunk = (vec.size() + 1) / 2; chunk >= 1 && !vec.empty() && !timeup(); chunk /= 2)
		{
			for (size_t i = 0; i < vec.size() && !timeup();)
			{
				auto keep = vec;
				vec.erase(vec.begin() + i, vec.begin() + std::min(vec.size(), i + chunk));
				if (!test(s)) { vec = keep; i += chunk; }
			}
			if (chunk == 1) break;
		}
	};
	shrink(s.faults);
	shrink(s.sw);
	return s;
}

static double DEADLINE = 1e18;
static void worker(const Cfg &c, u64 seed, u64 from, u64 to, int w, int W)
{
	for (u64 run = from + w; run < to; run += W)
	{
		if (SH->lowest < run || SH->err || ((run - from - w) / W % 64 == 0 && now() > DEADLINE)) break;
		SH->current[w] = run;
		run_one(c, seed_of(seed, c.id, run), nullptr);
		SH->runs[w]++; SH->ops[w] += R->ops_done; SH->skipped[w] += R->ops_skipped; SH->accesses[w] += rt.accesses; SH->edges[w] += rt.edges; SH->switches[w] += R->switches; SH->mid[w] += R->mid;
		for (int k = 0; k < FK_COUNT; ++k) SH->faults[w][k] += R->fcount[k];
		SH->rechecks[w] += R->rechecks; SH->misuse[w] += R->misuse_stopped; SH->refresh[w] += R->refresh; SH->oddfp[w] += R->odd_fp; SH->reloc[w] += R->relocated; SH->policy[w][R->P.policy]++; SH->clients[w] += R->P.cl.size();
		bool nt = R->mid > 0 || !R->fired.empty() || R->misuse_stopped;
		SH->faulted[w] += !R->fired.empty();
		if (nt)
		{
			SH->nontriv[w]++;
			u64 h = mix(rt.hash) & (HB - 1);
			__atomic_fetch_or(&HBITS[h >> 3], (u8)(1 << (h & 7)), __ATOMIC_RELAXED);
		}
		for (size_t i = 0; i < R->covered_ops.size(); ++i) if (R->covered_ops[i]) { COVOPS[i] = 1; R->covered_ops[i] = 0; }
		if (R->v.set)
		{
			u64 l = SH->lowest;
			while (run < l && !__atomic_compare_exchange_n((u64 *)&SH->lowest, &l, run, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
			break;
		}
		// the same seed twice must be the same execution, step by step
		if (run % 97 == 0 || run < 4)
		{
			u64 h = rt.hash;
			run_one(c, seed_of(seed, c.id, run), nullptr);
			SH->determ[w]++;
			if (rt.hash != h) { if (!SH->err) { SH->err = 1; SH->errrun = run; snprintf(SH->errtxt, sizeof SH->errtxt, "run %lu is not deterministic", (unsigned long)run); } break; }
			// and replaying the recorded schedule must give that execution again
			Spec s; s.run = run; s.sw = R->trace; s.faults = R->fired;
			run_one(c, seed_of(seed, c.id, run), &s);
			if (rt.hash != h) { if (!SH->err) { SH->err = 1; snprintf(SH->errtxt, sizeof SH->errtxt, "replay of run %lu differs from the recorded execution", (unsigned long)run); } break; }
			for (size_t i = 0; i < R->covered_ops.size(); ++i) R->covered_ops[i] = 0;
		}
		SH->current[w] = ~0ull;
	}
}

static const Cfg *find_cfg(vector<Cfg> &v, const string &id) { for (auto &c : v) if (id == c.id) return &c; fprintf(stderr, "sim: unknown property %s\n", id.c_str()); _exit(2); }

static string narrative(const Cfg &c, u64 seed, const Spec &s)
{
	run_one(c, seed_of(seed, c.id, s.run), &s, true);
	string o = "[";
	bool first = true;
	auto put = [&](const string &x) { o += (first ? "\"" : ", \"") + jesc(x) + "\""; first = false; };
	Plan &P = R->P;
	for (size_t i = 0; i < P.objs.size(); ++i)
	{
		bool used = false;
		for (auto &k : P.cl) for (auto &st : k.steps) if (!st.removed) for (int q = 0; q < 3; ++q) used |= st.o[q] == (int)i;
		if (used) put(fmt("obj%zu: %s%u of %s at arena+%u, components at arena+%u%s", i, kind_name(P.objs[i].vt->t.kind), P.objs[i].vt->t.s, st_name(P.st), P.objs[i].off, P.objs[i].cell0, P.objs[i].src >= 0 ? fmt(" (copied from obj%d)", P.objs[i].src).c_str() : ""));
	}
	for (auto &l : R->log) put(l);
	if (R->v.set) put(fmt("VIOLATED in client %d step %d access %u: ", R->v.client, R->v.opi, R->v.acc) + R->v.cls + ": " + R->v.txt);
	return o + "]";
}

int main(int argc, char **argv)
{
	string mode = argc > 1 ? argv[1] : "", so, prop, specf, outf;
	u64 seed = 1, runs = 1000, from = 0; int W = 8;
	for (int i = 2; i + 1 < argc; i += 2)
	{
		string a = argv[i];
		if (a == "--so") so = argv[i + 1]; else if (a == "--prop") prop = argv[i + 1]; else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
		else if (a == "--runs") runs = strtoull(argv[i + 1], nullptr, 10); else if (a == "--from") from = strtoull(argv[i + 1], nullptr, 10); else if (a == "--workers") W = atoi(argv[i + 1]); else if (a == "--spec") specf = argv[i + 1]; else if (a == "--out") outf = argv[i + 1]; else if (a == "--max-seconds") DEADLINE = now() + atof(argv[i + 1]);
	}
	struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
	rt_init();
	static u8 shadow_mem[ARENA_SZ]; SHADOW = shadow_mem;
	rt.active_p = (bool *)&g_active;
	rt.hk.yield_point = yield_point; rt.hk.violation = violation;
	rt_load(so.c_str(), REG);
	vector<Cfg> cfgs = make_cfgs();
	Spec rs;
	if (mode == "replay")
	{
		FILE *f = fopen(specf.c_str(), "r");
		if (!f) { fprintf(stderr, "sim: cannot read %s\n", specf.c_str()); return 2; }
		char l[256];
		while (fgets(l, sizeof l, f))
		{
			char p[32]; unsigned long x; int a, b, k; unsigned u; int t;
			if (sscanf(l, "prop %31s", p) == 1) prop = p;
			else if (sscanf(l, "seed %lu", &x) == 1) seed = x;
			else if (sscanf(l, "run %lu", &x) == 1) rs.run = x;
			else if (!strncmp(l, "fromseed", 8)) rs.fromseed = true;
			else if (!strncmp(l, "probe", 5)) rs.probe = true;
			else if (!strncmp(l, "determinism", 11)) rs.determ = true;
			else if (sscanf(l, "rm %d %d", &a, &b) == 2) rs.removed.push_back({a, b});
			else if (sscanf(l, "sw %d %d %u %d", &a, &b, &u, &t) == 4) rs.sw.push_back({a, b, u, t});
			else if (sscanf(l, "fault %d %d %d %u %d", &k, &a, &b, &u, &t) == 5) rs.faults.push_back({k, a, b, u, t});
		}
		fclose(f);
	}
	if (mode == "list") { std::map<string, int> g; for (auto &d : REG.ops) g[d.grp]++; for (auto &kv : g) printf("%6d %s\n", kv.second, kv.first.c_str()); return 0; }
	const Cfg &c = *find_cfg(cfgs, prop);
	build_index(c);
	rt.cov = (u8 *)mmap(nullptr, rt.ncov + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	HBITS = (u8 *)mmap(nullptr, HB / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	COVOPS = (u8 *)mmap(nullptr, REG.ops.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SH->lowest = ~0ull;
	for (auto &x : SH->current) x = ~0ull;

	if (mode == "replay")
	{
		if (rs.probe)
		{
			ProbeResult p = probe_known(seed);
			string nm; for (auto &q : p.names) nm += (nm.empty() ? "" : ", ") + q;
			bool bad = !p.viol.empty() || p.known;
			printf("{\"violation\": %s, \"class\": \"probe\", \"text\": \"%s\", \"hash\": \"0\", \"narrative\": [\"calls with an effect other than the documented one: %s\"]}\n", bad ? "true" : "false", jesc(p.viol.empty() ? p.example : p.viol).c_str(), jesc(nm).c_str());
			return bad;
		}
		if (rs.determ)
		{
			rs.fromseed = true;
			Res a = run_child(c, seed, rs);
			for (int k = 0; k < 200; ++k)
			{
				Res b = run_child(c, seed, rs);
				if (b.hash != a.hash) { printf("{\"violation\": true, \"class\": \"nondeterminism\", \"text\": \"two executions of run %lu under the same seed, schedule and operand values differ\", \"hash\": \"0\", \"narrative\": []}\n", (unsigned long)rs.run); return 1; }
			}
			printf("{\"violation\": false, \"class\": \"\", \"text\": \"\", \"hash\": \"0\", \"narrative\": []}\n");
			return 0;
		}
		Res r = run_child(c, seed, rs);
		if (!r.died)
		{
			Res q = run_child(c, seed, rs);
			if (q.hash != r.hash || q.txt != r.txt) { printf("{\"nondeterministic\": true}\n"); return 2; }
		}
		string nar = "[]";
		if (!r.died && !rs.fromseed) nar = narrative(c, seed, rs);
		printf("{\"violation\": %s, \"class\": \"%s\", \"text\": \"%s\", \"hash\": \"%016lx\", \"narrative\": %s}\n", r.viol ? "true" : "false", jesc(r.cls).c_str(), jesc(r.txt).c_str(), (unsigned long)r.hash, nar.c_str());
		return r.viol ? 1 : 0;
	}
	if (mode == "one")
	{
		run_one(c, seed_of(seed, c.id, from), nullptr, true);
		for (auto &l : R->log) printf("%s\n", l.c_str());
		printf("hash %016lx viol %d %s %s\n", (unsigned long)rt.hash, R->v.set, R->v.cls.c_str(), R->v.txt.c_str());
		return R->v.set;
	}

	double t0 = now();
	fflush(stdout);
	vector<pid_t> pid;
	for (int w = 0; w < W; ++w)
	{
		pid_t p = fork();
		if (p == 0) { worker(c, seed, from, from + runs, w, W); _exit(0); }
		pid.push_back(p);
	}
	string death;
	u64 dead_run = ~0ull;
	for (int w = 0; w < W; ++w)
	{
		int st = 0; waitpid(pid[w], &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st))
		{
			u64 r = SH->current[w];
			death = WIFSIGNALED(st) ? fmt("worker died of signal %d in run %lu", WTERMSIG(st), (unsigned long)r) : fmt("worker ended with status %d in run %lu", WEXITSTATUS(st), (unsigned long)r);
			if (r < dead_run) dead_run = r;
		}
	}
	double wall = now() - t0;
	if (SH->err) { printf("{\"error\": \"%s\", \"run\": %lu}\n", jesc(SH->errtxt).c_str(), (unsigned long)SH->errrun); return 2; }

	string viol = "null";
	int rc = 0;
	u64 bad = SH->lowest < dead_run ? SH->lowest : dead_run;
	if (bad != ~0ull)
	{
		// reproduce: twice from the seed, then from the recorded schedule; then minimise
		Spec s0; s0.run = bad;
		Spec s; s.run = bad;
		string cls;
		int tried = 0;
		if (bad == dead_run && dead_run != ~0ull && SH->lowest != bad)
		{
			// the process itself died: replay from the seed, no schedule was recorded
			Spec e; e.run = bad;
			int d = 0;
			for (int k = 0; k < 2; ++k)
			{
				pid_t p = fork();
				if (p == 0) { alarm(60); run_one(c, seed_of(seed, c.id, bad), nullptr); _exit(R->v.set ? 3 : 0); }
				int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) ++d;
			}
			if (d < 2) { printf("{\"error\": \"%s; it does not reproduce\"}\n", jesc(death).c_str()); return 2; }
			viol = fmt("{\"run\": %lu, \"class\": \"process-death\", \"text\": \"%s\", \"spec\": \"%s\", \"hash\": \"0\", \"minimise_tried\": 0, \"narrative\": []}", (unsigned long)bad, jesc(death).c_str(), (fmt("prop %s\\nseed %lu\\nrun %lu\\nfromseed\\n", c.id, (unsigned long)seed, (unsigned long)bad)).c_str());
			rc = 1;
		}
		else
		{
			run_one(c, seed_of(seed, c.id, bad), nullptr);
			u64 h1 = rt.hash; string txt = R->v.txt; cls = R->v.cls;
			s.sw = R->trace; s.faults = R->fired;
			bool set = R->v.set;
			Res r1 = run_child(c, seed, s), r2 = run_child(c, seed, s);
			if (!set || !r1.viol || !r2.viol || r1.cls != cls || r1.hash != r2.hash || r1.txt != r2.txt || r1.txt != txt) { printf("{\"error\": \"violation in run %lu does not reproduce (%s / %s / %s)\"}\n", (unsigned long)bad, jesc(cls + ": " + txt).c_str(), jesc(r1.cls + ": " + r1.txt).c_str(), jesc(r2.txt).c_str()); return 2; }
			(void)h1;
			Spec m = minimise(c, seed, s, cls, tried);
			Res f1 = run_child(c, seed, m), f2 = run_child(c, seed, m);
			if (!f1.viol || f1.hash != f2.hash) { m = s; f1 = r1; }
			string st = spec_text(c, seed, m), e;
			for (char ch : st) { if (ch == '\n') e += "\\n"; else e += ch; }
			viol = fmt("{\"run\": %lu, \"class\": \"%s\", ", (unsigned long)bad, jesc(f1.cls).c_str()) + "\"text\": \"" + jesc(f1.txt) + "\", \"spec\": \"" + e + fmt("\", \"hash\": \"%016lx\", \"minimise_tried\": %d, \"narrative\": ", (unsigned long)f1.hash, tried) + narrative(c, seed, m) + "}";
			rc = 1;
		}
	}
	// totals
	u64 T[16] = {0}, F[FK_COUNT] = {0}, PL[6] = {0};
	for (int w = 0; w < W; ++w)
	{
		T[0] += SH->runs[w]; T[1] += SH->ops[w]; T[2] += SH->skipped[w]; T[3] += SH->accesses[w]; T[4] += SH->edges[w]; T[5] += SH->switches[w]; T[6] += SH->mid[w]; T[7] += SH->nontriv[w]; T[8] += SH->faulted[w]; T[9] += SH->rechecks[w]; T[10] += SH->misuse[w]; T[11] += SH->refresh[w]; T[12] += SH->determ[w]; T[13] += SH->clients[w]; T[14] += SH->oddfp[w]; T[15] += SH->reloc[w];
		for (int k = 0; k < FK_COUNT; ++k) F[k] += SH->faults[w][k];
		for (int k = 0; k < 6; ++k) PL[k] += SH->policy[w][k];
	}
	u64 distinct = 0; for (u64 i = 0; i < HB / 64; ++i) distinct += __builtin_popcountll(((u64 *)HBITS)[i]);
	u64 ecov = 0; for (u32 i = 1; i <= rt.ncov; ++i) ecov += rt.cov[i];
	u64 opscov = 0, opstot = 0; std::set<string> grp, grpall;
	for (size_t i = 0; i < REG.ops.size(); ++i) { bool ok = op_ok(c, REG.ops[i]) || REG.ops[i].flags & F_HUSE; opstot += ok; opscov += COVOPS[i]; if (COVOPS[i]) grp.insert(REG.ops[i].grp); if (ok) grpall.insert(REG.ops[i].grp); }
	string pk = "null";
	bool hask = false; for (auto &d : REG.ops) hask |= (d.flags & F_KNOWN) != 0;
	if (hask)
	{
		ProbeResult p = probe_known(seed);
		string nm; for (auto &q : p.names) nm += (nm.empty() ? "\"" : ", \"") + jesc(q) + "\"";
		pk = fmt("{\"names\": [%s], \"ops\": %d, \"correct\": %d, \"known\": %d, \"example\": \"%s\", \"violation\": \"%s\"}", nm.c_str(), p.ops, p.correct, p.known, jesc(p.example).c_str(), jesc(p.viol).c_str());
		if (!p.viol.empty()) rc = 1;
	}
	// samples
	string smp = "[";
	if (!rc) for (int i = 0; i < 2; ++i)
	{
		run_one(c, seed_of(seed, c.id, from + i * 5), nullptr);
		Spec s; s.run = from + i * 5; s.sw = R->trace; s.faults = R->fired;
		string nar = narrative(c, seed, s);
		smp += (i ? ", " : "") + fmt("{\"run\": %lu, \"hash\": \"%016lx\", \"history\": ", (unsigned long)s.run, (unsigned long)rt.hash) + nar + "}";
	}
	smp += "]";
	string o = fmt("{\"runs\": %lu, \"operations\": %lu, \"skipped\": %lu, \"accesses\": %lu, \"edges\": %lu, \"switches\": %lu, \"mid_op_switches\": %lu, \"nontrivial\": %lu, \"distinct\": %lu, \"faulted_runs\": %lu, ", T[0], T[1], T[2], T[3], T[4], T[5], T[6], T[7], distinct, T[8]);
	o += fmt("\"rechecks\": %lu, \"misuse_stopped\": %lu, \"refreshed\": %lu, \"determinism_checked\": %lu, \"clients\": %lu, \"odd_fp\": %lu, \"relocated\": %lu, ", T[9], T[10], T[11], T[12], T[13], T[14], T[15]);
	o += fmt("\"faults\": {\"crash\": %lu, \"stall\": %lu, \"interrupt\": %lu, \"allocation_failure\": %lu, \"adversary\": %lu}, ", F[0], F[1], F[2], F[3], F[4]);
	o += fmt("\"policies\": {\"random\": %lu, \"priority_change_points\": %lu, \"round_robin\": %lu, \"operation_boundaries\": %lu, \"at_shared_writes\": %lu}, ", PL[0] + PL[2], PL[1], PL[3], PL[4], PL[5]);
	o += fmt("\"edges_total\": %u, \"edges_covered\": %lu, \"op_variants\": %lu, \"op_variants_covered\": %lu, \"functions\": %zu, \"functions_covered\": %zu, \"wall\": %.2f, ", rt.ncov, ecov, opstot, opscov, grpall.size(), grp.size(), wall);
	o += "\"probe\": " + pk + ", \"violation\": " + viol + ", \"samples\": " + smp + "}\n";
	if (outf.empty()) fputs(o.c_str(), stdout);
	else { FILE *f = fopen(outf.c_str(), "w"); fputs(o.c_str(), f); fclose(f); }
	return rc;
}
