// Interface between the simulator (executable, uninstrumented) and the workload
// (shared object: real dsga.hxx compiled with memory-access instrumentation).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <type_traits>

enum ST : uint8_t { ST_INT, ST_FLOAT, ST_DOUBLE, ST_BOOL, ST_UINT, ST_LL, ST_ULL, ST_COUNT };
inline const char *st_name(int s) { static const char *n[] = {"int", "float", "double", "bool", "unsigned", "longlong", "ulonglong"}; return n[s]; }
inline int st_size(int s) { static const int n[] = {4, 4, 8, 1, 4, 8, 8}; return n[s]; }
template <class T> constexpr ST st_of()
{
	if constexpr (std::is_same_v<T, int>) return ST_INT;
	else if constexpr (std::is_same_v<T, float>) return ST_FLOAT;
	else if constexpr (std::is_same_v<T, double>) return ST_DOUBLE;
	else if constexpr (std::is_same_v<T, bool>) return ST_BOOL;
	else if constexpr (std::is_same_v<T, unsigned>) return ST_UINT;
	else if constexpr (std::is_same_v<T, long long>) return ST_LL;
	else return ST_ULL;
}

enum Kind : uint8_t { K_V, K_W, K_C, K_Y, K_M, K_NONE };    // vector, view, view over const, view_vector, matrix
inline const char *kind_name(int k) { static const char *n[] = {"vec", "view", "cview", "vvec", "mat", "-"}; return n[k]; }

struct ObjT
{
	uint8_t kind, s, r;     // s: size (or columns), r: rows (matrix)
	bool operator==(const ObjT &o) const { return kind == o.kind && s == o.s && r == o.r; }
	int cells() const { return kind == K_M ? s * r : s; }
	int key() const { return (kind * 5 + s) * 5 + r; }
};

// recorded result of an operation (lives in simulator memory, never shared between clients)
struct Out
{
	enum Tag : uint8_t { I, D, A };    // integer-like (exact), floating (exact), floating (approximate)
	struct E { Tag t; union { int64_t i; double d; }; double scale; };
	int n = 0;
	float reltol = 0;
	E e[72];
	template <class T> void put(T x)
	{
		static_assert(std::is_arithmetic_v<T>, "record components, not swizzles");
		if (n >= 72) { n++; return; }
		E &q = e[n++];
		q.scale = 0;
		if constexpr (std::is_floating_point_v<T>) { q.t = D; q.d = (double)x; }
		else { q.t = I; q.i = (int64_t)x; }
	}
	// reference side: approximate expectation, |got-exp| <= tol*(|exp|+scale)
	template <class T> void approx(T x, double scale) { put<double>((double)x); if (n <= 72) { e[n - 1].t = A; e[n - 1].scale = scale; } }
};

struct Args             // what an operation gets at run time
{
	void *obj[3];
	const void *imm;    // T[8]
	const int *ii;      // int[8]
	Out *out;
	void *scratch;      // 128 bytes kept between 'take' and 'use' of a handle
};
struct RefArgs          // what its reference model gets
{
	const void *addr[3]; // addresses of component 0 (views: of the data)
	const void *in[3];  // gathered old values, logical order, T[]
	void *w[3];         // new values of written operands (pre-filled with the old ones)
	const void *imm;
	const int *ii;
	Out *out;
};

enum OpFlags : uint32_t
{
	F_WRITE = 1,        // has written operands
	F_READ = 2,         // pure reader (writes nothing shared)
	F_CALLBACK = 4,     // invokes user callbacks
	F_ITER = 8,         // iterator / reference / structured binding
	F_MATRIX = 16,
	F_THROW = 32,       // may throw (documented exception); ref records what is expected
	F_CONV = 64,        // copy/conversion
	F_PART = 128,       // component-wise write through a swizzle (table A)
	F_FUNC = 256,       // free function
	F_APPROXW = 512,    // written values are compared with tolerance
	F_KNOWN = 1024,     // call class listed in known_findings.txt (only used by the probe)
	F_MISUSE = 2048,    // expected to be stopped by an assertion (misuse table)
	F_MULTI = 4096,     // writes component more than once by design (scripts); intermediate values are legal
	F_CMPD = 8192,      // compound assignment / inc / dec
	F_NOALIAS = 16384,  // operands must not overlap (documented or C++-level requirement)
	F_HANDLE = 65536,   // takes a handle into Args::scratch; the next op in the table uses it
	F_HUSE = 131072,    // uses a handle taken by the preceding op of the table
	F_OBJREAD = 262144, // a swizzle operand is passed by value: its whole vector may be read (not depended upon)
	F_OBJW = 32768      // also writes the object representation itself (e.g. whole view_vector copy assignment)
};

struct OpDesc
{
	std::string name, grp;
	ST st;
	uint8_t nobj = 0;
	ObjT ot[3]{};
	uint8_t nc[3]{};
	uint8_t comp[3][16]{};
	bool wr[3]{};
	uint32_t flags = 0;
	bool loose = false;
	void (*run)(Args &) = nullptr;
	bool (*ref)(RefArgs &) = nullptr;
};

struct ObjVT
{
	ObjT t;
	ST st;
	size_t size, align;
	void (*construct)(void *mem, void *bind);               // value-initialised; views bind to pointer
	void *(*comp)(void *obj, int i);                        // address of component i (not used after rebinding)
	void (*reset)(void *obj, void *bind);                   // views: change target
	void (*copy_construct)(void *mem, void *src);           // copy of the same type
	void (*move_construct)(void *mem, void *src);
	void (*destroy)(void *obj);
};

struct Registry
{
	std::vector<OpDesc> ops;
	std::vector<ObjVT> objs;
	bool loose = false;          // the units being registered have other step counts (compiled by gcc)
};
extern "C" void dsga_sim_register(Registry *);

// seams the workload may call back into
extern "C"
{
	void sim_yield();                       // explicit scheduling point (used by user callbacks)
	void sim_callback(long tag, double v);  // user callback invoked: record it
	void sim_note(const char *what);        // harness-level violation from inside the workload
	int sim_catch_begin(void);
	void sim_fresh(const void *result);     // checks that a returned object does not lie in shared memory
}
