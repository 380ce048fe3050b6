#pragma once
#include "dsga.hxx"
#include "../iface.hpp"
#include <algorithm>
#include <limits>
#include <new>
#include <tuple>

#include "accessors.inc"

template <int S> struct A_all
{
	static constexpr int n = S;
	static constexpr bool wr = true;
	static constexpr int idx[4] = {0, 1, 2, 3};
	static constexpr const char *nm = "";
	template <class O> static constexpr auto &&of(O &o) { return o; }
};

template <Kind K, class T, int S> struct obj_of;
template <class T, int S> struct obj_of<K_V, T, S> { using type = dsga::basic_vector<T, S>; };
template <class T, int S> struct obj_of<K_W, T, S> { using type = dsga::basic_view<true, T, S>; };
template <class T, int S> struct obj_of<K_C, T, S> { using type = dsga::basic_view<false, T, S>; };
template <class T, int S> struct obj_of<K_Y, T, S> { using type = dsga::view_vector<T, S>; };

struct FormInfo { uint8_t kind, s, r, n; uint8_t idx[16]; const char *acc; };
typedef void (*run_fn)(Args &);
typedef bool (*ref_fn)(RefArgs &);
// defined in reg.cpp (uninstrumented, not a template): keeps the instantiations small
void add_op(Registry &R, ST st, const char *nm, uint32_t flags, run_fn run, ref_fn ref,
			const FormInfo *f0, bool w0 = false, const FormInfo *f1 = nullptr, bool w1 = false, const FormInfo *f2 = nullptr, bool w2 = false);

// an operand form: container kind x scalar x size x accessor
template <Kind K_, class T_, int S_, class Acc> struct Form
{
	static constexpr Kind K = K_;
	using T = T_;
	static constexpr int S = S_;
	static constexpr int n = Acc::n;
	static constexpr bool wr = Acc::wr && K != K_C;
	using obj_t = typename obj_of<K, T, S>::type;
	static constexpr auto &&get(void *p) { return Acc::of(*static_cast<obj_t *>(p)); }
	static constexpr auto &&get_any(void *p) { return Acc::of(*static_cast<obj_t *>(p)); }
	static constexpr auto &&cget(void *p) { return Acc::of(*static_cast<const obj_t *>(p)); }
	static constexpr FormInfo info{K, S, 0, n, {(uint8_t)Acc::idx[0], (uint8_t)Acc::idx[1], (uint8_t)Acc::idx[2], (uint8_t)Acc::idx[3]}, Acc::nm};
};
template <Kind K, class T, int S> using Whole = Form<K, T, S, A_all<S>>;

template <class T, int C, int R> struct MatForm
{
	static constexpr Kind K = K_M;
	static constexpr int n = C * R;
	using obj_t = dsga::basic_matrix<T, C, R>;
	static obj_t &get(void *p) { return *static_cast<obj_t *>(p); }
	static const obj_t &cget(void *p) { return *static_cast<const obj_t *>(p); }
	static constexpr FormInfo info{K_M, C, R, n, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, ""};
};

// value-range guards keeping the reference inside defined behaviour
template <class T> inline bool fits(__int128 v)
{
	if constexpr (std::is_same_v<T, bool>) return v == 0 || v == 1;
	else return v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max();
}

template <class T> inline const T *in_(RefArgs &a, int i) { return static_cast<const T *>(a.in[i]); }
template <class T> inline T *w_(RefArgs &a, int i) { return static_cast<T *>(a.w[i]); }
template <class T> inline const T *imm_(Args &a) { return static_cast<const T *>(a.imm); }
template <class T> inline const T *imm_(RefArgs &a) { return static_cast<const T *>(a.imm); }

// store a vector-like result
template <class X> inline void put_vec(Out *o, const X &x)
{
	if constexpr (std::is_arithmetic_v<X>) o->put(x);
	else for (int i = 0; i < x.length(); ++i) o->put(x[i]);
}
template <class X> inline void put_mat(Out *o, const X &m)
{
	for (int c = 0; c < m.length(); ++c)
		for (int r = 0; r < m.column_length(); ++r) o->put(m[c][r]);
}


// store a result that must be a new object, not a component or operand under another name
template <class X> inline void put_new(Out *o, X &&x)
{
	sim_fresh(&x);
	if constexpr (requires { x.column_length(); }) put_mat(o, x);
	else put_vec(o, x);
}
