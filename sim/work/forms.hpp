// Representative operand forms per component count.
#pragma once
#include "common.hpp"
template <class... Fs> struct FList {};

template <class T, int n> struct Forms;
template <class T> struct Forms<T, 1>
{
	using dst = FList<Whole<K_V, T, 1>, Form<K_V, T, 4, A_y>, Form<K_W, T, 3, A_z>, Whole<K_W, T, 1>, Form<K_Y, T, 2, A_x>, Whole<K_Y, T, 1>, Form<K_V, T, 2, A_x>, Form<K_V, T, 3, A_z>, Form<K_W, T, 4, A_w>>;
	using src = FList<Whole<K_V, T, 1>, Form<K_V, T, 4, A_w>, Form<K_W, T, 3, A_x>, Whole<K_C, T, 1>, Whole<K_Y, T, 1>>;
};
template <class T> struct Forms<T, 2>
{
	using dst = FList<Whole<K_V, T, 2>, Form<K_V, T, 4, A_wy>, Form<K_V, T, 3, A_zx>, Form<K_W, T, 4, A_xz>, Whole<K_W, T, 2>, Whole<K_Y, T, 2>, Form<K_V, T, 2, A_yx>, Form<K_W, T, 3, A_yz>>;
	using src = FList<Whole<K_V, T, 2>, Form<K_V, T, 4, A_zz>, Form<K_V, T, 3, A_yx>, Form<K_W, T, 4, A_yw>, Whole<K_C, T, 2>, Whole<K_Y, T, 2>, Whole<K_W, T, 2>>;
};
template <class T> struct Forms<T, 3>
{
	using dst = FList<Whole<K_V, T, 3>, Form<K_V, T, 4, A_zxw>, Form<K_V, T, 3, A_zyx>, Form<K_W, T, 4, A_ywx>, Whole<K_W, T, 3>, Whole<K_Y, T, 3>, Form<K_Y, T, 4, A_xzw>>;
	using src = FList<Whole<K_V, T, 3>, Form<K_V, T, 4, A_yzx>, Form<K_V, T, 3, A_yyx>, Form<K_W, T, 4, A_wxz>, Whole<K_C, T, 3>, Whole<K_Y, T, 3>, Whole<K_W, T, 3>>;
};
template <class T> struct Forms<T, 4>
{
	using dst = FList<Whole<K_V, T, 4>, Form<K_V, T, 4, A_wzyx>, Whole<K_W, T, 4>, Form<K_W, T, 4, A_yxwz>, Whole<K_Y, T, 4>, Form<K_Y, T, 4, A_zwxy>>;
	using src = FList<Whole<K_V, T, 4>, Form<K_V, T, 4, A_yzwx>, Form<K_V, T, 3, A_zyxx>, Form<K_W, T, 4, A_wxyz>, Whole<K_C, T, 4>, Whole<K_Y, T, 4>, Whole<K_W, T, 4>>;
};
// light subsets, used for the operators that share the machinery with the fully covered ones
template <class L, int... I> struct Pick;
template <class... Fs, int... I> struct Pick<FList<Fs...>, I...> { using type = FList<std::tuple_element_t<I, std::tuple<Fs...>>...>; };
template <class T, int n, bool full> struct FormsL : Forms<T, n> {};
// three operands of each role: a vector, a swizzle, and in turn (by type and size) a view's swizzle, a view, a view_vector or view over const
template <class T> constexpr int type_no() { return std::is_same_v<T, int> ? 2 : std::is_same_v<T, float> ? 0 : std::is_same_v<T, double> ? 1 : std::is_same_v<T, bool> ? 0 : std::is_same_v<T, unsigned> ? 1 : std::is_same_v<T, long long> ? 2 : 0; }
template <class T, int n> struct FormsL<T, n, false>
{
	static constexpr int turn = (type_no<T>() + n) % 3;
	static constexpr int d3 = (n == 1 ? (turn == 0 ? 2 : turn == 1 ? 3 : 5) : n == 4 ? (turn == 0 ? 3 : turn == 1 ? 2 : 4) : turn + 3);
	static constexpr int s3 = (n == 1 ? turn + 2 : turn == 0 ? 3 : turn == 1 ? 4 : 6);
	using dst = typename Pick<typename Forms<T, n>::dst, 0, 1, d3>::type;
	using src = typename Pick<typename Forms<T, n>::src, 0, 1, s3>::type;
};
// for the tables of one operand: every kind of it
template <class T, int n> struct FormsM
{
	using dst = typename Pick<typename Forms<T, n>::dst, 0, 1, (n == 1 ? 2 : 3), (n == 1 ? 3 : n == 4 ? 2 : 4), (n == 4 ? 4 : 5)>::type;
	using src = typename Pick<typename Forms<T, n>::src, 1, 2, (n == 1 ? 3 : 4)>::type;
};
// single-component broadcast sources
template <class T, bool full> using Src1 = std::conditional_t<full, FList<Whole<K_V, T, 1>, Form<K_V, T, 4, A_z>, Form<K_W, T, 2, A_y>, Whole<K_W, T, 1>>, FList<Form<K_V, T, 4, A_z>, Form<K_W, T, 2, A_y>>>;

template <class F, class... Fs> constexpr void for_forms(FList<Fs...>, F f) { (f.template operator()<Fs>(), ...); }
