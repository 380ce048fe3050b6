// Table C: free functions and const member functions (GLSL-style built-ins and extensions),
// with reference models written from their documented meaning.
#pragma once
#include "tab_b.hpp"
#include <bit>
#include <limits>
namespace fn = dsga::functions;

template <class T> constexpr double tol_of = std::is_same_v<T, float> ? 3e-5 : 1e-10;
template <class T> inline bool fin(T x) { if constexpr (std::is_floating_point_v<T>) return std::isfinite(x); else return true; }
template <class T> inline bool small(T x) { if constexpr (std::is_floating_point_v<T>) return x == 0 || (std::fabs(x) < 1e4 && std::fabs(x) > 1e-6); else return fits<int>((__int128)x) && x <= T(30000) && (std::is_unsigned_v<T> || (long long)x >= -30000); }

// far enough from an integer quotient for floor(p / q) not to depend on rounding
template <class T> inline bool clear_quotient(T p, T q)
{
	if constexpr (!std::is_floating_point_v<T>) return true;
	else { double x = p, y = q, k = x / y; return (x * 4 == std::floor(x * 4) && y * 4 == std::floor(y * 4)) || std::fabs(k - std::round(k)) > 1e-3; }
}

// elementwise functions of one, two or three arguments.
// CALL is the library call on x [,y [,z]]; GUARD/REF are in terms of scalar values p [,q [,r]] of type T.
#define EL1(NAME, CALL, GUARD, EXACT, REF)                                                                         \
	struct Fn_##NAME {                                                                                             \
		static constexpr const char *nm = #NAME;                                                                   \
		template <class X> static decltype(auto) call(const X &x) { return CALL; }                                           \
		template <class T> static bool ref(T p, Out *o) { (void)p; if (!(GUARD)) return false; if (EXACT) o->put(REF); else o->approx(REF, 0); return true; } };
#define EL2(NAME, CALL, GUARD, EXACT, REF)                                                                         \
	struct Fn_##NAME {                                                                                             \
		static constexpr const char *nm = #NAME;                                                                   \
		template <class X, class Y> static decltype(auto) call(const X &x, const Y &y) { return CALL; }                      \
		template <class T> static bool ref(T p, T q, Out *o) { (void)p; (void)q; if (!(GUARD)) return false; if (EXACT) o->put(REF); else o->approx(REF, std::fabs((double)p) + std::fabs((double)q)); return true; } };
#define EL3(NAME, CALL, GUARD, EXACT, REF)                                                                         \
	struct Fn_##NAME {                                                                                             \
		static constexpr const char *nm = #NAME;                                                                   \
		template <class X, class Y, class Z> static decltype(auto) call(const X &x, const Y &y, const Z &z) { return CALL; } \
		template <class T> static bool ref(T p, T q, T r, Out *o) { (void)p; (void)q; (void)r; if (!(GUARD)) return false; if (EXACT) o->put(REF); else o->approx(REF, std::fabs((double)p) + std::fabs((double)q) + std::fabs((double)p * (double)q) + std::fabs((double)r)); return true; } };

// floating point only
EL1(radians, fn::radians(x), true, false, T(p * T(3.14159265358979323846L / 180.0L)))
EL1(degrees, fn::degrees(x), true, false, T(p * T(180.0L / 3.14159265358979323846L)))
EL1(sin, fn::sin(x), true, false, std::sin(p))
EL1(cos, fn::cos(x), true, false, std::cos(p))
EL1(tan, fn::tan(x), small(p), false, std::tan(p))
EL1(asin, fn::asin(x), true, false, std::asin(p))
EL1(acos, fn::acos(x), true, false, std::acos(p))
EL1(atan, fn::atan(x), true, false, std::atan(p))
EL1(sinh, fn::sinh(x), true, false, std::sinh(p))
EL1(cosh, fn::cosh(x), true, false, std::cosh(p))
EL1(tanh, fn::tanh(x), true, false, std::tanh(p))
EL1(asinh, fn::asinh(x), true, false, std::asinh(p))
EL1(acosh, fn::acosh(x), true, false, std::acosh(p))
EL1(atanh, fn::atanh(x), true, false, std::atanh(p))
EL1(exp, fn::exp(x), true, false, std::exp(p))
EL1(log, fn::log(x), true, false, std::log(p))
EL1(exp2, fn::exp2(x), true, false, std::exp2(p))
EL1(log2, fn::log2(x), true, false, std::log2(p))
EL1(sqrt, fn::sqrt(x), true, false, std::sqrt(p))
EL1(inversesqrt, fn::inversesqrt(x), fin(p) && p > T(1e-6) && p < T(1e12), false, T(1) / std::sqrt(p))
EL1(fast_inversesqrt, fn::fast_inversesqrt(x), fin(p) && p > T(1e-6) && p < T(1e12), false, T(1) / std::sqrt(p))
EL1(floor, fn::floor(x), true, true, std::floor(p))
EL1(trunc, fn::trunc(x), true, true, std::trunc(p))
EL1(round, fn::round(x), true, true, std::round(p))
EL1(roundEven, fn::roundEven(x), true, true, std::nearbyint(p))
EL1(ceil, fn::ceil(x), true, true, std::ceil(p))
EL1(fract, fn::fract(x), fin(p), false, T(p - std::floor(p)))
EL1(isnan, fn::isnan(x), true, true, bool(std::isnan(p)))
EL1(isinf, fn::isinf(x), true, true, bool(std::isinf(p)))
EL2(atan2, fn::atan(x, y), true, false, std::atan2(p, q))
EL2(pow, fn::pow(x, y), p > 0 && std::isnormal(p) && fin(q), false, std::pow(p, q))
EL2(mod, fn::mod(x, y), small(p) && small(q) && std::fabs((double)q) > 1e-3 && clear_quotient(p, q), false, T(p - q * std::floor(p / q)))
EL2(step, fn::step(x, y), true, true, T(q < p ? 0 : 1))
EL3(mix, fn::mix(x, y, z), small(p) && small(q) && small(r), false, T(p + r * (q - p)))
EL3(smoothstep, fn::smoothstep(x, y, z), small(p) && small(q) && small(r) && p < q, false, ([&] { T t = (r - p) / (q - p); t = t < 0 ? T(0) : t > 1 ? T(1) : t; return T(t * t * (3 - 2 * t)); }()))
EL3(fma, fn::fma(x, y, z), small(p) && small(q) && small(r), false, std::fma(p, q, r))
// any numeric
EL1(abs, fn::abs(x), std::is_floating_point_v<T> || p != std::numeric_limits<T>::min(), true, T(p < 0 ? -p : p))
EL1(sign, fn::sign(x), true, true, T((p > 0) - (p < 0)))
EL2(min, fn::min(x, y), true, true, T(q < p ? q : p))
EL2(max, fn::max(x, y), fin(p) && fin(q), true, T(p < q ? q : p))
EL3(clamp, fn::clamp(x, y, z), q <= r, true, T(p < q ? q : r < p ? r : p))
EL2(lessThan, fn::lessThan(x, y), true, true, bool(p < q))
EL2(lessThanEqual, fn::lessThanEqual(x, y), true, true, bool(p <= q))
EL2(greaterThan, fn::greaterThan(x, y), true, true, bool(p > q))
EL2(greaterThanEqual, fn::greaterThanEqual(x, y), true, true, bool(p >= q))
EL2(equal, fn::equal(x, y), true, true, bool(p == q))
EL2(notEqual, fn::notEqual(x, y), true, true, bool(p != q))
// bool
EL1(compNot, fn::compNot(x), true, true, bool(!p))
EL2(compAnd, fn::compAnd(x, y), true, true, bool(p && q))
EL2(compOr, fn::compOr(x, y), true, true, bool(p || q))
EL1(byteswap, fn::byteswap(x), true, true, ([&] { T r = 0; auto *s = (const unsigned char *)&p; auto *d = (unsigned char *)&r; for (unsigned k = 0; k < sizeof(T); ++k) d[k] = s[sizeof(T) - 1 - k]; return r; }()))

template <class Fn, class T, int n> bool ref_el1(RefArgs &a)
{
	a.out->reltol = tol_of<T>;
	for (int i = 0; i < n; ++i) if (!Fn::template ref<T>(in_<T>(a, 0)[i], a.out)) return false;
	return true;
}
template <class Fn, class T, int n, int mode> bool ref_el2(RefArgs &a)      // mode 0: vec,vec  1: vec,imm  2: imm,vec
{
	a.out->reltol = tol_of<T>;
	for (int i = 0; i < n; ++i)
	{
		T p = mode == 2 ? imm_<T>(a)[0] : in_<T>(a, 0)[i], q = mode == 0 ? in_<T>(a, 1)[i] : mode == 1 ? imm_<T>(a)[0] : in_<T>(a, 0)[i];
		if (!Fn::template ref<T>(p, q, a.out)) return false;
	}
	return true;
}
template <class Fn, class T, int n, int mode> bool ref_el3(RefArgs &a)      // 0: vvv  1: v,imm,imm  2: imm,imm,v  3: v,v,imm
{
	a.out->reltol = tol_of<T>;
	for (int i = 0; i < n; ++i)
	{
		const T *m = imm_<T>(a);
		T v0 = in_<T>(a, 0)[i];
		T p = mode == 2 ? m[0] : v0, q = mode == 0 || mode == 3 ? in_<T>(a, 1)[i] : mode == 1 ? m[0] : m[1], r = mode == 0 ? in_<T>(a, 2)[i] : mode == 1 ? m[1] : mode == 2 ? v0 : m[0];
		if (!Fn::template ref<T>(p, q, r, a.out)) return false;
	}
	return true;
}

template <class T, bool light> struct TabC
{
	template <class Fn, class SF> static void el1(Registry &R)
	{
		add_op(R, st_of<T>(), Fn::nm, F_READ | F_FUNC, [](Args &a) { put_new(a.out, Fn::call(SF::cget(a.obj[0]))); }, ref_el1<Fn, T, SF::n>, &SF::info);
	}
	template <class Fn, class L, class RF> static void el2(Registry &R)
	{
		add_op(R, st_of<T>(), Fn::nm, F_READ | F_FUNC, [](Args &a) { put_new(a.out, Fn::call(L::cget(a.obj[0]), RF::cget(a.obj[1]))); }, ref_el2<Fn, T, L::n, 0>, &L::info, false, &RF::info, false);
	}
	template <class Fn, class L, int mode> static void el2s(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Fn::nm) + (mode == 1 ? "(v,scalar)" : "(scalar,v)")).c_str(), F_READ | F_FUNC, [](Args &a) {
			if constexpr (mode == 1) put_new(a.out, Fn::call(L::cget(a.obj[0]), imm_<T>(a)[0]));
			else put_new(a.out, Fn::call(imm_<T>(a)[0], L::cget(a.obj[0]))); }, ref_el2<Fn, T, L::n, mode>, &L::info);
	}
	template <class Fn, class X, class Y, class Z> static void el3(Registry &R)
	{
		add_op(R, st_of<T>(), Fn::nm, F_READ | F_FUNC, [](Args &a) { put_new(a.out, Fn::call(X::cget(a.obj[0]), Y::cget(a.obj[1]), Z::cget(a.obj[2]))); }, ref_el3<Fn, T, X::n, 0>, &X::info, false, &Y::info, false, &Z::info, false);
	}
	template <class Fn, class L, int mode> static void el3s(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Fn::nm) + " scalar args").c_str(), F_READ | F_FUNC, [](Args &a) {
			const T *m = imm_<T>(a);
			if constexpr (mode == 1) put_new(a.out, Fn::call(L::cget(a.obj[0]), m[0], m[1]));
			else put_new(a.out, Fn::call(m[0], m[1], L::cget(a.obj[0]))); }, ref_el3<Fn, T, L::n, mode>, &L::info);
	}
	template <class Fn, class X, class Y> static void el3m(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Fn::nm) + "(v,v,scalar)").c_str(), F_READ | F_FUNC, [](Args &a) { put_new(a.out, Fn::call(X::cget(a.obj[0]), Y::cget(a.obj[1]), imm_<T>(a)[0])); }, ref_el3<Fn, T, X::n, 3>, &X::info, false, &Y::info, false);
	}

	template <int n> using L0 = typename FormsL<T, n, false>::src;     // vec, vec swizzle, view (or view swizzle)
	template <class L, int i> using Nth = std::tuple_element_t<i, decltype([]<class... F>(FList<F...>) { return std::tuple<F...>{}; }(L{}))>;
	template <class L, int i> struct NthF;
	template <class... F, int i> struct NthF<FList<F...>, i> { using type = std::tuple_element_t<i, std::tuple<F...>>; };
	template <int n, int i> using S_ = typename NthF<L0<n>, i>::type;

	template <int n, class... Fn> static void all1(Registry &R)
	{
		([&] { el1<Fn, S_<n, 0>>(R); if constexpr (!light) el1<Fn, S_<n, 1>>(R); el1<Fn, S_<n, 2>>(R); }(), ...);
	}
	template <int n, class... Fn> static void all2(Registry &R)
	{
		([&] { el2<Fn, S_<n, 0>, S_<n, 0>>(R); if constexpr (!light) { el2<Fn, S_<n, 1>, S_<n, 2>>(R); } el2<Fn, S_<n, 2>, S_<n, 0>>(R); }(), ...);
	}
	template <int n, class... Fn> static void all3(Registry &R)
	{
		([&] { el3<Fn, S_<n, 0>, S_<n, 0>, S_<n, 0>>(R); if constexpr (!light) { el3<Fn, S_<n, 1>, S_<n, 2>, S_<n, 0>>(R); } el3<Fn, S_<n, 2>, S_<n, 0>, S_<n, 1>>(R); }(), ...);
	}

	template <int n> static void reg_fp1(Registry &R)
	{
		all1<n, Fn_radians, Fn_degrees, Fn_sin, Fn_cos, Fn_tan, Fn_asin, Fn_acos, Fn_atan, Fn_sinh, Fn_cosh, Fn_tanh, Fn_asinh, Fn_acosh, Fn_atanh, Fn_exp, Fn_log, Fn_exp2, Fn_log2,
			Fn_sqrt, Fn_inversesqrt, Fn_fast_inversesqrt, Fn_floor, Fn_trunc, Fn_round, Fn_roundEven, Fn_ceil, Fn_fract, Fn_isnan, Fn_isinf>(R);
	}
	template <int n> static void reg_fp2(Registry &R)
	{
		all2<n, Fn_atan2, Fn_pow, Fn_mod, Fn_step>(R);
		all3<n, Fn_mix, Fn_smoothstep, Fn_fma>(R);
		el2s<Fn_mod, S_<n, 0>, 1>(R); el2s<Fn_step, S_<n, 2>, 2>(R); el3s<Fn_smoothstep, S_<n, 0>, 2>(R);
		el3m<Fn_mix, S_<n, 0>, S_<n, 2>>(R);
	}
	template <int n> static void reg_num(Registry &R)
	{
		if constexpr (!std::is_unsigned_v<T>) all1<n, Fn_abs, Fn_sign>(R);
		if constexpr (std::is_integral_v<T>) all1<n, Fn_byteswap>(R);
		all2<n, Fn_min, Fn_max, Fn_lessThan, Fn_lessThanEqual, Fn_greaterThan, Fn_greaterThanEqual, Fn_equal, Fn_notEqual>(R);
		all3<n, Fn_clamp>(R);
		el2s<Fn_min, S_<n, 1>, 1>(R); el2s<Fn_max, S_<n, 2>, 1>(R); el3s<Fn_clamp, S_<n, 0>, 1>(R);
	}
	template <int n> static void reg_bool(Registry &R)
	{
		all1<n, Fn_compNot>(R);
		all2<n, Fn_compAnd, Fn_compOr, Fn_equal, Fn_notEqual>(R);
	}

	// reductions, geometry, members ------------------------------------------------------------
	template <class SF> static void misc(Registry &R)
	{
		static constexpr int n = SF::n;
		const ST st = st_of<T>();
		add_op(R, st, "== (both orders)", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); const auto &y = SF::cget(a.obj[1]); a.out->put(x == y); a.out->put(x != y); },
			[](RefArgs &a) { bool e = true; for (int i = 0; i < n; ++i) e = e && in_<T>(a, 0)[i] == in_<T>(a, 1)[i]; a.out->put(e); a.out->put(!e); return true; }, &SF::info, false, &SF::info, false);
		add_op(R, st, "shift", F_READ | F_FUNC, [](Args &a) { put_new(a.out, SF::cget(a.obj[0]).shift(a.ii[0] % 9 - 4)); },
			[](RefArgs &a) { int by = a.ii[0] % 9 - 4; for (int i = 0; i < n; ++i) { int k = i + by; a.out->put(k >= 0 && k < n ? in_<T>(a, 0)[k] : T(0)); } return true; }, &SF::info);
		add_op(R, st, "cshift", F_READ | F_FUNC, [](Args &a) { put_new(a.out, SF::cget(a.obj[0]).cshift(a.ii[0] % 17 - 8)); },
			[](RefArgs &a) { int by = a.ii[0] % 17 - 8; for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[((i + by) % n + n) % n]); return true; }, &SF::info);
		add_op(R, st, "to_array/to_vector", F_READ | F_FUNC | F_CONV, [](Args &a) { auto arr = dsga::to_array(SF::cget(a.obj[0])); for (auto x : arr) a.out->put(x); put_new(a.out, dsga::to_vector(arr)); },
			[](RefArgs &a) { for (int r = 0; r < 2; ++r) for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }, &SF::info);
		add_op(R, st, "swizzle(i)", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); a.out->put(fn::swizzle(x, (unsigned)a.ii[0] % n)); },
			[](RefArgs &a) { a.out->put(in_<T>(a, 0)[(unsigned)a.ii[0] % n]); return true; }, &SF::info);
		add_op(R, st, "swizzle(i,j,k)", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); put_new(a.out, fn::swizzle(x, (unsigned)a.ii[0] % n, (unsigned)a.ii[1] % n, (unsigned)a.ii[2] % n)); },
			[](RefArgs &a) { for (int k = 0; k < 3; ++k) a.out->put(in_<T>(a, 0)[(unsigned)a.ii[k] % n]); return true; }, &SF::info);
		add_op(R, st, "swizzle(i,j)/(i,j,k,l)", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); put_new(a.out, fn::swizzle(x, (unsigned)a.ii[0] % n, (unsigned)a.ii[1] % n)); put_new(a.out, fn::swizzle(x, (unsigned)a.ii[3] % n, (unsigned)a.ii[1] % n, (unsigned)a.ii[2] % n, (unsigned)a.ii[0] % n)); },
			[](RefArgs &a) { for (int k : {0, 1, 3, 1, 2, 0}) a.out->put(in_<T>(a, 0)[(unsigned)a.ii[k] % n]); return true; }, &SF::info);
		if constexpr (!std::is_same_v<T, bool>)
		{
			add_op(R, st, "min()/max()/sum()", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); a.out->put(x.min()); a.out->put(x.max()); a.out->put(x.sum()); },
				[](RefArgs &a) {
					T lo = in_<T>(a, 0)[0], hi = lo; double s = 0, m = 0;
					a.out->reltol = tol_of<T>;
					for (int i = 0; i < n; ++i) { T v = in_<T>(a, 0)[i]; if constexpr (std::is_floating_point_v<T>) { if (!small(v)) return false; } if (v < lo) lo = v; if (hi < v) hi = v; s += (double)v; m += std::fabs((double)v); }
					a.out->put(lo); a.out->put(hi);
					if constexpr (std::is_integral_v<T>) { T t = 0; for (int i = 0; i < n; ++i) if (!OpAdd::el<T>(t, in_<T>(a, 0)[i], t)) return false; a.out->put(t); } else a.out->approx(s, m);
					return true; }, &SF::info);
			add_op(R, st, "innerProduct", F_READ | F_FUNC, [](Args &a) { a.out->put(fn::innerProduct(SF::cget(a.obj[0]), SF::cget(a.obj[1]))); }, ref_dot<n>, &SF::info, false, &SF::info, false);
		}
		else
		{
			add_op(R, st, "any/all/none", F_READ | F_FUNC, [](Args &a) { const auto &x = SF::cget(a.obj[0]); a.out->put(fn::any(x)); a.out->put(fn::all(x)); a.out->put(fn::none(x)); },
				[](RefArgs &a) { bool y = false, l = true; for (int i = 0; i < n; ++i) { y |= in_<T>(a, 0)[i]; l &= in_<T>(a, 0)[i]; } a.out->put(y); a.out->put(l); a.out->put(!y); return true; }, &SF::info);
		}
		if constexpr (std::is_floating_point_v<T>)
		{
			add_op(R, st, "dot", F_READ | F_FUNC, [](Args &a) { a.out->put(fn::dot(SF::cget(a.obj[0]), SF::cget(a.obj[1]))); }, ref_dot<n>, &SF::info, false, &SF::info, false);
			add_op(R, st, "length", F_READ | F_FUNC, [](Args &a) { a.out->put(fn::length(SF::cget(a.obj[0]))); },
				[](RefArgs &a) { double s = 0; a.out->reltol = tol_of<T>; for (int i = 0; i < n; ++i) { T v = in_<T>(a, 0)[i]; if (!small(v)) return false; s += (double)v * v; } a.out->approx(std::sqrt(s), 0); return true; }, &SF::info);
			add_op(R, st, "distance", F_READ | F_FUNC, [](Args &a) { a.out->put(fn::distance(SF::cget(a.obj[0]), SF::cget(a.obj[1]))); },
				[](RefArgs &a) { double s = 0, m = 0; a.out->reltol = tol_of<T>; for (int i = 0; i < n; ++i) { T u = in_<T>(a, 0)[i], v = in_<T>(a, 1)[i]; if (!small(u) || !small(v)) return false; s += ((double)u - v) * ((double)u - v); m += std::fabs((double)u) + std::fabs((double)v); } a.out->approx(std::sqrt(s), m); return true; }, &SF::info, false, &SF::info, false);
			add_op(R, st, "ldexp/frexp(private exp)", F_READ | F_FUNC, [](Args &a) {
					dsga::basic_vector<int, n> e{}; for (int i = 0; i < n; ++i) e[i] = a.ii[i] % 5 - 2;
					put_new(a.out, fn::ldexp(SF::cget(a.obj[0]), e));
					put_new(a.out, fn::frexp(SF::cget(a.obj[0]), e)); put_vec(a.out, e); },
				[](RefArgs &a) {
					for (int i = 0; i < n; ++i) { if (!small(in_<T>(a, 0)[i])) return false; a.out->put(std::ldexp(in_<T>(a, 0)[i], a.ii[i] % 5 - 2)); }
					int ex[4]; for (int i = 0; i < n; ++i) a.out->put(std::frexp(in_<T>(a, 0)[i], &ex[i]));
					for (int i = 0; i < n; ++i) a.out->put(ex[i]);
					return true; }, &SF::info);
			if constexpr (n > 1)
			{
				add_op(R, st, "normalize", F_READ | F_FUNC, [](Args &a) { put_new(a.out, fn::normalize(SF::cget(a.obj[0]))); },
					[](RefArgs &a) { double s = 0; a.out->reltol = tol_of<T>; for (int i = 0; i < n; ++i) { T v = in_<T>(a, 0)[i]; if (!small(v)) return false; s += (double)v * v; } s = std::sqrt(s);
						for (int i = 0; i < n; ++i) { if (s == 0) a.out->approx(std::numeric_limits<double>::quiet_NaN(), 0); else a.out->approx(in_<T>(a, 0)[i] / s, 0.01); } return true; }, &SF::info);
				add_op(R, st, "reflect", F_READ | F_FUNC, [](Args &a) { put_new(a.out, fn::reflect(SF::cget(a.obj[0]), SF::cget(a.obj[1]))); },
					[](RefArgs &a) { double d = 0, m = 0; a.out->reltol = tol_of<T>; auto p = in_<T>(a, 0), q = in_<T>(a, 1); for (int i = 0; i < n; ++i) { if (!small(p[i]) || !small(q[i])) return false; d += (double)p[i] * q[i]; m += std::fabs((double)p[i] * q[i]); }
						for (int i = 0; i < n; ++i) a.out->approx(p[i] - 2 * d * q[i], std::fabs((double)p[i]) + 2 * m * std::fabs((double)q[i])); return true; }, &SF::info, false, &SF::info, false);
				add_op(R, st, "faceforward", F_READ | F_FUNC, [](Args &a) { put_new(a.out, fn::faceforward(SF::cget(a.obj[0]), SF::cget(a.obj[1]), SF::cget(a.obj[2]))); },
					[](RefArgs &a) { double d = 0, m = 0; auto p = in_<T>(a, 0), q = in_<T>(a, 1), r = in_<T>(a, 2); for (int i = 0; i < n; ++i) { if (!small(p[i]) || !small(q[i]) || !small(r[i])) return false; d += (double)r[i] * q[i]; m += std::fabs((double)r[i] * q[i]); }
						if (d != 0 && std::fabs(d) < 1e-4 * m) return false;
						for (int i = 0; i < n; ++i) a.out->put(d < 0 ? p[i] : T(-p[i])); return true; }, &SF::info, false, &SF::info, false, &SF::info, false);
				add_op(R, st, "refract", F_READ | F_FUNC, [](Args &a) { put_new(a.out, fn::refract(SF::cget(a.obj[0]), SF::cget(a.obj[1]), T(a.ii[0] % 5) / T(4))); },
					[](RefArgs &a) { double d = 0, m = 0, eta = (a.ii[0] % 5) / 4.0; a.out->reltol = 10 * tol_of<T>; auto p = in_<T>(a, 0), q = in_<T>(a, 1); for (int i = 0; i < n; ++i) { if (!small(p[i]) || !small(q[i])) return false; d += (double)p[i] * q[i]; m += std::fabs((double)p[i] * q[i]); }
						double k = 1 - eta * eta * (1 - d * d); if (std::fabs(k) < 1e-3 * (1 + m * m)) { if (k != 1) return false; }
						for (int i = 0; i < n; ++i) { if (k < 0) a.out->approx(0.0, 0); else a.out->approx(eta * p[i] - (eta * d + std::sqrt(k)) * q[i], std::fabs((double)p[i]) + (m + std::sqrt(k) + 1) * std::fabs((double)q[i])); } return true; }, &SF::info, false, &SF::info, false);
			}
			if constexpr (n == 3)
				cross<SF, SF>(R);
		}
	}
	template <int n> static bool ref_dot(RefArgs &a)
	{
		if constexpr (std::is_integral_v<T>)
		{
			T t = 0;
			for (int i = 0; i < n; ++i) { T p; if (!OpMul::el<T>(in_<T>(a, 0)[i], in_<T>(a, 1)[i], p) || !OpAdd::el<T>(t, p, t)) return false; }
			a.out->put(t);
			return true;
		}
		double s = 0, m = 0; a.out->reltol = tol_of<T>;
		for (int i = 0; i < n; ++i) { T u = in_<T>(a, 0)[i], v = in_<T>(a, 1)[i]; if (!small(u) || !small(v)) return false; s += (double)u * (double)v; m += std::fabs((double)u * (double)v); }
		if constexpr (std::is_floating_point_v<T>) a.out->approx(s, m);
		return true;
	}
	template <class X, class Y> static void cross(Registry &R)
	{
		add_op(R, st_of<T>(), "cross", F_READ | F_FUNC, [](Args &a) { put_new(a.out, fn::cross(X::cget(a.obj[0]), Y::cget(a.obj[1]))); },
			[](RefArgs &a) { auto p = in_<T>(a, 0), q = in_<T>(a, 1); a.out->reltol = tol_of<T>; for (int i = 0; i < 3; ++i) if (!small(p[i]) || !small(q[i])) return false;
				for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; double u = (double)p[j] * q[k], v = (double)q[j] * p[k]; a.out->approx(u - v, std::fabs(u) + std::fabs(v)); } return true; }, &X::info, false, &Y::info, false);
	}
	// modf with a visible out-parameter: an operation that both returns and writes
	template <class SF, class DF> static void modf(Registry &R)
	{
		static constexpr int n = SF::n;
		add_op(R, st_of<T>(), "modf(arg, out)", F_WRITE | F_FUNC, [](Args &a) { auto &i = DF::get(a.obj[0]); put_new(a.out, fn::modf(SF::cget(a.obj[1]), i)); },
			[](RefArgs &a) { for (int k = 0; k < n; ++k) { T v = in_<T>(a, 1)[k]; if (!small(v)) return false; w_<T>(a, 0)[k] = std::trunc(v); a.out->put(T(v - std::trunc(v))); } return true; }, &DF::info, true, &SF::info, false);
	}
	// results of functions assigned back into an operand: f(x) evaluated, then stored
	template <class DF, class SF> static void func_assign(Registry &R)
	{
		static constexpr int n = DF::n;
		if constexpr (n > 1)
		{
			add_op(R, st_of<T>(), "= min(self,src)+max(self,src)-src:", F_WRITE | F_FUNC, [](Args &a) { auto &d = DF::get(a.obj[0]); const auto &s = SF::cget(a.obj[1]); d = fn::min(d, s) + fn::max(d, s) - s; },
				[](RefArgs &a) { for (int k = 0; k < n; ++k) { T p = in_<T>(a, 0)[k], q = in_<T>(a, 1)[k]; if (!small(p) || !small(q)) return false; T lo = q < p ? q : p, hi = p < q ? q : p; w_<T>(a, 0)[k] = (lo + hi) - q; } return true; }, &DF::info, true, &SF::info, false);
			add_op(R, st_of<T>(), "= self.cshift+shift:", F_WRITE | F_FUNC, [](Args &a) { auto &d = DF::get(a.obj[0]); const auto &s = SF::cget(a.obj[1]); d = d.cshift(1) + s.shift(1); },
				[](RefArgs &a) { for (int k = 0; k < n; ++k) { T p = in_<T>(a, 0)[(k + 1) % n], q = k + 1 < n ? in_<T>(a, 1)[k + 1] : T(0); if (!small(p) || !small(q)) return false; w_<T>(a, 0)[k] = p + q; } return true; }, &DF::info, true, &SF::info, false);
		}
	}

	template <int n> static void reg_misc(Registry &R)
	{
		misc<S_<n, 0>>(R); if constexpr (!light) misc<S_<n, 1>>(R); misc<S_<n, 2>>(R); if constexpr (!light) misc<Whole<K_Y, T, n>>(R);
		if constexpr (std::is_floating_point_v<T>)
		{
			if constexpr (n == 3) { cross<S_<3, 0>, S_<3, 2>>(R); cross<S_<3, 1>, S_<3, 0>>(R); if constexpr (!light) { cross<Whole<K_W, T, 3>, Whole<K_C, T, 3>>(R); cross<Whole<K_C, T, 3>, Whole<K_V, T, 3>>(R); } }
			modf<S_<n, 0>, Whole<K_V, T, n>>(R); modf<S_<n, 1>, Whole<K_W, T, n>>(R); modf<S_<n, 2>, typename NthF<typename FormsL<T, n, false>::dst, 1>::type>(R);
			modf<S_<n, 0>, typename NthF<typename FormsL<T, n, false>::dst, 2>::type>(R);
		}
		if constexpr (!std::is_same_v<T, bool>)
		{
			func_assign<Whole<K_V, T, n>, S_<n, 1>>(R);
			func_assign<typename NthF<typename FormsL<T, n, false>::dst, 1>::type, S_<n, 0>>(R);
			func_assign<typename NthF<typename FormsL<T, n, false>::dst, 2>::type, S_<n, 2>>(R);
		}
	}
};
