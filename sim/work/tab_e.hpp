// Table E: the scalar overloads of the free functions on shared components, and the rarely used ways to reach an object:
// iterator ->, get<> of temporaries, assignment to temporary views, stand-alone swizzles, views over const created by hand.
#pragma once
#include "tab_d.hpp"

// ---- scalar overloads ----------------------------------------------------------------------
template <class F> struct TabSc
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr ST st = st_of<T>();
	static constexpr bool num = !std::is_same_v<T, bool>, flt = std::is_floating_point_v<T>;
	static auto name(const char *s) { return std::string(s) + "(scalars)"; }

	template <class Fn> static void s1(Registry &R)
	{
		add_op(R, st, name(Fn::nm).c_str(), F_READ | F_FUNC, [](Args &a) { const auto &x = F::cget(a.obj[0]); for (int i = 0; i < n; ++i) a.out->put(Fn::call(x[i])); }, ref_el1<Fn, T, n>, &F::info);
	}
	template <class Fn> static void s2(Registry &R)
	{
		add_op(R, st, name(Fn::nm).c_str(), F_READ | F_FUNC, [](Args &a) { const auto &x = F::cget(a.obj[0]); const auto &y = F::cget(a.obj[1]); for (int i = 0; i < n; ++i) a.out->put(Fn::call(x[i], y[i])); }, ref_el2<Fn, T, n, 0>, &F::info, false, &F::info, false);
	}
	template <class Fn> static void s3(Registry &R)
	{
		add_op(R, st, name(Fn::nm).c_str(), F_READ | F_FUNC, [](Args &a) { const auto &x = F::cget(a.obj[0]); const auto &y = F::cget(a.obj[1]); const auto &z = F::cget(a.obj[2]); for (int i = 0; i < n; ++i) a.out->put(Fn::call(x[i], y[i], z[i])); },
			ref_el3<Fn, T, n, 0>, &F::info, false, &F::info, false, &F::info, false);
	}
	template <class... Fn> static void all1(Registry &R) { (s1<Fn>(R), ...); }
	template <class... Fn> static void all2(Registry &R) { (s2<Fn>(R), ...); }

	static void reg(Registry &R)
	{
		all2<Fn_equal, Fn_notEqual>(R);
		if constexpr (num)
		{
			all2<Fn_lessThan, Fn_lessThanEqual, Fn_greaterThan, Fn_greaterThanEqual, Fn_min, Fn_max>(R); s3<Fn_clamp>(R);
			if constexpr (!std::is_unsigned_v<T>) all1<Fn_abs, Fn_sign>(R);
			if constexpr (!flt) s1<Fn_byteswap>(R);
		}
		else
		{
			all2<Fn_compAnd, Fn_compOr>(R); s1<Fn_compNot>(R);
			add_op(R, st, "any/all/none/logicalNot(scalars)", F_READ | F_FUNC, [](Args &a) { const auto &x = F::cget(a.obj[0]); for (int i = 0; i < n; ++i) { bool b = x[i]; a.out->put(fn::any(b)); a.out->put(fn::all(b)); a.out->put(fn::none(b)); a.out->put(fn::logicalNot(b)); } put_new(a.out, fn::logicalNot(x)); },
				[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) { a.out->put(p[i]); a.out->put(p[i]); a.out->put(!p[i]); a.out->put(!p[i]); } for (int i = 0; i < n; ++i) a.out->put(!p[i]); return true; }, &F::info);
		}
		if constexpr (flt)
		{
			all1<Fn_radians, Fn_degrees, Fn_sin, Fn_cos, Fn_tan, Fn_asin, Fn_acos, Fn_atan, Fn_sinh, Fn_cosh, Fn_tanh, Fn_asinh, Fn_acosh, Fn_atanh, Fn_exp, Fn_log, Fn_exp2, Fn_log2, Fn_sqrt, Fn_inversesqrt, Fn_fast_inversesqrt,
				Fn_floor, Fn_trunc, Fn_round, Fn_roundEven, Fn_ceil, Fn_fract, Fn_isnan, Fn_isinf>(R);
			all2<Fn_atan2, Fn_pow, Fn_mod, Fn_step>(R);
			s3<Fn_mix>(R); s3<Fn_smoothstep>(R); s3<Fn_fma>(R);
			add_op(R, st, "length, distance, frexp, ldexp(scalars)", F_READ | F_FUNC, [](Args &a) {
					const auto &x = F::cget(a.obj[0]); const auto &y = F::cget(a.obj[1]);
					for (int i = 0; i < n; ++i)
					{
						int e = -99; a.out->put(fn::length(static_cast<T>(x[i]))); a.out->put(fn::distance(x[i], y[i]));
						a.out->put(fn::frexp(x[i], e)); a.out->put(e); a.out->put(fn::ldexp(x[i], a.ii[i] % 9 - 4)); a.out->put(fn::mix(x[i], y[i], (a.ii[i] & 1) != 0));
					} },
				[](RefArgs &a) {
					auto p = in_<T>(a, 0), q = in_<T>(a, 1);
					for (int i = 0; i < n; ++i)
					{
						if (!small(p[i]) || !small(q[i])) return false;
						int e; T f = std::frexp(p[i], &e); T d = p[i] - q[i];
						a.out->put(std::fabs(p[i])); a.out->put(T(std::fabs(d))); a.out->put(f); a.out->put(e); a.out->put(T(std::ldexp(p[i], a.ii[i] % 9 - 4))); a.out->put(a.ii[i] & 1 ? q[i] : p[i]);
					}
					return true; }, &F::info, false, &F::info, false);
			add_op(R, st, "bit casts(scalars)", F_READ | F_FUNC, [](Args &a) {
					const auto &x = F::cget(a.obj[0]);
					for (int i = 0; i < n; ++i)
					{
						if constexpr (sizeof(T) == 4) { T t = x[i]; a.out->put(fn::floatBitsToInt(t)); a.out->put(fn::floatBitsToUint(t)); a.out->put(fn::intBitsToFloat(fn::floatBitsToInt(t))); a.out->put(fn::uintBitsToFloat(fn::floatBitsToUint(t))); }
						else { T t = x[i]; a.out->put(fn::doubleBitsToLongLong(t)); a.out->put(fn::doubleBitsToUlongLong(t)); a.out->put(fn::longLongBitsToDouble(fn::doubleBitsToLongLong(t))); a.out->put(fn::ulongLongBitsToDouble(fn::doubleBitsToUlongLong(t))); }
					} },
				[](RefArgs &a) {
					using I = std::conditional_t<sizeof(T) == 4, int, long long>; using U = std::make_unsigned_t<I>;
					for (int i = 0; i < n; ++i) { T t = in_<T>(a, 0)[i]; I s; U u; memcpy(&s, &t, sizeof t); memcpy(&u, &t, sizeof t); a.out->put(s); a.out->put(u); a.out->put(t); a.out->put(t); }
					return true; }, &F::info);
			// the borders between the cases of the piecewise defined functions
			add_op(R, st, "functions at their borders", F_READ | F_FUNC | F_MULTI, [](Args &a) {
					const auto &x = F::cget(a.obj[0]);
					for (int i = 0; i < n; ++i)
					{
						T t = x[i], u = t + T(1);
						a.out->put(fn::step(t, t)); a.out->put(fn::smoothstep(t, u, t)); a.out->put(fn::smoothstep(t, u, u)); a.out->put(fn::clamp(t, t, t)); a.out->put(fn::clamp(t, t, u)); a.out->put(fn::clamp(u, t, u));
						a.out->put(fn::mix(t, u, T(0))); a.out->put(fn::mix(t, u, T(1))); a.out->put(fn::sign(T(t * 0))); a.out->put(fn::fract(std::trunc(t))); a.out->put(fn::roundEven(std::trunc(t) + T(0.5)));
					}
					if constexpr (n > 1)
					{
						unsigned p = (unsigned)a.ii[0] % n, q = (p + 1 + (unsigned)a.ii[1] % (n - 1)) % n;
						T s = (a.ii[2] & 1 ? T(-1) : T(1)) * T(1 << (a.ii[3] & 3));
						dsga::basic_vector<T, n> e{}, f{}, g{}; e[p] = s; f[q] = T(1); g[p] = T(1);
						put_new(a.out, fn::refract(e, f, T(1)));            // k is 0: the grazing ray
						put_new(a.out, fn::refract(g, g, T(1))); put_new(a.out, fn::refract(g, f, T(2))); put_new(a.out, fn::reflect(e, f)); put_new(a.out, fn::reflect(e, g));
						put_new(a.out, fn::faceforward(x, e, f)); put_new(a.out, fn::faceforward(x, e, g)); a.out->put(fn::dot(e, f)); a.out->put(fn::length(e)); a.out->put(fn::distance(e, e));
					} },
				[](RefArgs &a) {
					auto x = in_<T>(a, 0);
					for (int i = 0; i < n; ++i)
					{
						T t = x[i]; if (!small(t) || std::fabs(t) > 1000 || T(t + T(1)) - t != T(1)) return false;
						T u = t + T(1), h = std::trunc(t) + T(0.5);
						for (T v : {T(1), T(0), T(1), t, t, u, t, u, T(0), T(0), T(std::nearbyint(h))}) a.out->put(v);
					}
					if constexpr (n > 1)
					{
						unsigned p = (unsigned)a.ii[0] % n, q = (p + 1 + (unsigned)a.ii[1] % (n - 1)) % n; (void)q;
						T s = (a.ii[2] & 1 ? T(-1) : T(1)) * T(1 << (a.ii[3] & 3));
						auto ax = [&](T v) { for (unsigned i = 0; i < n; ++i) a.out->put(i == p ? v : T(0)); };
						ax(s); ax(T(-1)); ax(T(0)); ax(s); ax(-s);
						for (int i = 0; i < n; ++i) a.out->put(T(-x[i])); for (int i = 0; i < n; ++i) a.out->put(s < 0 ? x[i] : T(-x[i]));
						a.out->put(T(0)); a.out->put(std::fabs(s)); a.out->put(T(0));
					}
					return true; }, &F::info);
			if constexpr (F::wr)
				add_op(R, st, "modf(scalar, into a component)", F_WRITE | F_FUNC, [](Args &a) { auto &w = F::get(a.obj[0]); const auto &y = F::cget(a.obj[1]); int i = (unsigned)a.ii[0] % n, j = (unsigned)a.ii[1] % n; a.out->put(fn::modf(static_cast<T>(y[j]), w[i])); },
					[](RefArgs &a) { int i = (unsigned)a.ii[0] % n, j = (unsigned)a.ii[1] % n; T y = in_<T>(a, 1)[j]; if (!small(y)) return false; T k = std::trunc(y); w_<T>(a, 0)[i] = k; a.out->put(T(y - k)); return true; }, &F::info, true, &F::info, false);
		}
	}
};

// ---- unusual ways to reach an object -------------------------------------------------------
template <class F> struct TabE
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr ST st = st_of<T>();
	static constexpr bool num = !std::is_same_v<T, bool>, flt = std::is_floating_point_v<T>;
	static constexpr bool whole = F::info.acc[0] == 0;
	using CO = std::remove_cvref_t<decltype(F::cget(nullptr))>;
	static T *vals(const T *m, T *to, int k) { for (int i = 0; i < n; ++i) to[i] = m[(i + k) % 8]; return to; }

	static bool ref_read(RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }
	static bool ref_read2(RefArgs &a) { return ref_read(a) && ref_read(a); }
	static bool ref_imm(RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; }
	static bool ref_rw(RefArgs &a) { return ref_read(a) && ref_imm(a); }

	template <class It> static T arrow(const It &it) { if constexpr (requires { it.operator->(); }) return *it.operator->(); else return *it; }
	template <class It> static void arrow_set(const It &it, T x) { if constexpr (requires { it.operator->(); }) *it.operator->() = x; else *it = x; }

	static void reg(Registry &R)
	{
		add_op(R, st, "iterator ->", F_READ | F_ITER, [](Args &a) {
				const auto &o = F::cget(a.obj[0]);
				for (auto i = o.begin(); i != o.end(); ++i) a.out->put(arrow(i));
				for (auto i = o.as_base().rbegin(); i != o.as_base().rend(); ++i) a.out->put(arrow(i));
				for (auto i = o.as_base().crbegin(); i != o.as_base().crend(); i++) a.out->put((T)*i);
				for (auto i = o.as_base().cbegin(); i != o.as_base().cend(); i++) a.out->put((T)*i); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int k = 0; k < 4; ++k) for (int i = 0; i < n; ++i) a.out->put(p[k == 1 || k == 2 ? n - 1 - i : i]); return true; }, &F::info);
		add_op(R, st, "get<> of temporaries", F_READ | F_ITER, [](Args &a) {
				const CO &o = F::cget(a.obj[0]);
				[&]<std::size_t... I>(std::index_sequence<I...>) { (a.out->put((T)dsga::get<I>(static_cast<const CO &&>(o))), ...); (a.out->put((T)dsga::get<n - 1 - I>(o.as_base())), ...); }(std::make_index_sequence<n>{}); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) a.out->put(p[i]); for (int i = n; i--;) a.out->put(p[i]); return true; }, &F::info);
		add_op(R, st, "data() and sequence() of the base", F_READ | F_ITER, [](Args &a) {
				const auto &b = F::cget(a.obj[0]).as_base(); const T *p = b.data();
				[&]<std::size_t... I>(std::index_sequence<I...>) { (a.out->put((T)p[I]), ...); }(b.sequence()); a.out->put((int)b.size()); a.out->put(b.length()); },
			[](RefArgs &a) { ref_read(a); a.out->put((int)n); a.out->put((int)n); return true; }, &F::info);
		// a copy of a swizzle: of a vector's it is a stand-alone object, of a view's it refers to the same data
		if constexpr (!whole)
			add_op(R, st, "copy of a swizzle", F_READ | F_CONV | F_OBJREAD, [](Args &a) {
					auto s = F::cget(a.obj[0]); auto t = std::move(s); put_vec(a.out, t);
					if constexpr (F::K == K_V && CO::Writable) { auto u = t; for (int i = 0; i < n; ++i) u[i] = imm_<T>(a)[i]; put_vec(a.out, u); put_vec(a.out, t); }
					else { put_vec(a.out, s); for (auto i = t.begin(); i != t.end(); ++i) a.out->put(arrow(i)); } },
				[](RefArgs &a) { ref_read(a); if constexpr (F::K == K_V && CO::Writable) { for (int i = 0; i < n; ++i) a.out->put(imm_<T>(a)[i]); return ref_read(a); } else return ref_read2(a); }, &F::info);
		// views created by hand over the same data
		if constexpr (whole)
		{
			using CV = dsga::basic_view<false, T, n>;
			add_op(R, st, "views over const made by hand", F_READ | F_CONV, [](Args &a) {
					const auto &o = F::cget(a.obj[0]);
					CV c(static_cast<const T *>(o.data())); put_vec(a.out, c); CV d; T other[4]{}; d.reset(other); d.reset(static_cast<const T *>(o.data())); put_vec(a.out, d); CV e(d); CV f(std::move(e));
					for (auto i = f.crbegin(); i != f.crend(); ++i) a.out->put((T)*i);
					[&]<std::size_t... I>(std::index_sequence<I...>) { (a.out->put((T)dsga::get<I>(CV(f))), ...); }(std::make_index_sequence<n>{}); },
				[](RefArgs &a) { ref_read2(a); for (int i = n; i--;) a.out->put(in_<T>(a, 0)[i]); return ref_read(a); }, &F::info);
			add_op(R, st, "whole == whole, to_vector of an array", F_READ | F_CONV, [](Args &a) {
					const auto &o = F::cget(a.obj[0]); T arr[n]; for (int i = 0; i < n; ++i) arr[i] = o[i];
					auto v = dsga::to_vector(arr); if (a.ii[0] & 1) v[(unsigned)a.ii[1] % n] = imm_<T>(a)[0];
					a.out->put(v == o); a.out->put(o == v); a.out->put(v != o); put_new(a.out, dsga::to_vector(dsga::to_array(o))); },
				[](RefArgs &a) {
					auto p = in_<T>(a, 0); bool e = true;
					for (int i = 0; i < n; ++i) { T x = a.ii[0] & 1 && i == int((unsigned)a.ii[1] % n) ? imm_<T>(a)[0] : p[i]; e = e && p[i] == x; }
					a.out->put(e); a.out->put(e); a.out->put(!e); return ref_read(a); }, &F::info);
			if constexpr (num && n > 1)
				add_op(R, st, "broadcast constructors", F_READ | F_CONV, [](Args &a) {
						const auto &o = F::cget(a.obj[0]); unsigned k = (unsigned)a.ii[0] % n;
						put_new(a.out, dsga::basic_vector<T, n>(o[k])); put_new(a.out, dsga::basic_vector<T, 2>(o[0])); put_new(a.out, dsga::basic_vector<T, 3>(o[n - 1])); put_new(a.out, dsga::basic_vector<T, 4>(o[k])); put_new(a.out, dsga::basic_vector<T, 1>(o[k])); },
					[](RefArgs &a) { auto p = in_<T>(a, 0); unsigned k = (unsigned)a.ii[0] % n; auto P = [&](int c, T x) { while (c--) a.out->put(x); }; P(n, p[k]); P(2, p[0]); P(3, p[n - 1]); P(4, p[k]); P(1, p[k]); return true; }, &F::info);
		}
		if constexpr (n == 1)
			add_op(R, st, "single component == scalar", F_READ | F_CONV, [](Args &a) {
					const auto &o = F::cget(a.obj[0]); T x = a.ii[0] & 1 ? static_cast<T>(o[0]) : imm_<T>(a)[0];
					a.out->put(o.as_base() == x); a.out->put(x == o.as_base()); a.out->put(o.as_base() != x); },
				[](RefArgs &a) { auto p = in_<T>(a, 0); if (!fin(p[0])) return false; bool e = (a.ii[0] & 1 ? p[0] : imm_<T>(a)[0]) == p[0]; a.out->put(e); a.out->put(e); a.out->put(!e); return true; }, &F::info);

		// stand-alone swizzles of views
		if constexpr (!whole && (F::K == K_W || F::K == K_C))
		{
			add_op(R, st, "stand-alone swizzle of a view", F_READ | F_CONV, [](Args &a) {
					const CO &o = F::cget(a.obj[0]); CO s(o.data()); put_vec(a.out, s); CO t; T other[4]{}; t.reset(other); t.reset(o.data()); put_vec(a.out, t); }, ref_read2, &F::info);
			TabI<F>::template handle<CO>(R, "stand-alone swizzle", F_READ | F_ITER, false, [](auto &o) { return CO(static_cast<const CO &>(o).data()); }, [](CO &h, Args &a) { put_vec(a.out, static_cast<const CO &>(h)); }, ref_read);
		}
		if constexpr (whole)
		{
			using CV = dsga::basic_view<false, T, n>;
			TabI<F>::template handle<CV>(R, "view over const", F_READ | F_ITER, false, [](auto &o) { return CV(static_cast<const CO &>(o).data()); }, [](CV &h, Args &a) { put_vec(a.out, h); }, ref_read);
		}
		if constexpr (!whole && (F::K == K_W || F::K == K_C))
			TabI<F>::template handle<CO>(R, "copy of a swizzle", F_READ | F_ITER, false, [](auto &o) { return CO(o); }, [](CO &h, Args &a) { put_vec(a.out, static_cast<const CO &>(h)); }, ref_read);

		if constexpr (F::wr)
		{
			using O = std::remove_reference_t<decltype(F::get(nullptr))>;
			add_op(R, st, "write through iterator -> and get<> of a temporary", F_WRITE | F_ITER | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a); int k = 7;
					for (auto i = o.as_base().rbegin(); i != o.as_base().rend(); ++i) arrow_set(i, m[k--]);
					for (auto i = o.begin(); i != o.end(); ++i) a.out->put(arrow(i));
					for (auto i = o.begin(); i != o.end(); ++i) arrow_set(i, m[i - o.begin()]);
					auto &&r = dsga::get<n - 1>(std::move(o)); a.out->put((T)r); r = m[4]; },
				[](RefArgs &a) { auto m = imm_<T>(a); auto w = w_<T>(a, 0); for (int i = n; i--;) w[i] = m[7 - (n - 1 - i)]; for (int i = 0; i < n; ++i) a.out->put(w[i]); for (int i = 0; i < n; ++i) w[i] = m[i]; a.out->put(m[n - 1]); w[n - 1] = m[4]; return true; }, &F::info, true);
			add_op(R, st, "write through data() of the base", F_WRITE | F_ITER, [](Args &a) {
					auto &b = F::get(a.obj[0]).as_base(); T *p = b.data(); int k = 0; const T *m = imm_<T>(a);
					[&]<std::size_t... I>(std::index_sequence<I...>) { ((p[I] = m[k++]), ...); }(b.sequence()); }, ref_imm, &F::info, true);
			if constexpr (F::K == K_W && (num || n == 1))
			{
				if constexpr (num) add_op(R, st, "assign to a temporary", F_WRITE | F_CONV, [](Args &a) {
						O &o = F::get(a.obj[0]); dsga::basic_vector<T, n> v{}; for (int i = 0; i < n; ++i) v[i] = imm_<T>(a)[i];
						O &r = (std::move(o) = v); a.out->put(&r == &o); },
					[](RefArgs &a) { a.out->put(true); return ref_imm(a); }, &F::info, true);
				if constexpr (n == 1 && num) add_op(R, st, "assign a scalar to a temporary", F_WRITE | F_CONV, [](Args &a) { O &o = F::get(a.obj[0]); std::move(o) = imm_<T>(a)[0]; }, ref_imm, &F::info, true);
			}
			if constexpr (whole && n == 1 && num && F::K == K_V)
				add_op(R, st, "= scalar through a new vector", F_WRITE | F_CONV, [](Args &a) { auto &o = F::get(a.obj[0]); dsga::basic_vector<T, 1> v(imm_<T>(a)[1]); a.out->put((T)v[0]); v = imm_<T>(a)[0]; o = v; v = imm_<T>(a)[2]; a.out->put((T)v); },
					[](RefArgs &a) { a.out->put(imm_<T>(a)[1]); a.out->put(imm_<T>(a)[2]); return ref_imm(a); }, &F::info, true);
			// a swizzle of a view, stand-alone or copied, writes where the view refers to
			if constexpr (!whole && F::K == K_W)
			{
				add_op(R, st, "write through a copied swizzle of a view", F_WRITE | F_CONV, [](Args &a) {
						O c(F::get(a.obj[0])); O d(c.data()); put_vec(a.out, d); for (int i = 0; i < n; ++i) (i & 1 ? d : c)[i] = imm_<T>(a)[i]; },
					ref_rw, &F::info, true);
				if constexpr (num) add_op(R, st, "assign to temporary copies of a swizzle", F_WRITE | F_CONV, [](Args &a) {
						O &o = F::get(a.obj[0]); dsga::basic_vector<T, n> v{}; for (int i = 0; i < n; ++i) v[i] = imm_<T>(a)[i];
						if (a.ii[0] & 1) static_cast<O>(o) = v; else O(o.data()) = v; },
					ref_imm, &F::info, true);
				TabI<F>::template handle<O>(R, "swizzle of a view", F_WRITE | F_ITER, true, [](O &o) { return O(o); }, [](O &h, Args &a) { for (int i = 0; i < n; ++i) { a.out->put((T)h[i]); h[i] = imm_<T>(a)[i]; } }, ref_rw);
			}
		}
	}
};

template <class T, int C, int R> struct TabEM
{
	using M = MatForm<T, C, R>;
	using mat = dsga::basic_matrix<T, C, R>;
	static constexpr int N = C * R;
	static void reg(Registry &Rg)
	{
		const ST st = st_of<T>(); const FormInfo *mi = &M::info;
		add_op(Rg, st, "conversions to other matrices", F_READ | F_MATRIX | F_CONV, [](Args &a) {
				const mat &m = M::cget(a.obj[0]);
				if constexpr (std::is_same_v<T, float>) { dsga::basic_matrix<double, C, R> d = m; put_mat(a.out, d); d = d * 0.0; d = m; put_mat(a.out, d); }
				else { dsga::basic_matrix<float, C, R> f(m); put_mat(a.out, f); dsga::basic_matrix<float, C, R> g{}; g = static_cast<dsga::basic_matrix<float, C, R>>(m); put_mat(a.out, g); } },
			[](RefArgs &a) { for (int k = 0; k < 2; ++k) for (int i = 0; i < N; ++i) { if (!small(in_<T>(a, 0)[i])) return false; a.out->put((float)in_<T>(a, 0)[i]); } return true; }, mi);
		add_op(Rg, st, "to_array, to_matrix of arrays", F_READ | F_MATRIX | F_CONV, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); auto s = dsga::to_array(m); T p[N]; for (int i = 0; i < N; ++i) { p[i] = s[N - 1 - i]; }
				put_new(a.out, dsga::to_matrix<C, R>(s)); put_new(a.out, dsga::to_matrix<C, R>(p)); },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); for (int i = N; i--;) a.out->put(in_<T>(a, 0)[i]); return true; }, mi);
		add_op(Rg, st, "get<> of a temporary, last columns", F_READ | F_MATRIX | F_ITER, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); mat c(m);
				put_vec(a.out, dsga::get<0>(static_cast<const mat &&>(m))); put_vec(a.out, dsga::get<C - 1>(std::move(c)));
				for (auto i = m.crbegin(); i != m.crend(); ++i) put_vec(a.out, *i); put_vec(a.out, m.data()[1]); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); auto P = [&](int c) { for (int r = 0; r < R; ++r) a.out->put(m[c * R + r]); }; P(0); P(C - 1); for (int c = C; c--;) P(c); P(1); return true; }, mi);
		add_op(Rg, st, "write columns through get<> and data()", F_WRITE | F_MATRIX | F_ITER, [](Args &a) {
				mat &m = M::get(a.obj[0]); const T *q = imm_<T>(a);
				dsga::basic_vector<T, R> v{}; for (int r = 0; r < R; ++r) v[r] = q[r];
				auto &&t = dsga::get<C - 1>(std::move(m)); t = v; m.data()[0][R - 1] = q[7]; dsga::get<0>(m)[0] = q[6]; },
			[](RefArgs &a) { auto w = w_<T>(a, 0); auto q = imm_<T>(a); for (int r = 0; r < R; ++r) w[(C - 1) * R + r] = q[r]; w[R - 1] = q[7]; w[0] = q[6]; return true; }, mi, true);
	}
};
