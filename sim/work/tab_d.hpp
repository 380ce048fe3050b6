// Table D: variants and overloads that the other tables leave out: scalar arguments on every operand form, bit casts,
// selection by bool vectors, conversions between scalar types, binary operations between scalar types, and more of matrices
// (constructor forms, column ranges, mixed scalar types, long-lived column handles).
#pragma once
#include "tab_c.hpp"
#include "tab_i.hpp"

template <class T> using other_float = std::conditional_t<std::is_same_v<T, float>, double, float>;

template <class F> struct TabD
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr ST st = st_of<T>();
	static constexpr bool num = !std::is_same_v<T, bool>, flt = std::is_floating_point_v<T>;

	static void reg(Registry &R)
	{
		using C = TabC<T, true>;
		if constexpr (num)
		{
			C::template el2s<Fn_min, F, 1>(R); C::template el2s<Fn_max, F, 1>(R); C::template el3s<Fn_clamp, F, 1>(R);
			add_op(R, st, "shift/cshift by any count", F_READ | F_FUNC, [](Args &a) { int by = count(a.ii); const auto &x = F::cget(a.obj[0]); put_new(a.out, x.shift(by)); put_new(a.out, x.cshift(by)); }, [](RefArgs &a) { ref_shift(a); return true; }, &F::info);
		}
		if constexpr (flt)
		{
			C::template el2s<Fn_mod, F, 1>(R); C::template el2s<Fn_step, F, 2>(R); C::template el3s<Fn_smoothstep, F, 2>(R); C::template el3m<Fn_mix, F, F>(R);
			add_op(R, st, "bit casts and back", F_READ | F_FUNC, [](Args &a) {
					const auto &x = F::cget(a.obj[0]);
					if constexpr (sizeof(T) == 4) { auto i = fn::floatBitsToInt(x); auto u = fn::floatBitsToUint(x); put_vec(a.out, i); put_vec(a.out, u); put_new(a.out, fn::intBitsToFloat(i)); put_new(a.out, fn::uintBitsToFloat(u)); }
					else { auto i = fn::doubleBitsToLongLong(x); auto u = fn::doubleBitsToUlongLong(x); put_vec(a.out, i); put_vec(a.out, u); put_new(a.out, fn::longLongBitsToDouble(i)); put_new(a.out, fn::ulongLongBitsToDouble(u)); } },
				[](RefArgs &a) {
					using I = std::conditional_t<sizeof(T) == 4, int, long long>; using U = std::make_unsigned_t<I>;
					auto p = in_<T>(a, 0);
					for (int i = 0; i < n; ++i) { I x; memcpy(&x, p + i, sizeof x); a.out->put(x); }
					for (int i = 0; i < n; ++i) { U x; memcpy(&x, p + i, sizeof x); a.out->put(x); }
					for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(p[i]);
					return true; }, &F::info);
			add_op(R, st, "frexp(into view)/ldexp(from view swizzle)", F_READ | F_FUNC, [](Args &a) {
					int e[4] = {7, 7, 7, 7}; dsga::basic_view<true, int, n> w(e);
					put_new(a.out, fn::frexp(F::cget(a.obj[0]), w)); for (int i = 0; i < 4; ++i) a.out->put(e[i]);
					int d[4]; for (int i = 0; i < 4; ++i) d[i] = a.ii[i] % 5 - 2;
					dsga::basic_view<false, int, 4> c(static_cast<const int *>(d));
					if constexpr (n == 1) put_new(a.out, fn::ldexp(F::cget(a.obj[0]), c.w));
					if constexpr (n == 2) put_new(a.out, fn::ldexp(F::cget(a.obj[0]), c.wy));
					if constexpr (n == 3) put_new(a.out, fn::ldexp(F::cget(a.obj[0]), c.wyy));
					if constexpr (n == 4) put_new(a.out, fn::ldexp(F::cget(a.obj[0]), c.wyyx)); },
				[](RefArgs &a) {
					auto p = in_<T>(a, 0); int ex[4];
					for (int i = 0; i < n; ++i) { if (!small(p[i])) return false; a.out->put(std::frexp(p[i], &ex[i])); }
					for (int i = 0; i < 4; ++i) a.out->put(i < n ? ex[i] : 7);
					static constexpr int s[4] = {3, 1, 1, 0};
					for (int i = 0; i < n; ++i) a.out->put(std::ldexp(p[i], a.ii[s[i]] % 5 - 2));
					return true; }, &F::info);
		}
		else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, unsigned> || std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>)
			add_op(R, st, "bits to floating point and back", F_READ | F_FUNC, [](Args &a) {
					const auto &x = F::cget(a.obj[0]);
					if constexpr (std::is_same_v<T, int>) { auto f = fn::intBitsToFloat(x); put_vec(a.out, f); put_new(a.out, fn::floatBitsToInt(f)); }
					if constexpr (std::is_same_v<T, unsigned>) { auto f = fn::uintBitsToFloat(x); put_vec(a.out, f); put_new(a.out, fn::floatBitsToUint(f)); }
					if constexpr (std::is_same_v<T, long long>) { auto f = fn::longLongBitsToDouble(x); put_vec(a.out, f); put_new(a.out, fn::doubleBitsToLongLong(f)); }
					if constexpr (std::is_same_v<T, unsigned long long>) { auto f = fn::ulongLongBitsToDouble(x); put_vec(a.out, f); put_new(a.out, fn::doubleBitsToUlongLong(f)); } },
				[](RefArgs &a) {
					using D = std::conditional_t<sizeof(T) == 4, float, double>;
					for (int i = 0; i < n; ++i) { D d; memcpy(&d, in_<T>(a, 0) + i, sizeof d); if (std::isnan(d)) return false; a.out->put(d); }
					for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]);
					return true; }, &F::info);

		// conversions between scalar types, explicit where they narrow
		if constexpr (num && (n == 1 || F::K == K_V))     // swizzles of views are not constructor components
			add_op(R, st, "explicit conversions to other scalar types", F_READ | F_CONV | F_OBJREAD, [](Args &a) {
					const auto &o = F::cget(a.obj[0]);
					if constexpr (n > 1)
					{
						put_new(a.out, dsga::basic_vector<double, n>(o)); put_new(a.out, dsga::basic_vector<float, n>(o)); put_new(a.out, dsga::basic_vector<long long, n>(o));
						put_new(a.out, dsga::basic_vector<int, n>(o)); put_new(a.out, dsga::basic_vector<bool, n>(o));
					}
					else { a.out->put(static_cast<double>(o)); a.out->put(static_cast<float>(o)); a.out->put(static_cast<long long>(o)); a.out->put(static_cast<int>(o)); a.out->put(static_cast<bool>(o)); } },
				[](RefArgs &a) {
					auto p = in_<T>(a, 0);
					for (int i = 0; i < n; ++i) { if (!small_i(p[i])) return false; }
					for (int i = 0; i < n; ++i) a.out->put((double)p[i]);
					for (int i = 0; i < n; ++i) a.out->put((float)p[i]);
					for (int i = 0; i < n; ++i) a.out->put((long long)p[i]);
					for (int i = 0; i < n; ++i) a.out->put((int)p[i]);
					for (int i = 0; i < n; ++i) a.out->put((bool)p[i]);
					return true; }, &F::info);
		// selection by a vector of bool
		add_op(R, st, "mix(v, v, bool vector)", F_READ | F_FUNC, [](Args &a) {
				dsga::basic_vector<bool, n> b{}; for (int i = 0; i < n; ++i) b[i] = a.ii[0] >> i & 1;
				put_new(a.out, fn::mix(F::cget(a.obj[0]), F::cget(a.obj[1]), b)); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, a.ii[0] >> i & 1)[i]); return true; }, &F::info, false, &F::info, false);
		if constexpr (!num)
			add_op(R, st, "bool: shift/cshift/swizzle", F_READ | F_FUNC, [](Args &a) {
					int by = count(a.ii); const auto &x = F::cget(a.obj[0]); put_new(a.out, x.shift(by)); put_new(a.out, x.cshift(by)); put_new(a.out, fn::swizzle(x, (unsigned)a.ii[2] % n, (unsigned)a.ii[3] % n)); a.out->put((bool)fn::swizzle(x, (unsigned)a.ii[4] % n)); },
				[](RefArgs &a) { ref_shift(a); for (int k : {2, 3, 4}) a.out->put(in_<T>(a, 0)[(unsigned)a.ii[k] % n]); return true; }, &F::info);
		if constexpr (F::wr)
		{
			// a view_vector that was reset to the object: it assigns to, and is copied from, what it refers to
			if constexpr (F::info.acc[0] == 0 && (F::K == K_V || F::K == K_W || F::K == K_Y))
			{
				using Y = dsga::view_vector<T, n>;
				auto want = [](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(k ? in_<T>(a, 1)[i] : in_<T>(a, 0)[i]); return true; };
				if constexpr (num) add_op(R, st, "view_vector reset to it = ", F_WRITE | F_PART, [](Args &a) {
						dsga::basic_vector<T, n> v; for (int i = 0; i < n; ++i) v[i] = F::cget(a.obj[1])[i];
						Y y; y.reset(F::get(a.obj[0]).data()); Y was(y); y = v; put_vec(a.out, was); put_vec(a.out, v); }, want, &F::info, true, &F::info, false);
				add_op(R, st, "view_vector reset to it = view_vector", F_WRITE | F_PART, [](Args &a) {
						Y v; for (int i = 0; i < n; ++i) v[i] = F::cget(a.obj[1])[i];
						Y y; y.reset(F::get(a.obj[0]).data()); Y was; was = y; y = v; put_vec(a.out, was); put_vec(a.out, v); }, want, &F::info, true, &F::info, false);
				add_op(R, st, "view_vector reset to it = moved view_vector", F_WRITE | F_PART, [](Args &a) {
						Y v; for (int i = 0; i < n; ++i) v[i] = F::cget(a.obj[1])[i];
						Y y; y.reset(F::get(a.obj[0]).data()); Y t; t.reset(F::get(a.obj[0]).data()); Y was(std::move(t)); y = std::move(v); put_vec(a.out, was); put_vec(a.out, v); }, want, &F::info, true, &F::info, false);
			}
			// arguments of other types, converted by value
			if constexpr (num)
				add_op(R, st, "set(mixed argument types)", F_WRITE | F_PART, [](Args &a) {
						auto &o = F::get(a.obj[0]); const int *q = a.ii;
						if constexpr (n == 1) o.set((long long)(q[0] % 100));
						if constexpr (n == 2) o.set((short)(q[0] % 100), (unsigned char)(q[1] % 100));
						if constexpr (n == 3) o.set((float)(q[0] % 100), (double)(q[1] % 100), q[2] % 100);
						if constexpr (n == 4) o.set((long long)(q[0] % 100), (float)(q[1] % 100), (unsigned)(q[2] % 100), (signed char)(q[3] % 100)); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = T(a.ii[i] % 100); return true; }, &F::info, true);
			// a new vector made from the object's own components, assigned back
			if constexpr (n > 1 && num)
			{
				add_op(R, st, "= vector(own components)", F_WRITE | F_CONV, [](Args &a) {
						auto &o = F::get(a.obj[0]); unsigned k = (unsigned)a.ii[0];
						if constexpr (n == 2) o = dsga::basic_vector<T, 2>(o[k % 2], o[k / 2 % 2]);
						if constexpr (n == 3) o = dsga::basic_vector<T, 3>(o[k % 3], o[k / 3 % 3], o[k / 9 % 3]);
						if constexpr (n == 4) o = dsga::basic_vector<T, 4>(o[k % 4], o[k / 4 % 4], o[k / 16 % 4], o[k / 64 % 4]); },
					[](RefArgs &a) { unsigned k = (unsigned)a.ii[0]; for (int i = 0; i < n; ++i, k /= n) w_<T>(a, 0)[i] = in_<T>(a, 0)[k % n]; return true; }, &F::info, true);
				add_op(R, st, "set(own components by value)", F_WRITE | F_PART, [](Args &a) {
						auto &o = F::get(a.obj[0]); const auto &c = o; unsigned k = (unsigned)a.ii[0];
						if constexpr (n == 2) o.set(c[k % 2], c[k / 2 % 2]);
						if constexpr (n == 3) o.set(c[k % 3], c[k / 3 % 3], c[k / 9 % 3]);
						if constexpr (n == 4) o.set(c[k % 4], c[k / 4 % 4], c[k / 16 % 4], c[k / 64 % 4]); },
					[](RefArgs &a) { unsigned k = (unsigned)a.ii[0]; for (int i = 0; i < n; ++i, k /= n) w_<T>(a, 0)[i] = in_<T>(a, 0)[k % n]; return true; }, &F::info, true);
				add_op(R, st, "= swizzle(self, ...) / = self.cshift", F_WRITE | F_CONV, [](Args &a) {
						auto &o = F::get(a.obj[0]); unsigned k = (unsigned)a.ii[0];
						if (a.ii[1] & 1) { o = o.cshift(a.ii[2] % 9 - 4); return; }
						if constexpr (n == 2) o = fn::swizzle(o, k % 2, k / 2 % 2);
						if constexpr (n == 3) o = fn::swizzle(o, k % 3, k / 3 % 3, k / 9 % 3);
						if constexpr (n == 4) o = fn::swizzle(o, k % 4, k / 4 % 4, k / 16 % 4, k / 64 % 4); },
					[](RefArgs &a) { unsigned k = (unsigned)a.ii[0]; int by = a.ii[2] % 9 - 4; for (int i = 0; i < n; ++i, k /= n) w_<T>(a, 0)[i] = in_<T>(a, 0)[a.ii[1] & 1 ? ((i + by) % n + n) % n : k % n]; return true; }, &F::info, true);
			}
			if constexpr (flt && n > 1)
				add_op(R, st, "= normalize-free chain: abs, floor, sign", F_WRITE | F_FUNC, [](Args &a) { auto &o = F::get(a.obj[0]); o = fn::floor(fn::abs(o)) * fn::sign(o); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) { T x = in_<T>(a, 0)[i]; if (!fin(x)) return false; w_<T>(a, 0)[i] = std::floor(x < 0 ? -x : x) * T((x > 0) - (x < 0)); } return true; }, &F::info, true);
		}
	}
	static int count(const int *ii)
	{
		static const int far[] = {100, -100, 2147483647, -2147483647, -2147483647 - 1, -2147483647 - 1, 1 << 30, -(1 << 30)};
		return ii[0] & 1 ? far[ii[1] % 8] : ii[1] % 25 - 12;
	}
	static void ref_shift(RefArgs &a)
	{
		long long by = count(a.ii);
		for (int i = 0; i < n; ++i) { long long k = i + by; a.out->put(k >= 0 && k < n ? in_<T>(a, 0)[k] : T(0)); }
		for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[((i + by) % n + n) % n]);
	}

	// operations between scalar types; the result has their common type
	template <class U> static void reg_between(Registry &R)
	{
		using CT = std::common_type_t<T, U>;
		// with fractions or high bits that the other type cannot hold
		static constexpr auto val = [](const int *ii, int k) {
			int x = ii[k % 8];
			if constexpr (std::is_floating_point_v<U>) return U(U(x % 100) + U(x >> 8 & 3) / (x & 2048 ? 3 : 4));
			else if constexpr (sizeof(U) == 8) return U(x % 100 + (x >> 8 & 1) * (1LL << 33));
			else return U(x % 100); };
		static constexpr auto vec = [](const int *ii) { dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = val(ii, i); return v; };
		const std::string un = st_name(st_of<U>());
		auto guard = [](RefArgs &a) { for (int i = 0; i < n; ++i) { T x = in_<T>(a, 0)[i]; if (!small(x)) return false; if (x < 0 && std::is_unsigned_v<CT>) return false; } return true; };
		static_assert(std::is_empty_v<decltype(guard)>);
		using G = decltype(guard);
		add_op(R, st, ("+ - * (both orders) with " + un).c_str(), F_READ, [](Args &a) {
				const auto &c = F::cget(a.obj[0]); auto v = vec(a.ii);
				put_new(a.out, c + v); put_new(a.out, v + c); put_new(a.out, c - v); put_new(a.out, v - c); put_new(a.out, c * v); put_new(a.out, c * val(a.ii, 0)); put_new(a.out, val(a.ii, 1) - c); },
			[](RefArgs &a) {
				if (!G{}(a)) return false;
				auto p = in_<T>(a, 0);
				for (int k = 0; k < 7; ++k)
					for (int i = 0; i < n; ++i)
					{
						CT x = CT(p[i]), y = CT(val(a.ii, k == 5 ? 0 : k == 6 ? 1 : i));
						a.out->put(CT(k < 2 ? x + y : k == 2 ? x - y : k == 3 || k == 6 ? y - x : x * y));
					}
				return true; }, &F::info);
		add_op(R, st, ("/ (both orders) with " + un).c_str(), F_READ, [](Args &a) {
				const auto &c = F::cget(a.obj[0]); dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = U(val(a.ii, i) + 1);
				put_new(a.out, c / v); put_new(a.out, v / c); },
			[](RefArgs &a) { if (!G{}(a)) return false; auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) if (p[i] == T(0)) return false;
				for (int i = 0; i < n; ++i) a.out->put(CT(CT(p[i]) / CT(val(a.ii, i) + 1))); for (int i = 0; i < n; ++i) a.out->put(CT(CT(val(a.ii, i) + 1) / CT(p[i]))); return true; }, &F::info);
		// values that differ only where the other type is blind
		static constexpr auto near = [](U u, int k) {
			switch (k % 4)
			{
				case 0: return U(u + U(1));
				case 1: if constexpr (std::is_floating_point_v<U>) return U(u + U(0.25)); else if constexpr (sizeof(U) == 8) return U(u + U(1LL << 32)); else return u;
				default: return u;
			} };
		add_op(R, st, ("== != with " + un).c_str(), F_READ, [](Args &a) {
				const auto &c = F::cget(a.obj[0]); dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = U(c[i]);
				unsigned j = (unsigned)a.ii[1] % n; v[j] = near(v[j], a.ii[0]);
				a.out->put(c == v); a.out->put(v == c); a.out->put(c != v);
				if constexpr (n == 1) { U x = v[0]; a.out->put(c.as_base() == x); a.out->put(x == c.as_base()); a.out->put(c.as_base() != x); a.out->put(x != c.as_base()); } },
			[](RefArgs &a) {
				if (!G{}(a)) return false;
				bool e = true;
				for (int i = 0; i < n; ++i) { T x = in_<T>(a, 0)[i]; if (x < 0 && std::is_unsigned_v<U>) return false; U u = U(x); if (i == (int)((unsigned)a.ii[1] % n)) u = near(u, a.ii[0]); e = e && CT(x) == CT(u); }
				a.out->put(e); a.out->put(e); a.out->put(!e);
				if (n == 1) { a.out->put(e); a.out->put(e); a.out->put(!e); a.out->put(!e); }
				return true; }, &F::info);
		add_op(R, st, ("innerProduct with " + un).c_str(), F_READ | F_FUNC, [](Args &a) { auto v = vec(a.ii); a.out->put(fn::innerProduct(F::cget(a.obj[0]), v)); a.out->put(fn::innerProduct(v, F::cget(a.obj[0]))); },
			[](RefArgs &a) { if (!G{}(a)) return false; double s = 0, m = 0; a.out->reltol = tol_of<CT>; for (int i = 0; i < n; ++i) { double t = (double)in_<T>(a, 0)[i] * (double)val(a.ii, i); s += t; m += std::fabs(t); }
				for (int k = 0; k < 2; ++k) { if constexpr (std::is_integral_v<CT>) a.out->put((long long)s); else a.out->approx(s, m); } return true; }, &F::info);
		if constexpr (n > 1 && (std::is_floating_point_v<T> || std::is_floating_point_v<U>))
			add_op(R, st, ("outerProduct (both orders) with " + un).c_str(), F_READ | F_FUNC, [](Args &a) { auto v = vec(a.ii); dsga::basic_vector<U, 2> w(val(a.ii, 1), val(a.ii, 6)); const auto &c = F::cget(a.obj[0]);
					put_new(a.out, fn::outerProduct(c, v)); put_new(a.out, fn::outerProduct(v, c)); put_new(a.out, fn::outerProduct(c, w)); put_new(a.out, fn::outerProduct(w, c)); },
				[](RefArgs &a) { if (!G{}(a)) return false; auto p = in_<T>(a, 0);
					for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) a.out->put(CT(CT(p[i]) * CT(val(a.ii, j))));
					for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) a.out->put(CT(CT(val(a.ii, i)) * CT(p[j])));
					for (int j = 0; j < 2; ++j) for (int i = 0; i < n; ++i) a.out->put(CT(CT(p[i]) * CT(val(a.ii, j ? 6 : 1))));
					for (int j = 0; j < n; ++j) for (int i = 0; i < 2; ++i) a.out->put(CT(CT(val(a.ii, i ? 6 : 1)) * CT(p[j])));
					return true; }, &F::info);
		if constexpr (flt || std::is_floating_point_v<U>)
			if constexpr (std::is_floating_point_v<T> && std::is_floating_point_v<U>)
			{
				add_op(R, st, ("dot, distance with " + un).c_str(), F_READ | F_FUNC, [](Args &a) { auto v = vec(a.ii); a.out->put(fn::dot(F::cget(a.obj[0]), v)); a.out->put(fn::distance(v, F::cget(a.obj[0]))); },
					[](RefArgs &a) { if (!G{}(a)) return false; double s = 0, m = 0, d = 0; a.out->reltol = tol_of<CT>; for (int i = 0; i < n; ++i) { double x = in_<T>(a, 0)[i], y = val(a.ii, i); s += x * y; m += std::fabs(x * y); d += (x - y) * (x - y); } a.out->approx(s, m); a.out->approx(std::sqrt(d), std::sqrt(m) + std::sqrt(d)); return true; }, &F::info);
				if constexpr (n == 3)
					add_op(R, st, ("cross with " + un).c_str(), F_READ | F_FUNC, [](Args &a) { auto v = vec(a.ii); put_new(a.out, fn::cross(F::cget(a.obj[0]), v)); put_new(a.out, fn::cross(v, F::cget(a.obj[0]))); },
						[](RefArgs &a) { if (!G{}(a)) return false; a.out->reltol = tol_of<CT>; auto p = in_<T>(a, 0);
							for (int t = 0; t < 2; ++t) for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; double u = (double)p[j] * val(a.ii, k), v = (double)val(a.ii, j) * p[k]; a.out->approx(t ? v - u : u - v, std::fabs(u) + std::fabs(v)); } return true; }, &F::info);
			}
	}
};

// more of matrices
template <class T, int C, int R> struct TabDM
{
	using M = MatForm<T, C, R>;
	using mat = dsga::basic_matrix<T, C, R>;
	using col = dsga::basic_vector<T, R>;
	using U = other_float<T>;
	using CT = std::common_type_t<T, U>;
	static constexpr int N = C * R;
	static constexpr uint32_t RD = F_READ | F_MATRIX, WR = F_WRITE | F_MATRIX;
	static bool ok(const T *m, int k) { for (int i = 0; i < k; ++i) if (!small(m[i])) return false; return true; }
	static U uval(const int *ii, int k) { return (U((ii[k % 8] + k) % 60) - U(20)) / U(ii[k % 8] & 1024 ? 3 : 1); }
	static auto umat(const int *ii) { dsga::basic_matrix<U, C, R> o{}; for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) o[c][r] = uval(ii, c * R + r); return o; }

	static bool ref_h_cols(RefArgs &a) { for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }
	static void reg(Registry &Rg)
	{
		const ST st = st_of<T>();
		const FormInfo *mi = &M::info;
		add_op(Rg, st, "column ranges, forwards and backwards", RD | F_ITER, [](Args &a) {
				const mat &m = M::cget(a.obj[0]);
				for (auto i = m.rbegin(); i != m.rend(); ++i) put_vec(a.out, *i);
				for (auto i = m.cbegin(); i != m.cend(); ++i) put_vec(a.out, *i);
				put_vec(a.out, *(m.crend() - 1)); put_vec(a.out, m.end()[-1]); a.out->put((int)(m.end() - m.begin())); a.out->put((int)m.size()); a.out->put((int)m.column_size()); },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0);
				for (int c = C; c--;) for (int r = 0; r < R; ++r) a.out->put(m[c * R + r]);
				for (int i = 0; i < N; ++i) a.out->put(m[i]);
				for (int r = 0; r < R; ++r) a.out->put(m[r]);
				for (int r = 0; r < R; ++r) a.out->put(m[(C - 1) * R + r]);
				a.out->put((int)C); a.out->put((int)C); a.out->put((int)R); return true; }, mi);
		add_op(Rg, st, "structured binding of columns", RD | F_ITER, [](Args &a) {
				const mat &m = M::cget(a.obj[0]);
				if constexpr (C == 2) { const auto &[p, q] = m; put_vec(a.out, q); put_vec(a.out, p); }
				if constexpr (C == 3) { const auto &[p, q, r] = m; put_vec(a.out, r); put_vec(a.out, q); put_vec(a.out, p); }
				if constexpr (C == 4) { const auto &[p, q, r, s] = m; put_vec(a.out, s); put_vec(a.out, r); put_vec(a.out, q); put_vec(a.out, p); } },
			[](RefArgs &a) { for (int c = C; c--;) for (int r = 0; r < R; ++r) a.out->put(in_<T>(a, 0)[c * R + r]); return true; }, mi);
		add_op(Rg, st, "std::reverse/rotate/iter_swap of columns", WR | F_ITER | F_MULTI, [](Args &a) {
				mat &m = M::get(a.obj[0]); int k = a.ii[1] % C;
				switch (a.ii[0] % 4) { case 0: std::reverse(m.begin(), m.end()); break; case 1: std::rotate(m.begin(), m.begin() + k, m.end()); break; case 2: std::iter_swap(m.begin() + k, m.rbegin()); break; default: m[k].swap(m[a.ii[2] % C]); } },
			[](RefArgs &a) {
				int k = a.ii[1] % C, d[4]; for (int c = 0; c < C; ++c) d[c] = c;
				switch (a.ii[0] % 4) { case 0: std::reverse(d, d + C); break; case 1: std::rotate(d, d + k, d + C); break; case 2: std::swap(d[k], d[C - 1]); break; default: std::swap(d[k], d[a.ii[2] % C]); }
				for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) w_<T>(a, 0)[c * R + r] = in_<T>(a, 0)[d[c] * R + r]; return true; }, mi, true);
		add_op(Rg, st, "write every element through reverse column iterators", WR | F_ITER, [](Args &a) {
				mat &m = M::get(a.obj[0]); int k = 0;
				for (auto i = m.rbegin(); i != m.rend(); ++i) for (auto j = i->rbegin(); j != i->rend(); ++j) *j = imm_<T>(a)[k++ % 8]; },
			[](RefArgs &a) { int k = 0; for (int i = N; i--;) w_<T>(a, 0)[i] = imm_<T>(a)[k++ % 8]; return true; }, mi, true);
		// constructor forms
		add_op(Rg, st, "construct from columns / scalars / mixed parts", RD | F_CONV, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); const T *q = imm_<T>(a);
				[&]<std::size_t... I>(std::index_sequence<I...>) { mat x(m[C - 1 - I]...); put_mat(a.out, x); }(std::make_index_sequence<C>{});
				[&]<std::size_t... I>(std::index_sequence<I...>) { mat x(m[I / R][I % R]...); put_mat(a.out, x); }(std::make_index_sequence<N>{});
				[&]<std::size_t... I>(std::index_sequence<I...>) { mat x(m[0], q[I % 8]...); put_mat(a.out, x); }(std::make_index_sequence<N - R>{}); },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0); auto q = imm_<T>(a);
				for (int c = C; c--;) for (int r = 0; r < R; ++r) a.out->put(m[c * R + r]);
				for (int i = 0; i < N; ++i) a.out->put(m[i]);
				for (int i = 0; i < N; ++i) a.out->put(i < R ? m[i] : q[(i - R) % 8]); return true; }, mi);
		add_op(Rg, st, "= mat(own columns permuted)", WR | F_CONV, [](Args &a) {
				mat &m = M::get(a.obj[0]); int k = a.ii[0] % C;
				[&]<std::size_t... I>(std::index_sequence<I...>) { m = mat(m[(int)(I + k) % C]...); }(std::make_index_sequence<C>{}); },
			[](RefArgs &a) { int k = a.ii[0] % C; for (int i = 0; i < N; ++i) w_<T>(a, 0)[i] = in_<T>(a, 0)[(i / R + k) % C * R + i % R]; return true; }, mi, true);
		add_op(Rg, st, "copy, move and swap of private matrices", RD | F_CONV, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); mat x(m), y(std::move(x)), z{}; z = y; mat w{}; w = std::move(y); z[a.ii[0] % C][a.ii[1] % R] = imm_<T>(a)[0]; swap(w, z); z.swap(w); std::swap(w, z);
				put_mat(a.out, w); put_mat(a.out, z); put_mat(a.out, m); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); int k = a.ii[0] % C * R + a.ii[1] % R; for (int i = 0; i < N; ++i) a.out->put(i == k ? imm_<T>(a)[0] : m[i]); for (int j = 0; j < 2; ++j) for (int i = 0; i < N; ++i) a.out->put(m[i]); return true; }, mi);
		add_op(Rg, st, "rows and columns are copies and references", WR | F_MULTI, [](Args &a) {
				mat &m = M::get(a.obj[0]); int c = a.ii[0] % C, r = a.ii[1] % R;
				auto row = m.row(r); auto &cr = m[c]; auto cc = m[c];
				cr[r] = imm_<T>(a)[0];
				put_vec(a.out, row); put_vec(a.out, cc); put_vec(a.out, cr); put_new(a.out, m.row(r)); },
			[](RefArgs &a) {
				int c = a.ii[0] % C, r = a.ii[1] % R; auto m = in_<T>(a, 0); auto w = w_<T>(a, 0); w[c * R + r] = imm_<T>(a)[0];
				for (int i = 0; i < C; ++i) a.out->put(m[i * R + r]);
				for (int i = 0; i < R; ++i) a.out->put(m[c * R + i]);
				for (int i = 0; i < R; ++i) a.out->put(w[c * R + i]);
				for (int i = 0; i < C; ++i) a.out->put(w[i * R + r]);
				return true; }, mi, true);
		// the other floating-point type on either side
		add_op(Rg, st, "+ - compMult with other float type", RD, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); auto o = umat(a.ii);
				put_new(a.out, m + o); put_new(a.out, o - m); put_new(a.out, fn::matrixCompMult(m, o)); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); for (int k = 0; k < 3; ++k) for (int i = 0; i < N; ++i) { CT x = m[i], y = uval(a.ii, i); a.out->put(CT(k == 0 ? x + y : k == 1 ? y - x : x * y)); } return true; }, mi);
		add_op(Rg, st, "* vec, vec *, == with other float type", RD, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); auto o = umat(a.ii);
				dsga::basic_vector<U, C> v{}; for (int i = 0; i < C; ++i) v[i] = uval(a.ii, i);
				dsga::basic_vector<U, R> w{}; for (int i = 0; i < R; ++i) w[i] = uval(a.ii, i + 3);
				put_new(a.out, m * v); put_new(a.out, w * m); a.out->put(o == m); for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) o[c][r] = U(m[c][r]); a.out->put(m == o); },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0); if (!ok(m, N)) return false; a.out->reltol = tol_of<CT>;
				for (int r = 0; r < R; ++r) { double s = 0, g = 0; for (int c = 0; c < C; ++c) { double t = (double)m[c * R + r] * uval(a.ii, c); s += t; g += std::fabs(t); } a.out->approx(s, g); }
				for (int c = 0; c < C; ++c) { double s = 0, g = 0; for (int r = 0; r < R; ++r) { double t = (double)m[c * R + r] * uval(a.ii, r + 3); s += t; g += std::fabs(t); } a.out->approx(s, g); }
				bool e = true, f = true; for (int i = 0; i < N; ++i) { e = e && CT(m[i]) == CT(uval(a.ii, i)); f = f && CT(m[i]) == CT(U(m[i])); } a.out->put(e); a.out->put(f); return true; }, mi);
		add_op(Rg, st, "/ mat, scalar on either side with other float type", RD, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); auto o = umat(a.ii); for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) if (o[c][r] == U(0)) o[c][r] = U(7);
				U s = o[0][0];
				put_new(a.out, m / o); put_new(a.out, m + s); put_new(a.out, s - m); put_new(a.out, m * s); put_new(a.out, s * m); put_new(a.out, m / s); put_new(a.out, m - s); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); if (!ok(m, N)) return false;
				auto o = [&](int k) { U u = uval(a.ii, k); return CT(u == U(0) ? U(7) : u); };
				for (int k = 0; k < 7; ++k) for (int i = 0; i < N; ++i) { CT x = m[i], y = o(k ? 0 : i); a.out->put(CT(k == 0 || k == 5 ? x / y : k == 1 ? x + y : k == 2 ? y - x : k == 6 ? x - y : x * y)); }
				return true; }, mi);
		add_op(Rg, st, "* mat with other float type, either side", RD, [](Args &a) {
				const mat &m = M::cget(a.obj[0]);
				dsga::basic_matrix<U, 2, C> p{}; for (int c = 0; c < 2; ++c) for (int r = 0; r < C; ++r) p[c][r] = uval(a.ii, c * C + r);
				dsga::basic_matrix<U, R, 3> q{}; for (int c = 0; c < R; ++c) for (int r = 0; r < 3; ++r) q[c][r] = uval(a.ii, c * 3 + r + 1);
				put_new(a.out, m * p); put_new(a.out, q * m); },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0); if (!ok(m, N)) return false; a.out->reltol = tol_of<CT>;
				for (int c = 0; c < 2; ++c) for (int r = 0; r < R; ++r) { double s = 0, g = 0; for (int k = 0; k < C; ++k) { double t = (double)m[k * R + r] * uval(a.ii, c * C + k); s += t; g += std::fabs(t); } a.out->approx(s, g); }
				for (int c = 0; c < C; ++c) for (int r = 0; r < 3; ++r) { double s = 0, g = 0; for (int k = 0; k < R; ++k) { double t = (double)uval(a.ii, k * 3 + r + 1) * m[c * R + k]; s += t; g += std::fabs(t); } a.out->approx(s, g); }
				return true; }, mi);
		add_op(Rg, st, "scalar of integer type on either side", RD, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); int s = a.ii[0] % 50 + 1;
				put_new(a.out, m + s); put_new(a.out, s - m); put_new(a.out, m * s); put_new(a.out, m / s); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); T s = T(a.ii[0] % 50 + 1); for (int k = 0; k < 4; ++k) for (int i = 0; i < N; ++i) { if constexpr (std::is_same_v<T, float>) { if (!small(m[i])) return false; } a.out->put(T(k == 0 ? m[i] + s : k == 1 ? s - m[i] : k == 2 ? m[i] * s : m[i] / s)); } return true; }, mi);
		// compound results assigned into a column of the operand itself
		add_op(Rg, st, "column = f(same matrix)", WR | F_APPROXW, [](Args &a) {
				mat &m = M::get(a.obj[0]); int c = a.ii[0] % C;
				if constexpr (C == R) { if (a.ii[1] & 1) { m[c] = m * m[c]; return; } }
				m[c] = m[(c + 1) % C] + m[c]; },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0); if (!ok(m, N)) return false; int c = a.ii[0] % C; a.out->reltol = tol_of<T>; auto w = w_<T>(a, 0);
				if (C == R && a.ii[1] & 1) { for (int r = 0; r < R; ++r) { double s = 0; for (int k = 0; k < C; ++k) s += (double)m[k * R + r] * m[c * R + k]; if (std::fabs(s) > 1e4) return false; w[c * R + r] = (T)s; } }
				else for (int r = 0; r < R; ++r) w[c * R + r] = m[(c + 1) % C * R + r] + m[c * R + r];
				return true; }, mi, true);
		// long-lived handles to columns
		using H = TabI<Whole<K_V, T, 2>>;
		(void)sizeof(H);
		struct ColP { const col *p[C]; };
		struct ColIt { decltype(std::declval<mat &>().begin()) b; decltype(std::declval<mat &>().rbegin()) r; };
		handle<ColP>(Rg, "const columns", RD | F_ITER, false, [](mat &m) { ColP h; int k = 0; for (const auto &c : static_cast<const mat &>(m)) h.p[k++] = &c; return h; }, [](ColP &h, Args &a) { for (auto *c : h.p) put_vec(a.out, *c); }, ref_h_cols);
		handle<ColIt>(Rg, "column iterators", WR | F_ITER, true, [](mat &m) { return ColIt{m.begin(), m.rbegin()}; },
			[](ColIt &h, Args &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) { a.out->put(h.b[c][r]); h.r[C - 1 - c][r] = imm_<T>(a)[(c * R + r) % 8]; } },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) { a.out->put(in_<T>(a, 0)[i]); w_<T>(a, 0)[i] = imm_<T>(a)[i % 8]; } return true; });
		struct SwzP { decltype(&std::declval<mat &>()[0].yx) p[C]; };
		handle<SwzP>(Rg, "column swizzles", WR | F_ITER | F_MULTI, true, [](mat &m) { SwzP h; for (int c = 0; c < C; ++c) h.p[c] = &m[c].yx; return h; },
			[](SwzP &h, Args &a) { for (int c = 0; c < C; ++c) { a.out->put((*h.p[c])[0]); (*h.p[c])[1] = imm_<T>(a)[c]; } },
			[](RefArgs &a) { for (int c = 0; c < C; ++c) { a.out->put(in_<T>(a, 0)[c * R + 1]); w_<T>(a, 0)[c * R] = imm_<T>(a)[c]; } return true; });
		if constexpr (C == R)
		{
			add_op(Rg, st, "= inverse-free chain: m = transpose(m) + m", WR, [](Args &a) { mat &m = M::get(a.obj[0]); m = fn::transpose(m) + m; },
				[](RefArgs &a) { auto m = in_<T>(a, 0); for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) w_<T>(a, 0)[c * R + r] = T(m[r * R + c] + m[c * R + r]); return true; }, mi, true);
			add_op(Rg, st, "determinant/inverse twice", RD | F_FUNC, [](Args &a) {
					const mat &x = M::cget(a.obj[0]); const mat &y = M::cget(a.obj[1]);
					T d = fn::determinant(x); T e = fn::determinant(y); T f = fn::determinant(x); (void)e;
					a.out->put(d == f || (d != d && f != f)); auto p = fn::inverse(x); auto q = fn::inverse(y); auto s = fn::inverse(x); (void)q;
					bool same = true; for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) same = same && (p[c][r] == s[c][r] || (p[c][r] != p[c][r] && s[c][r] != s[c][r])); a.out->put(same); },
				[](RefArgs &a) { a.out->put(true); a.out->put(true); return true; }, mi, false, mi, false);
		}
	}
	template <class H, class Take, class Use> static void handle(Registry &Rg, const char *nm, uint32_t fl, bool w, Take, Use, ref_fn ref)
	{
		static_assert(sizeof(H) <= 128);
		add_op(Rg, st_of<T>(), (std::string("take ") + nm).c_str(), F_READ | F_HANDLE | F_MATRIX, [](Args &a) { new (a.scratch) H(Take{}(M::get(a.obj[0]))); }, [](RefArgs &) { return true; }, &M::info);
		add_op(Rg, st_of<T>(), (std::string("use ") + nm).c_str(), fl | F_HUSE, [](Args &a) { Use{}(*static_cast<H *>(a.scratch), a); }, ref, &M::info, w);
	}
};
