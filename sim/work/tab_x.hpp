// Table X: misuse that must be stopped, documented exceptions, mixed scalar types, raw wrappers.
#pragma once
#include "forms.hpp"
#include <stdexcept>
namespace fn = dsga::functions;

template <class T> inline bool small_x(T x) { if constexpr (std::is_floating_point_v<T>) return std::isfinite(x) && std::fabs(x) < 1e4; else return fits<int>((__int128)x) && x <= T(30000) && (std::is_unsigned_v<T> || (long long)x >= -30000); }

inline bool ref_stop(RefArgs &) { return true; }

template <class F> struct TabX
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr ST st = st_of<T>();
	static constexpr bool num = !std::is_same_v<T, bool>;
	static constexpr uint32_t MIS = F_MISUSE;

	// out of range, and still so when cut to 32 bits, unless `wide`
	template <bool wide = false> static long long bad(const int *ii)
	{
		static const long long far[] = {100, 1000000, 2147483647LL, -2147483647LL - 1, -100, 4294967295LL, 4294967296LL, 4294967297LL, -4294967296LL, -4294967295LL, 0x7fffffffffffffffLL, 0x8000000000000LL};
		switch (ii[0] % 6) { case 0: return n; case 1: return n + 1; case 2: return -1; case 3: return n + ii[1] % 8; case 4: return -1 - ii[1] % 8; default: return far[ii[1] % (wide ? 12 : 6)]; }
	}
	// puts an iterator outside [begin, end], in one of many ways; the last ones read or write there
	template <class It> static void outside(It b, It e, Args &a)
	{
		static const int far[] = {2147483647, -2147483647 - 1, -2147483647, 1 << 30, -(1 << 30), 100, -100, n + 1};
		int at = a.ii[0] % (n + 1), d = a.ii[1] & 1 ? far[a.ii[2] % 8] : a.ii[1] & 2 ? n - at + 1 + a.ii[2] % 4 : -at - 1 - a.ii[2] % 4;      // b + at + d is outside
		It i = b + at;
		switch (a.ii[3] % 12)
		{
			case 0: i = e; ++i; break;
			case 1: i = e; i++; break;
			case 2: i = b; --i; break;
			case 3: i = b; i--; break;
			case 4: i += d; break;
			case 5: if (d == -2147483647 - 1) i += d; else i -= -d; break;
			case 6: i = i + d; break;
			case 7: i = d + i; break;
			case 8: if (d == -2147483647 - 1) i = i + d; else i = i - -d; break;
			case 9: a.out->put((T)i[at + d == n ? d + 1 : d]); break;
			case 10: a.out->put((T)*e.operator->()); break;
			default: if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*i)>>) { if (a.ii[4] & 1) *e.operator->() = imm_<T>(a)[0]; else e[0] = imm_<T>(a)[0]; } else a.out->put((T)e[0]); break;
		}
		a.out->put((int)(i - b));
	}
	// out-of-range index on a valid object ---------------------------------------------------
	static void reg_index(Registry &R)
	{
		if constexpr (F::wr)
		{
			add_op(R, st, "[out of range] = x", MIS, [](Args &a) { F::get(a.obj[0])[(int)bad(a.ii)] = imm_<T>(a)[0]; }, ref_stop, &F::info);
			add_op(R, st, "[out of range size_t] = x", MIS, [](Args &a) { F::get(a.obj[0])[(std::size_t)bad<true>(a.ii)] = imm_<T>(a)[0]; }, ref_stop, &F::info);
			add_op(R, st, "[out of range long long] = x", MIS, [](Args &a) { F::get(a.obj[0])[bad<true>(a.ii)] = imm_<T>(a)[0]; }, ref_stop, &F::info);
			add_op(R, st, "vector_base[out of range] = x", MIS, [](Args &a) { F::get(a.obj[0]).as_base()[(int)bad(a.ii)] = imm_<T>(a)[0]; }, ref_stop, &F::info);
		}
		add_op(R, st, "[out of range, small index types]", MIS, [](Args &a) {
				auto &o = F::cget(a.obj[0]); int k = a.ii[1] % 100;
				switch (a.ii[0] % 7)
				{
					case 0: a.out->put((T)o[(short)(-1 - k)]); break;
					case 1: a.out->put((T)o[(signed char)(-1 - k)]); break;
					case 2: a.out->put((T)o[(unsigned char)(n + k)]); break;
					case 3: a.out->put((T)o[(unsigned short)(n + k * 300)]); break;
					case 4: a.out->put((T)o[(float)(n + k)]); break;
					case 5: a.out->put((T)o[-0.5 - k]); break;
					default: a.out->put((T)o[std::numeric_limits<float>::quiet_NaN()]); break;
				} }, ref_stop, &F::info);
		add_op(R, st, "read [out of range]", MIS, [](Args &a) { a.out->put((T)F::cget(a.obj[0])[(int)bad(a.ii)]); }, ref_stop, &F::info);
		add_op(R, st, "read [out of range unsigned]", MIS, [](Args &a) { a.out->put((T)F::cget(a.obj[0])[(unsigned)bad(a.ii)]); }, ref_stop, &F::info);
		add_op(R, st, "read vector_base[out of range]", MIS, [](Args &a) { a.out->put((T)F::cget(a.obj[0]).as_base()[bad<true>(a.ii)]); }, ref_stop, &F::info);
#ifndef DSGA_DISABLE_ASSERTS
		if constexpr (num)
		{
			add_op(R, st, "swizzle(v, out of range)", MIS, [](Args &a) { a.out->put(fn::swizzle(F::cget(a.obj[0]), (int)bad(a.ii))); }, ref_stop, &F::info);
			add_op(R, st, "swizzle(v, .., out of range)", MIS, [](Args &a) { put_new(a.out, fn::swizzle(F::cget(a.obj[0]), a.ii[2] & 1 ? 0 : (int)bad(a.ii), a.ii[2] & 1 ? (int)bad(a.ii) : 0)); }, ref_stop, &F::info);
		}
#endif
		if constexpr (F::info.acc[0] != 0)      // indexed iterators are checked
		{
			add_op(R, st, "dereference end()", MIS, [](Args &a) { a.out->put((T)*F::cget(a.obj[0]).end()); }, ref_stop, &F::info);
			add_op(R, st, "++end() / --begin()", MIS, [](Args &a) { const auto &o = F::cget(a.obj[0]); if (a.ii[0] & 1) { auto i = o.end(); ++i; a.out->put((int)(i - o.begin())); } else { auto i = o.begin(); i--; a.out->put((int)(i - o.begin())); } }, ref_stop, &F::info);
			add_op(R, st, "begin()[out of range]", MIS, [](Args &a) { a.out->put((T)F::cget(a.obj[0]).begin()[n + a.ii[0] % 5]); }, ref_stop, &F::info);
			add_op(R, st, "end() - too far", MIS, [](Args &a) { auto i = F::cget(a.obj[0]).end(); i -= n + 1 + a.ii[0] % 5; a.out->put((T)*i); }, ref_stop, &F::info);
			add_op(R, st, "move const_iterator outside", MIS, [](Args &a) { const auto &o = F::cget(a.obj[0]); outside(o.begin(), o.end(), a); }, ref_stop, &F::info);
			if constexpr (F::wr) add_op(R, st, "move iterator outside", MIS, [](Args &a) { auto &o = F::get(a.obj[0]); outside(o.begin(), o.end(), a); }, ref_stop, &F::info);
			add_op(R, st, "reverse iterators outside", MIS, [](Args &a) {
					const auto &o = F::cget(a.obj[0]); auto b = o.rbegin(), e = o.rend();
					switch (a.ii[0] % 4) { case 0: ++e; break; case 1: --b; break; case 2: a.out->put((T)*e); break; default: b += n + 1 + a.ii[1] % 3; break; } }, ref_stop, &F::info);
			add_op(R, st, "default constructed iterator", MIS, [](Args &a) {
					using It = decltype(F::cget(a.obj[0]).begin()); It i{};
					if (a.ii[0] % 3 == 0) a.out->put((T)*i); else if (a.ii[0] % 3 == 1) a.out->put((T)*i.operator->()); else a.out->put((T)i[a.ii[1] % n]); }, ref_stop, &F::info);
			if constexpr (F::wr)
				add_op(R, st, "*(end()) = x / begin()[out of range] = x", MIS, [](Args &a) { auto &o = F::get(a.obj[0]); if (a.ii[0] & 1) *o.end() = imm_<T>(a)[0]; else o.begin()[n + a.ii[1] % 5] = imm_<T>(a)[0]; }, ref_stop, &F::info);
		}
	}

	// null views of the same shape as the (valid) operand --------------------------------------
	template <class X> struct Null { X v; Null() : v() {} };
	template <class X> static void reg_null_view(Registry &R)    // F: whole view or view swizzle; X: its view object type
	{
		add_op(R, st, "null: [i] = x", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); q[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; }, ref_stop, &F::info);
		add_op(R, st, "null: read [i]", MIS, [](Args &a) { X z{}; const auto &q = F::cget(&z); a.out->put((T)q[(unsigned)a.ii[0] % n]); }, ref_stop, &F::info);
		add_op(R, st, "null: set", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); const T *m = imm_<T>(a); [&]<std::size_t... I>(std::index_sequence<I...>) { q.set(m[I]...); }(std::make_index_sequence<n>{}); }, ref_stop, &F::info);
		if constexpr (!std::is_same_v<T, bool>)
		{
			add_op(R, st, "null: = valid", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); dsga::basic_vector<T, n> v{}; v = F::cget(a.obj[0]); q = v; }, ref_stop, &F::info);
			add_op(R, st, "valid = null", MIS, [](Args &a) { X z{}; dsga::basic_vector<T, n> v{}; v = F::cget(&z); F::get(a.obj[0]) = v; }, ref_stop, &F::info);
		}
		add_op(R, st, "null: data()", MIS, [](Args &a) { X z{}; if (a.ii[0] & 1) { T *p = F::get_any(&z).data(); p[0] = imm_<T>(a)[0]; } else { const T *p = F::cget(&z).data(); a.out->put((T)p[0]); } }, ref_stop, &F::info);
		add_op(R, st, "null: for(auto&)", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); for (auto &x : q) { x = imm_<T>(a)[0]; } }, ref_stop, &F::info);
		add_op(R, st, "null: for(auto) const", MIS, [](Args &a) { X z{}; const auto &q = F::cget(&z); for (auto x : q) a.out->put((T)x); }, ref_stop, &F::info);
		add_op(R, st, "null: one iterator, dereferenced", MIS, [](Args &a) {                                  // the other end of the range is never asked for
				X z{}; const auto &q = F::cget(&z); T x{};
				switch (a.ii[0] % 12)
				{
					case 0: x = *q.begin(); break;
					case 1: x = *q.cbegin(); break;
					case 2: x = *(q.end() - 1); break;
					case 3: x = *(q.cend() - n); break;
					case 4: x = *q.rbegin(); break;
					case 5: x = *q.crbegin(); break;
					case 6: x = q.begin()[(unsigned)a.ii[1] % n]; break;
					case 7: x = *(q.rend() - 1); break;
					case 8: { auto &&w = F::get_any(&z); x = *w.begin(); break; }
					case 9: { auto &&w = F::get_any(&z); x = *(w.end() - 1); break; }
					case 10: { auto &&w = F::get_any(&z); x = *w.rbegin(); break; }
					default: x = *(q.crend() - n); break;
				}
				a.out->put(x); }, ref_stop, &F::info);
		if constexpr (F::wr) add_op(R, st, "null: one iterator, written through", MIS, [](Args &a) {
				X z{}; auto &&w = F::get_any(&z); T x = imm_<T>(a)[0];
				switch (a.ii[0] % 4) { case 0: *w.begin() = x; break; case 1: *(w.end() - 1) = x; break; case 2: *w.rbegin() = x; break; default: w.begin()[(unsigned)a.ii[1] % n] = x; } }, ref_stop, &F::info);
		add_op(R, st, "null: reverse iteration", MIS, [](Args &a) { X z{}; const auto &q = F::cget(&z); for (auto i = q.rbegin(); i != q.rend(); ++i) a.out->put((T)*i); }, ref_stop, &F::info);
		add_op(R, st, "after reset(nullptr): [i] = x", MIS, [](Args &a) { X z(*static_cast<X *>(a.obj[0])); z.reset((T *)nullptr); F::get_any(&z)[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; }, ref_stop, &F::info);
		add_op(R, st, "copy of null: read", MIS, [](Args &a) { X z{}; X y(z); put_vec(a.out, F::cget(&y)); }, ref_stop, &F::info);
		if constexpr (n == 1)
		{
			add_op(R, st, "null: scalar conversion", MIS, [](Args &a) { X z{}; T x = F::cget(&z); a.out->put(x); }, ref_stop, &F::info);
			if constexpr (num) add_op(R, st, "null: explicit scalar conversion", MIS, [](Args &a) { X z{}; a.out->put(static_cast<long long>(F::cget(&z))); }, ref_stop, &F::info);
			if constexpr (num) add_op(R, st, "null: = scalar", MIS, [](Args &a) { X z{}; F::get_any(&z) = imm_<T>(a)[0]; }, ref_stop, &F::info);
		}
		if constexpr (num)
		{
			add_op(R, st, "null: += valid", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); q += F::cget(a.obj[0]); }, ref_stop, &F::info);
			add_op(R, st, "valid += null", MIS, [](Args &a) { X z{}; F::get(a.obj[0]) += F::cget(&z); }, ref_stop, &F::info);
			add_op(R, st, "null: *= scalar", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); q *= imm_<T>(a)[0]; }, ref_stop, &F::info);
			add_op(R, st, "null: ++/--", MIS, [](Args &a) { X z{}; auto &&q = F::get_any(&z); if (a.ii[0] & 1) ++q; else q--; }, ref_stop, &F::info);
			add_op(R, st, "null + valid / -null", MIS, [](Args &a) { X z{}; if (a.ii[0] & 1) put_new(a.out, F::cget(&z) + F::cget(a.obj[0])); else put_new(a.out, -F::cget(&z)); }, ref_stop, &F::info);
			add_op(R, st, "min/max/abs(null)", MIS, [](Args &a) { X z{}; const auto &q = F::cget(&z); if (a.ii[0] % 3 == 0) a.out->put(q.min()); else if (a.ii[0] % 3 == 1) put_new(a.out, fn::max(q, F::cget(a.obj[0]))); else a.out->put(q.sum()); }, ref_stop, &F::info);
			add_op(R, st, "null == valid", MIS, [](Args &a) { X z{}; a.out->put(F::cget(a.obj[0]) == F::cget(&z)); }, ref_stop, &F::info);
			add_op(R, st, "to_array/apply/shift(null)", MIS, [](Args &a) { X z{}; const auto &q = F::cget(&z); if (a.ii[0] % 4 == 0) { auto r = dsga::to_array(q); a.out->put(r[0]); } else if (a.ii[0] % 4 == 1) put_new(a.out, q.apply([](T x) -> T { return x; })); else if (a.ii[0] % 4 == 2) put_new(a.out, q.shift(1)); else put_new(a.out, q.cshift(1)); }, ref_stop, &F::info);
		}
		if constexpr (F::info.acc[0] == 0)
		{
			add_op(R, st, "valid.swap(null)", MIS, [](Args &a) { X z{}; auto &o = F::get(a.obj[0]); if (a.ii[0] & 1) o.swap(z); else swap(o, z); }, ref_stop, &F::info);
			add_op(R, st, "null.swap(valid)", MIS, [](Args &a) { X z{}; auto &o = F::get(a.obj[0]); if (a.ii[0] & 1) z.swap(o); else swap(z, o); }, ref_stop, &F::info);
			add_op(R, st, "null.swap(null)", MIS, [](Args &) { X z{}, y{}; z.swap(y); }, ref_stop, &F::info);
		}
	}

	// documented exceptions -------------------------------------------------------------------
	template <bool both> static bool ref_vswap(RefArgs &a)
	{
		auto p = (const char *)a.addr[0], q = (const char *)a.addr[1];
		long d = p < q ? q - p : p - q;
		if (p != q && d < (long)(n * sizeof(T))) { a.out->put(1); return true; }
		a.out->put(0);
		for (int i = 0; i < n; ++i) { w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; w_<T>(a, 1)[i] = in_<T>(a, 0)[i]; }
		return true;
	}
	template <class Fn> static int caught(Fn f)
	{
		try { f(); return 0; }
		catch (const std::range_error &) { return 1; }
		catch (const std::out_of_range &) { return 2; }
		catch (const std::invalid_argument &) { return 3; }
		catch (const std::bad_alloc &) { return 4; }
		catch (...) { return 5; }
	}
	static void reg_swap(Registry &R)
	{
		if constexpr (F::info.acc[0] == 0 && F::wr && (F::K == K_W || F::K == K_Y))
		{
			add_op(R, st, "a.swap(b)", F_WRITE | F_THROW, [](Args &a) { a.out->put(caught([&] { F::get(a.obj[0]).swap(F::get(a.obj[1])); })); }, ref_vswap<true>, &F::info, true, &F::info, true);
			add_op(R, st, "swap(a, b)", F_WRITE | F_THROW, [](Args &a) { a.out->put(caught([&] {
				if constexpr (F::K == K_Y) swap(static_cast<dsga::basic_view<true, T, n> &>(F::get(a.obj[0])), static_cast<dsga::basic_view<true, T, n> &>(F::get(a.obj[1])));
				else swap(F::get(a.obj[0]), F::get(a.obj[1])); })); }, ref_vswap<true>, &F::info, true, &F::info, true);
			add_op(R, st, "a.base.swap(b.base)", F_WRITE | F_THROW, [](Args &a) { a.out->put(caught([&] { if (a.ii[0] & 1) F::get(a.obj[0]).base.swap(F::get(a.obj[1]).base); else swap(F::get(a.obj[0]).base, F::get(a.obj[1]).base); })); }, ref_vswap<true>, &F::info, true, &F::info, true);
			add_op(R, st, "a.swap(view at offset)", F_WRITE | F_THROW, [](Args &a) {
					auto &o = F::get(a.obj[0]); int d = 1 + a.ii[0] % 4;
					// a view displaced by d < n from a, over the same components, must be refused
					if (d >= n) d = n - 1;
					dsga::basic_view<true, T, n> v(o.data() + (n > 1 ? -d : 0));
					a.out->put(caught([&] { if (a.ii[1] & 1) v.swap(o); else static_cast<dsga::basic_view<true, T, n> &>(o).swap(v); })); },
				[](RefArgs &a) { a.out->put(n > 1 ? 1 : 0); return true; }, &F::info, false);
		}
		if constexpr (F::info.acc[0] == 0 && F::K == K_V)
			add_op(R, st, "a.swap(b)", F_WRITE, [](Args &a) { auto &x = F::get(a.obj[0]); auto &y = F::get(a.obj[1]); switch (a.ii[0] % 4) { case 0: x.swap(y); break; case 1: swap(x, y); break; case 2: std::swap(x, y); break; default: swap(x.base, y.base); } },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) { w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; w_<T>(a, 1)[i] = in_<T>(a, 0)[i]; } return true; }, &F::info, true, &F::info, true);
		if constexpr (F::info.acc[0] == 0 && F::K != K_C)
			add_op(R, st, "base: [i]=, set, iterate, ==", F_WRITE | F_ITER | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]).base; const T *m = imm_<T>(a);
					[&]<std::size_t... I>(std::index_sequence<I...>) { o.set(m[I]...); }(std::make_index_sequence<n>{});
					o[(unsigned)a.ii[0] % n] = m[6];
					for (auto &x : o) a.out->put((T)x);
					const auto &c = o; for (auto i = c.rbegin(); i != c.rend(); ++i) a.out->put((T)*i);
					a.out->put((T)c[n - 1]); a.out->put(o.length()); a.out->put((T)*c.data()); if constexpr (num && !std::is_floating_point_v<T>) a.out->put(o == c); },
				[](RefArgs &a) { auto w = w_<T>(a, 0); for (int i = 0; i < n; ++i) w[i] = imm_<T>(a)[i]; w[(unsigned)a.ii[0] % n] = imm_<T>(a)[6];
					for (int i = 0; i < n; ++i) a.out->put(w[i]); for (int i = n; i--;) a.out->put(w[i]); a.out->put(w[n - 1]); a.out->put((int)n); a.out->put(w[0]); if (num && !std::is_floating_point_v<T>) a.out->put(true); return true; }, &F::info, true);
	}
#ifdef DSGA_DISABLE_ASSERTS
	static void reg_swizzle_throw(Registry &R)
	{
		if constexpr (num)
		{
			add_op(R, st, "swizzle(v, i maybe bad, long long/size_t)", F_READ | F_THROW, [](Args &a) { a.out->put(caught([&] {
				long long i = a.ii[2] & 1 ? bad<true>(a.ii) : a.ii[3] % n;
				if (a.ii[4] & 1) a.out->put(fn::swizzle(F::cget(a.obj[0]), i));
				else if (a.ii[4] & 2) a.out->put(fn::swizzle(F::cget(a.obj[0]), (std::size_t)i));
				else put_new(a.out, fn::swizzle(F::cget(a.obj[0]), 0, i)); })); },
				[](RefArgs &a) { if (a.ii[2] & 1) { a.out->put(2); return true; } auto p = in_<T>(a, 0); if (!(a.ii[4] & 3)) a.out->put(p[0]); a.out->put(p[a.ii[3] % n]); a.out->put(0); return true; }, &F::info);
			add_op(R, st, "swizzle(v, i maybe bad)", F_READ | F_THROW, [](Args &a) { a.out->put(caught([&] { a.out->put(fn::swizzle(F::cget(a.obj[0]), a.ii[2] & 1 ? (int)bad(a.ii) : a.ii[3] % n)); })); },
				[](RefArgs &a) { if (a.ii[2] & 1) a.out->put(2); else { a.out->put(in_<T>(a, 0)[a.ii[3] % n]); a.out->put(0); } return true; }, &F::info);
			add_op(R, st, "o = swizzle(o, .., i maybe bad)", F::wr ? F_WRITE | F_THROW : F_READ | F_THROW, [](Args &a) { a.out->put(caught([&] {
					int j[4]; for (int k = 0; k < 4; ++k) j[k] = a.ii[k + 2] % n;
					if (a.ii[6] & 1) j[a.ii[7] % 4] = (int)bad(a.ii);
					[[maybe_unused]] auto &o = F::get_any(a.obj[0]); const auto &c = F::cget(a.obj[0]);
					if constexpr (n == 1) { auto r = fn::swizzle(c, j[0], j[1], j[2], j[3]); a.out->put((T)r[3]); }
					else if constexpr (!F::wr) { auto r = fn::swizzle(c, j[0], j[1], j[2], j[3]); a.out->put((T)r[3]); }
					else if constexpr (n == 2) { auto r = fn::swizzle(c, j[0], j[1], j[2], j[3]); a.out->put((T)r[3]); o = fn::swizzle(c, j[0], j[1]); }
					else if constexpr (n == 3) { auto r = fn::swizzle(c, j[0], j[1], j[2], j[3]); a.out->put((T)r[3]); o = fn::swizzle(c, j[0], j[1], j[2]); }
					else { auto r = fn::swizzle(c, j[0], j[1], j[2], j[3]); a.out->put((T)r[3]); o = fn::swizzle(c, j[0], j[1], j[2], j[3]); } })); },
				[](RefArgs &a) {
					int j[4]; for (int k = 0; k < 4; ++k) j[k] = a.ii[k + 2] % n;
					auto p = in_<T>(a, 0);
					if (a.ii[6] & 1) { a.out->put(2); return true; }
					a.out->put(p[j[3]]);
					if (n > 1 && F::wr) for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = p[j[i]];
					a.out->put(0); return true; }, &F::info, F::wr);
		}
	}
#endif

	// mixed scalar types: the source has another (implicitly convertible) scalar type ------------
	template <class U> static void reg_mixed(Registry &R)
	{
		if constexpr (F::wr && dsga::implicitly_convertible_to<U, T>)
		{
			static constexpr auto val = [](const int *ii, int k) { if constexpr (std::is_floating_point_v<U> && std::is_floating_point_v<T>) return U(U(ii[k % 8] % 100) + U(ii[k % 8] >> 8 & 3) / 4); else return U(ii[k % 8] % 100); };
			const char *un = st_name(st_of<U>());
			add_op(R, st, (std::string("= vec of ") + un).c_str(), F_WRITE | F_PART, [](Args &a) {
					dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = val(a.ii, i);
					auto &d = F::get(a.obj[0]); auto &r = (d = v); a.out->put((const void *)&r == (const void *)&d); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = T(val(a.ii, i)); a.out->put(true); return true; }, &F::info, true);
			add_op(R, st, (std::string("= view swizzle of ") + un).c_str(), F_WRITE | F_PART, [](Args &a) {
					U b[4]; for (int i = 0; i < 4; ++i) b[i] = val(a.ii, i);
					dsga::basic_view<false, U, 4> v(static_cast<const U *>(b)); auto &d = F::get(a.obj[0]);
					if constexpr (n == 1) d = v.z; if constexpr (n == 2) d = v.wx; if constexpr (n == 3) d = v.yyw; if constexpr (n == 4) d = v.wzyx; },
				[](RefArgs &a) { static constexpr int s1[] = {2}, s2[] = {3, 0}, s3[] = {1, 1, 3}, s4[] = {3, 2, 1, 0}; const int *s = n == 1 ? s1 : n == 2 ? s2 : n == 3 ? s3 : s4;
					for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = T(val(a.ii, s[i])); return true; }, &F::info, true);
			add_op(R, st, (std::string("+= -= *= with ") + un).c_str(), F_WRITE | F_CMPD, [](Args &a) {
					dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = val(a.ii, i);
					auto &d = F::get(a.obj[0]); switch (a.ii[7] % 6) { case 0: d += v; break; case 1: d -= v; break; case 2: d *= v; break; case 3: d += val(a.ii, 0); break; case 4: d *= val(a.ii, 1); break; default: d -= dsga::basic_vector<U, 1>(val(a.ii, 2)); } },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) { T x = in_<T>(a, 0)[i]; if (!small_x(x)) return false; int c = a.ii[7] % 6; T y = T(val(a.ii, c < 3 ? i : c - 3));
					if (std::is_unsigned_v<T> && (c == 1 || c == 5) && y > x) return false;
					w_<T>(a, 0)[i] = c == 0 || c == 3 ? T(x + y) : c == 1 || c == 5 ? T(x - y) : T(x * y); } return true; }, &F::info, true);
			add_op(R, st, (std::string("/= with ") + un).c_str(), F_WRITE | F_CMPD, [](Args &a) {
					dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = U(val(a.ii, i) + U(1));
					auto &d = F::get(a.obj[0]); if (a.ii[7] & 1) d /= v; else d /= v[0]; },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = T(in_<T>(a, 0)[i] / T(val(a.ii, a.ii[7] & 1 ? i : 0) + U(1))); return true; }, &F::info, true);
			add_op(R, st, (std::string("read: + and == with ") + un).c_str(), F_READ, [](Args &a) {
					dsga::basic_vector<U, n> v{}; for (int i = 0; i < n; ++i) v[i] = val(a.ii, i);
					const auto &c = F::cget(a.obj[0]); put_new(a.out, c + v); put_new(a.out, v * c); if constexpr (n > 1) put_new(a.out, fn::lessThan(v, v)); a.out->put(c == v); },
				[](RefArgs &a) { auto p = in_<T>(a, 0); bool e = true; for (int i = 0; i < n; ++i) { if (!small_x(p[i])) return false; a.out->put(T(p[i] + T(val(a.ii, i)))); } for (int i = 0; i < n; ++i) a.out->put(T(p[i] * T(val(a.ii, i)))); if (n > 1) for (int i = 0; i < n; ++i) a.out->put(false); for (int i = 0; i < n; ++i) e = e && p[i] == T(val(a.ii, i)); a.out->put(e); return true; }, &F::info);
		}
	}
};

template <class T, int C, int R> struct TabXM
{
	using M = MatForm<T, C, R>;
	static long long bad(const int *ii) { switch (ii[0] % 5) { case 0: return C; case 1: return C + 1; case 2: return -1; case 3: return C + ii[1] % 8; default: return -1 - ii[1] % 8; } }
	static void reg(Registry &Rg)
	{
		const ST st = st_of<T>();
		add_op(Rg, st, "m[out of range][r] = x", F_MISUSE | F_MATRIX, [](Args &a) { M::get(a.obj[0])[(int)bad(a.ii)][a.ii[2] % R] = imm_<T>(a)[0]; }, ref_stop, &M::info);
		add_op(Rg, st, "m[c][out of range] = x", F_MISUSE | F_MATRIX, [](Args &a) { M::get(a.obj[0])[a.ii[2] % C][R + a.ii[0] % 6] = imm_<T>(a)[0]; }, ref_stop, &M::info);
		add_op(Rg, st, "read m[out of range]", F_MISUSE | F_MATRIX, [](Args &a) { put_vec(a.out, M::cget(a.obj[0])[(int)bad(a.ii)]); }, ref_stop, &M::info);
		add_op(Rg, st, "read m[out of range size_t]", F_MISUSE | F_MATRIX, [](Args &a) { put_vec(a.out, M::cget(a.obj[0])[(std::size_t)bad(a.ii)]); }, ref_stop, &M::info);
		add_op(Rg, st, "m[out of range long long]", F_MISUSE | F_MATRIX, [](Args &a) { long long i = a.ii[2] & 1 ? bad(a.ii) + (a.ii[3] % 3 + 1) * 4294967296LL : (a.ii[0] % C) + 4294967296LL; if (a.ii[4] & 1) put_vec(a.out, M::cget(a.obj[0])[i]); else M::get(a.obj[0])[i][0] = imm_<T>(a)[0]; }, ref_stop, &M::info);
		add_op(Rg, st, "row(out of range)", F_MISUSE | F_MATRIX, [](Args &a) { put_new(a.out, M::cget(a.obj[0]).row(R + a.ii[0] % 6)); }, ref_stop, &M::info);
		add_op(Rg, st, "m[out of range] = column", F_MISUSE | F_MATRIX, [](Args &a) { auto &m = M::get(a.obj[0]); dsga::basic_vector<T, R> v(m[0]); m[(int)bad(a.ii)] = v; }, ref_stop, &M::info);
		add_op(Rg, st, "m[out of range].yx = ..", F_MISUSE | F_MATRIX, [](Args &a) { auto &m = M::get(a.obj[0]); m[(int)bad(a.ii)].yx = dsga::basic_vector<T, 2>(imm_<T>(a)[0], imm_<T>(a)[1]); }, ref_stop, &M::info);
		add_op(Rg, st, "matrix from null pointer", F_READ | F_THROW | F_MATRIX, [](Args &a) { a.out->put(TabX<Whole<K_V, T, 2>>::caught([&] {
				if (a.ii[0] & 1) { M::get(a.obj[0]) = dsga::basic_matrix<T, C, R>(static_cast<const T *>(nullptr)); }
				else { dsga::basic_matrix<T, C, R> m(static_cast<const T *>(nullptr)); put_mat(a.out, m); } })); },
			[](RefArgs &a) { a.out->put(3); return true; }, &M::info);
	}
};
