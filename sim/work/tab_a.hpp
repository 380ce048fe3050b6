// Table A: every swizzle name of every container size: basic reads and writes.
#pragma once
#include "common.hpp"

template <class F> struct TabA
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr auto seq = std::make_index_sequence<n>{};

	static void reg(Registry &R)
	{
		{   // all read paths at once
			const char *nm = " read"; constexpr uint32_t fl = F_READ; constexpr bool w = false;
			run_fn run = [](Args &a) {
				const auto &o = F::cget(a.obj[0]);
				dsga::basic_vector<T, n> c;
				if constexpr (std::is_same_v<T, bool>) { for (int i = 0; i < n; ++i) c[i] = o[i]; }     // bool vectors assign only from their own type
				else c = o;
				for (int i = 0; i < n; ++i) { a.out->put(o[i]); a.out->put(c[i]); }
				if constexpr (n == 1) { T s = o; a.out->put(s); }
				a.out->put(o.length());
			};
			ref_fn ref = [](RefArgs &a) {
				auto p = in_<T>(a, 0);
				for (int i = 0; i < n; ++i) { a.out->put(p[i]); a.out->put(p[i]); }
				if constexpr (n == 1) a.out->put(p[0]);
				a.out->put((int)n);
				return true;
			};
			add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
		}
		if constexpr (F::wr)
		{
			auto wr_all_imm = [](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; };
			{
				const char *nm = " set"; constexpr uint32_t fl = F_WRITE | F_PART; constexpr bool w = true;
				run_fn run = [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
					[&]<std::size_t... J>(std::index_sequence<J...>) { o.set(m[J]...); }(seq);
				};
				ref_fn ref = wr_all_imm; add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			if constexpr (!std::is_same_v<T, bool>)
			{
				const char *nm = " =vec"; constexpr uint32_t fl = F_WRITE | F_PART; constexpr bool w = true;
				run_fn run = [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
					dsga::basic_vector<T, n> v{};
					for (int i = 0; i < n; ++i) v[i] = m[i];
					auto &r = (o = v);
					a.out->put((const void *)&r == (const void *)&o);
				};
				ref_fn ref = [](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; a.out->put(true); return true; };
				add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			{
				const char *nm = "[i]="; constexpr uint32_t fl = F_WRITE | F_PART; constexpr bool w = true;
				run_fn run = [](Args &a) { auto &o = F::get(a.obj[0]); o[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; };
				ref_fn ref = [](RefArgs &a) { w_<T>(a, 0)[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; return true; };
				add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			{
				const char *nm = " for(auto&)"; constexpr uint32_t fl = F_WRITE | F_PART | F_ITER; constexpr bool w = true;
				run_fn run = [](Args &a) { auto &o = F::get(a.obj[0]); int k = 0; for (auto &x : o) { a.out->put(static_cast<T>(x)); x = imm_<T>(a)[k++]; } };
				ref_fn ref = [](RefArgs &a) { for (int i = 0; i < n; ++i) { a.out->put(in_<T>(a, 0)[i]); w_<T>(a, 0)[i] = imm_<T>(a)[i]; } return true; };
				add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			{
				const char *nm = " data()[sequence]="; constexpr uint32_t fl = F_WRITE | F_PART | F_ITER; constexpr bool w = true;
				run_fn run = [](Args &a) {
					auto &o = F::get(a.obj[0]); T *p = o.data(); const T *m = imm_<T>(a);
					[&]<std::size_t... J, std::size_t... I>(std::index_sequence<J...>, std::index_sequence<I...>) { ((p[I] = m[J]), ...); }(seq, o.sequence());
				};
				ref_fn ref = wr_all_imm; add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			if constexpr (n == 1 && !std::is_same_v<T, bool>)
			{
				const char *nm = " =scalar"; constexpr uint32_t fl = F_WRITE | F_PART; constexpr bool w = true;
				run_fn run = [](Args &a) { auto &o = F::get(a.obj[0]); o = imm_<T>(a)[0]; };
				ref_fn ref = wr_all_imm; add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
			if constexpr (!std::is_same_v<T, bool>)
			{
				const char *nm = " +=vec"; constexpr uint32_t fl = F_WRITE | F_PART | F_CMPD; constexpr bool w = true;
				run_fn run = [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
					dsga::basic_vector<T, n> v{};
					for (int i = 0; i < n; ++i) v[i] = m[i];
					o += v;
				};
				ref_fn ref = [](RefArgs &a) {
					for (int i = 0; i < n; ++i)
					{
						T x = in_<T>(a, 0)[i], y = imm_<T>(a)[i];
						if constexpr (std::is_integral_v<T>) if (!fits<T>((__int128)x + y)) return false;
						w_<T>(a, 0)[i] = x + y;
					}
					return true;
				};
				add_op(R, st_of<T>(), nm, fl, run, ref, &F::info, w);
			}
		}
	}
};

template <Kind K, class T, int S, int First> struct TabAAll
{
	struct Ctx { Registry *R; };
	template <class Acc> struct Do { static void go(Ctx &c) { if constexpr (Acc::idx[0] == First) TabA<Form<K, T, S, Acc>>::reg(*c.R); } };
	static void reg(Registry &R)
	{
		Ctx c{&R};
		if constexpr (S == 1) each_swizzle_1<Do>(c);
		if constexpr (S == 2) each_swizzle_2<Do>(c);
		if constexpr (S == 3) each_swizzle_3<Do>(c);
		if constexpr (S == 4) each_swizzle_4<Do>(c);
		if constexpr (First == 0) TabA<Whole<K, T, S>>::reg(R);
	}
};
