// Table I: iterators, references, structured bindings, callbacks, copies and conversions,
// long-lived handles.
#pragma once
#include "forms.hpp"
#include <iterator>
#include <numeric>
namespace fn = dsga::functions;

template <class T> inline bool small_i(T x) { if constexpr (std::is_floating_point_v<T>) return std::isfinite(x) && std::fabs(x) < 1e4; else return fits<int>((__int128)x) && x <= T(30000) && (std::is_unsigned_v<T> || (long long)x >= -30000); }

// ---- random walks --------------------------------------------------------------------------
// one script drives the real iterator and, in the reference, a plain position
struct Step { int c, d; };
inline Step step_of(const int *ii, int k) { return Step{ii[k] % 14, (ii[k] / 14) % 9 - 4}; }

template <class T, class It> void walk(It b, It e, int n, const int *ii, Out *o, const T *wr)
{
	It it = b;
	int p = 0;
	auto in = [n](int q) { return q >= 0 && q <= n; };
	for (int k = 0; k < 8; ++k)
	{
		auto [c, d] = step_of(ii, k);
		switch (c)
		{
			case 0: if (p < n) { It &r = ++it; ++p; o->put(&r == &it); } break;
			case 1: if (p < n) { It old = it++; ++p; o->put((T)*old); } break;
			case 2: if (p > 0) { It &r = --it; --p; o->put(&r == &it); } break;
			case 3: if (p > 0) { It old = it--; --p; o->put((int)(old - it)); } break;
			case 4: if (in(p + d)) { it += d; p += d; } break;
			case 5: if (in(p - d)) { it -= d; p -= d; } break;
			case 6: if (in(p + d)) { it = it + d; p += d; } break;
			case 7: if (in(p + d)) { it = d + it; p += d; } break;
			case 8: if (in(p - d)) { it = it - d; p -= d; } break;
			case 9: if (p + d >= 0 && p + d < n) o->put((T)it[d]); break;
			case 10: o->put((int)(it - b)); o->put((int)(e - it)); o->put(it == e); o->put(it != b); break;
			case 11:
			{
				int q = (int)((unsigned)(ii[k] / 126) % (unsigned)(n + 1));
				const It y = b + q; const It &x = it;
				o->put((int)(x - y)); o->put((int)(y - x)); o->put(x == y); o->put(x != y);
				if (d & 1) { o->put(x < y); o->put(y <= x); o->put(x > y); o->put(y >= x); } else { o->put(y < x); o->put(x <= y); o->put(y > x); o->put(x >= y); }
				break;
			}
			case 12: { It c2(b); it = c2; p = 0; } break;
			case 13: { It c2(e); it = std::move(c2); p = n; } break;
		}
		if (p < n)
		{
			if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*it)>>) if (wr) { if (d & 1) *it = wr[k]; else *std::addressof(it[0]) = wr[k]; }
			o->put((T)*it);
		}
	}
}
template <class T> void walk_ref(const T *in0, T *w, int n, const int *ii, Out *o, const T *wr, bool rev)
{
	T v[4];
	for (int i = 0; i < n; ++i) v[i] = in0[i];
	auto at = [&](int q) -> T & { return v[rev ? n - 1 - q : q]; };
	int p = 0;
	auto in = [n](int q) { return q >= 0 && q <= n; };
	for (int k = 0; k < 8; ++k)
	{
		auto [c, d] = step_of(ii, k);
		switch (c)
		{
			case 0: if (p < n) { ++p; o->put(true); } break;
			case 1: if (p < n) { o->put(at(p)); ++p; } break;
			case 2: if (p > 0) { --p; o->put(true); } break;
			case 3: if (p > 0) { --p; o->put(1); } break;
			case 4: case 6: case 7: if (in(p + d)) p += d; break;
			case 5: case 8: if (in(p - d)) p -= d; break;
			case 9: if (p + d >= 0 && p + d < n) o->put(at(p + d)); break;
			case 10: o->put(p); o->put(n - p); o->put(p == n); o->put(p != 0); break;
			case 11:
			{
				int q = (int)((unsigned)(ii[k] / 126) % (unsigned)(n + 1));
				o->put(p - q); o->put(q - p); o->put(p == q); o->put(p != q);
				if (d & 1) { o->put(p < q); o->put(q <= p); o->put(p > q); o->put(q >= p); } else { o->put(q < p); o->put(p <= q); o->put(q > p); o->put(p >= q); }
				break;
			}
			case 12: p = 0; break;
			case 13: p = n; break;
		}
		if (p < n) { if (wr) at(p) = wr[k]; o->put(at(p)); }
	}
	if (w) for (int i = 0; i < n; ++i) w[i] = v[i];
}

template <class F> struct TabI
{
	using T = typename F::T;
	static constexpr int n = F::n;
	static constexpr ST st = st_of<T>();
	static constexpr bool num = !std::is_same_v<T, bool>;

	template <bool rev> static bool ref_walk_r(RefArgs &a) { walk_ref<T>(in_<T>(a, 0), nullptr, n, a.ii, a.out, nullptr, rev); return true; }
	template <bool rev> static bool ref_walk_w(RefArgs &a) { walk_ref<T>(in_<T>(a, 0), w_<T>(a, 0), n, a.ii, a.out, imm_<T>(a), rev); return true; }

	static void reg_walk(Registry &R)
	{
		add_op(R, st, "walk const_iterator", F_READ | F_ITER, [](Args &a) { const auto &o = F::cget(a.obj[0]); walk<T>(o.begin(), o.end(), n, a.ii, a.out, (const T *)nullptr); }, ref_walk_r<false>, &F::info);
		add_op(R, st, "walk const_reverse_iterator", F_READ | F_ITER, [](Args &a) { const auto &o = F::cget(a.obj[0]); walk<T>(o.crbegin(), o.crend(), n, a.ii, a.out, (const T *)nullptr); }, ref_walk_r<true>, &F::info);
		add_op(R, st, "all range accessors", F_READ | F_ITER, [](Args &a) {
				const auto &o = F::cget(a.obj[0]);
				for (auto i = o.cbegin(); i != o.cend(); ++i) a.out->put((T)*i);
				for (auto i = o.rbegin(); i != o.rend(); ++i) a.out->put((T)*i);
				for (const auto &x : o) a.out->put((T)x);
				const auto &vb = o.as_base();
				for (auto i = vb.begin(); i != vb.end(); ++i) a.out->put((T)*i);
				for (int i = 0; i < vb.length(); ++i) a.out->put((T)vb[i]);
				a.out->put((int)std::distance(o.begin(), o.end())); a.out->put((int)o.size()); },
			[](RefArgs &a) {
				auto p = in_<T>(a, 0);
				for (int i = 0; i < n; ++i) a.out->put(p[i]);
				for (int i = n; i--;) a.out->put(p[i]);
				for (int r = 0; r < 3; ++r) for (int i = 0; i < n; ++i) a.out->put(p[i]);
				a.out->put((int)n); a.out->put((int)n); return true; }, &F::info);
		add_op(R, st, "structured binding read", F_READ | F_ITER, [](Args &a) {
				const auto &o = F::cget(a.obj[0]);
				if constexpr (n == 1) { const auto &[p] = o; a.out->put((T)p); }
				if constexpr (n == 2) { const auto &[p, q] = o; a.out->put((T)q); a.out->put((T)p); }
				if constexpr (n == 3) { const auto &[p, q, r] = o; a.out->put((T)r); a.out->put((T)q); a.out->put((T)p); }
				if constexpr (n == 4) { const auto &[p, q, r, s] = o; a.out->put((T)s); a.out->put((T)r); a.out->put((T)q); a.out->put((T)p); } },
			[](RefArgs &a) { for (int i = n; i--;) a.out->put(in_<T>(a, 0)[i]); return true; }, &F::info);
		add_op(R, st, "std::accumulate/find/max_element/equal", F_READ | F_ITER, [](Args &a) {
				const auto &o = F::cget(a.obj[0]);
				a.out->put((T)std::accumulate(o.begin(), o.end(), T(0), [](T x, T y) { return T(x + y); }));
				a.out->put((int)(std::find(o.begin(), o.end(), (T)o[n - 1]) - o.begin()));
				a.out->put((int)(std::max_element(o.begin(), o.end()) - o.begin()));
				a.out->put(std::equal(o.begin(), o.end(), o.begin())); a.out->put((int)std::count(o.begin(), o.end(), (T)o[0])); },
			[](RefArgs &a) {
				auto p = in_<T>(a, 0); T s = T(0); int f = n - 1, m = 0, c = 0;
				for (int i = 0; i < n; ++i) { if (!small_i(p[i])) return false; s = T(s + p[i]); if (p[i] == p[n - 1] && i < f) f = i; if (p[m] < p[i]) m = i; c += p[i] == p[0]; }
				a.out->put(s); a.out->put(f); a.out->put(m); a.out->put(true); a.out->put(c); return true; }, &F::info);
		if constexpr (F::wr)
		{
			add_op(R, st, "walk iterator writing", F_WRITE | F_ITER | F_MULTI, [](Args &a) { auto &o = F::get(a.obj[0]); walk<T>(o.begin(), o.end(), n, a.ii, a.out, imm_<T>(a)); }, ref_walk_w<false>, &F::info, true);
			add_op(R, st, "walk reverse_iterator writing", F_WRITE | F_ITER | F_MULTI, [](Args &a) { auto &o = F::get(a.obj[0]); walk<T>(o.rbegin(), o.rend(), n, a.ii, a.out, imm_<T>(a)); }, ref_walk_w<true>, &F::info, true);
			add_op(R, st, "std::reverse", F_WRITE | F_ITER | F_MULTI, [](Args &a) { auto &o = F::get(a.obj[0]); std::reverse(o.begin(), o.end()); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = in_<T>(a, 0)[n - 1 - i]; return true; }, &F::info, true);
			add_op(R, st, "std::sort", F_WRITE | F_ITER | F_MULTI, [](Args &a) { auto &o = F::get(a.obj[0]); std::sort(o.begin(), o.end()); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) if (!small_i(in_<T>(a, 0)[i]) || (in_<T>(a, 0)[i] == T(0) && num && std::is_floating_point_v<T>)) return false; auto w = w_<T>(a, 0); std::sort(w, w + n); return true; }, &F::info, true);
			add_op(R, st, "std::rotate", F_WRITE | F_ITER | F_MULTI, [](Args &a) { auto &o = F::get(a.obj[0]); int k = a.ii[0] % n; std::rotate(o.begin(), o.begin() + k, o.end()); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = in_<T>(a, 0)[(i + a.ii[0] % n) % n]; return true; }, &F::info, true);
			add_op(R, st, "std::fill_n/copy_backward/copy", F_WRITE | F_ITER | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]); int k = a.ii[0] % (n + 1);
					std::fill_n(o.begin(), k, imm_<T>(a)[0]);
					std::copy(imm_<T>(a) + 1, imm_<T>(a) + 1 + (n - k), o.begin() + k); },
				[](RefArgs &a) { int k = a.ii[0] % (n + 1); for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = i < k ? imm_<T>(a)[0] : imm_<T>(a)[1 + i - k]; return true; }, &F::info, true);
			add_op(R, st, "structured binding write", F_WRITE | F_ITER, [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
					if constexpr (n == 1) { auto &[p] = o; p = m[0]; }
					if constexpr (n == 2) { auto &[p, q] = o; q = m[1]; p = m[0]; }
					if constexpr (n == 3) { auto &[p, q, r] = o; r = m[2]; q = m[1]; p = m[0]; }
					if constexpr (n == 4) { auto &[p, q, r, s] = o; s = m[3]; r = m[2]; q = m[1]; p = m[0]; } },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; }, &F::info, true);
			add_op(R, st, "get<I> write", F_WRITE | F_ITER, [](Args &a) {
					auto &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
					[&]<std::size_t... I>(std::index_sequence<I...>) { (((dsga::get<n - 1 - I>(o)) = m[n - 1 - I]), ...); }(std::make_index_sequence<n>{}); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; }, &F::info, true);
			add_op(R, st, "through vector_base", F_WRITE | F_ITER | F_MULTI, [](Args &a) {
					auto &b = F::get(a.obj[0]).as_base(); const T *m = imm_<T>(a);
					[&]<std::size_t... I>(std::index_sequence<I...>) { b.set(m[I]...); }(std::make_index_sequence<n>{});
					b[(unsigned)a.ii[0] % n] = m[6]; *(b.rbegin()) = m[5];
					for (auto &x : b) a.out->put((T)x); },
				[](RefArgs &a) { auto w = w_<T>(a, 0); for (int i = 0; i < n; ++i) w[i] = imm_<T>(a)[i]; w[(unsigned)a.ii[0] % n] = imm_<T>(a)[6]; w[n - 1] = imm_<T>(a)[5]; for (int i = 0; i < n; ++i) a.out->put(w[i]); return true; }, &F::info, true);
			if constexpr (n > 1) add_op(R, st, "swap components by reference", F_WRITE | F_ITER | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]); unsigned i = (unsigned)a.ii[0] % n, j = (unsigned)a.ii[1] % n; std::swap(o[i], o[j]); std::iter_swap(o.begin(), o.end() - 1); },
				[](RefArgs &a) { auto w = w_<T>(a, 0); std::swap(w[(unsigned)a.ii[0] % n], w[(unsigned)a.ii[1] % n]); std::swap(w[0], w[n - 1]); return true; }, &F::info, true);
		}
	}

	// ---- user callbacks ---------------------------------------------------------------------
	static T cbval(T x, const T *m, int k) { if constexpr (num) return (k & 1) ? m[k % 8] : x; else return (k & 1) ? !x : x; }
	static void reg_callback(Registry &R)
	{
		add_op(R, st, "apply(by value)", F_READ | F_CALLBACK, [](Args &a) {
				int k = 0; const T *m = imm_<T>(a); Out *o = a.out;
				put_new(o, F::cget(a.obj[0]).apply([&k, m, o](T x) -> T { o->put(k); o->put(x); sim_callback(k, (double)x); return cbval(x, m, k++); }));
				o->put(k); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) { a.out->put(i); a.out->put(p[i]); } for (int i = 0; i < n; ++i) a.out->put(cbval(p[i], imm_<T>(a), i)); a.out->put((int)n); return true; }, &F::info);
		add_op(R, st, "apply(by const ref, stateful functor)", F_READ | F_CALLBACK, [](Args &a) {
				struct Fun { int k; const T *m; Out *o; T operator()(const T &x) { o->put(k); o->put(x); sim_callback(k, (double)x); T r = cbval(x, m, k); ++k; return r; } };
				Fun f{0, imm_<T>(a), a.out};
				put_new(a.out, F::cget(a.obj[0]).apply(f)); a.out->put(f.k); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) { a.out->put(i); a.out->put(p[i]); } for (int i = 0; i < n; ++i) a.out->put(cbval(p[i], imm_<T>(a), i)); a.out->put(0); return true; }, &F::info);
		add_op(R, st, "query", F_READ | F_CALLBACK, [](Args &a) {
				int k = 0; unsigned mask = (unsigned)a.ii[0]; Out *o = a.out;
				put_new(o, F::cget(a.obj[0]).query([&k, mask, o](T x) -> bool { o->put(k); o->put(x); sim_callback(k, (double)x); return mask >> k++ & 1; }));
				o->put(k); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) { a.out->put(i); a.out->put(p[i]); } for (int i = 0; i < n; ++i) a.out->put(bool((unsigned)a.ii[0] >> i & 1)); a.out->put((int)n); return true; }, &F::info);
		add_op(R, st, "query(by const ref)", F_READ | F_CALLBACK, [](Args &a) {
				int k = 0; const T *m = imm_<T>(a); Out *o = a.out;
				put_new(o, F::cget(a.obj[0]).query([&k, m, o](const T &x) -> bool { o->put(x); sim_callback(k, (double)x); return m[k++] < x; }));
				o->put(k); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); for (int i = 0; i < n; ++i) a.out->put(p[i]); for (int i = 0; i < n; ++i) a.out->put(bool(imm_<T>(a)[i] < p[i])); a.out->put((int)n); return true; }, &F::info);
		// a function object too large for any small-object optimisation, passed as an rvalue; it accumulates a state
		add_op(R, st, "apply(large function object)", F_READ | F_CALLBACK, [](Args &a) {
				struct Big
				{
					T table[16]; int k; Out *o; T last;
					T operator()(T x) { o->put(x); o->put(last); last = x; sim_callback(k, (double)x); return table[k++ % 16]; }
				};
				const T *m = imm_<T>(a);
				Big f{{m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]}, a.ii[0] & 7, a.out, m[4]};
				if (a.ii[1] & 1) put_new(a.out, F::cget(a.obj[0]).apply(std::move(f)));
				else put_new(a.out, F::cget(a.obj[0]).query([f](T x) mutable -> bool { return f(x) < x; })); },
			[](RefArgs &a) {
				auto p = in_<T>(a, 0); auto m = imm_<T>(a); T last = m[4]; int k = a.ii[0] & 7; T r[n];
				for (int i = 0; i < n; ++i) { a.out->put(p[i]); a.out->put(last); last = p[i]; r[i] = m[k++ % 8]; }
				for (int i = 0; i < n; ++i) if (a.ii[1] & 1) a.out->put(r[i]); else a.out->put(bool(r[i] < p[i]));
				return true; }, &F::info);
		// re-entrant: the callback itself uses apply/query/assignment on private objects
		if constexpr (num)
			add_op(R, st, "apply(re-entrant callback)", F_READ | F_CALLBACK, [](Args &a) {
				int k = 0; const T *m = imm_<T>(a); Out *o = a.out; const auto &src = F::cget(a.obj[0]);
				put_new(o, src.apply([&](T x) -> T {
					dsga::basic_vector<T, 3> in(m[0], m[1], m[2]);
					int j = 0;
					auto r = in.apply([&](T y) -> T { sim_yield(); ++j; return y; });
					r.zyx = in; auto q = in.query([&](T) -> bool { sim_yield(); return (j++ & 1) == 0; });
					o->put((T)r.x); o->put((T)r.z); o->put(j); o->put((bool)q.x); sim_callback(k++, (double)x);
					return x; }));
				o->put(k); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); const T *m = imm_<T>(a); for (int i = 0; i < n; ++i) { a.out->put(m[2]); a.out->put(m[0]); a.out->put(6); a.out->put(false); } for (int i = 0; i < n; ++i) a.out->put(p[i]); a.out->put((int)n); return true; }, &F::info);
		if constexpr (F::wr && num)
		{
			add_op(R, st, "= self.apply(f)", F_WRITE | F_CALLBACK, [](Args &a) {
					auto &o = F::get(a.obj[0]); int k = 0; const T *m = imm_<T>(a); Out *out = a.out;
					o = o.apply([&k, m, out](T x) -> T { out->put(x); sim_callback(k, (double)x); return m[k++]; }); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) { a.out->put(in_<T>(a, 0)[i]); w_<T>(a, 0)[i] = imm_<T>(a)[i]; } return true; }, &F::info, true);
		}
		if constexpr (F::wr)
		{
			// the callback writes the object it is applied to: every call gets the value the component has by then
			add_op(R, st, "apply(callback writes the object)", F_WRITE | F_CALLBACK | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]); int k = 0; const T *m = imm_<T>(a); Out *out = a.out; const int *ii = a.ii;
					put_new(out, o.apply([&o, &k, m, out, ii](T x) -> T { out->put(x); sim_callback(k, (double)x); if (ii[k] & 4) o[(unsigned)(ii[k] >> 3) % n] = m[k]; return k++ & 1 ? x : m[7]; })); out->put(k); },
				[](RefArgs &a) {
					auto w = w_<T>(a, 0); auto m = imm_<T>(a); T r[n];
					for (int k = 0; k < n; ++k) { T x = w[k]; a.out->put(x); if (a.ii[k] & 4) w[(unsigned)(a.ii[k] >> 3) % n] = m[k]; r[k] = k & 1 ? x : m[7]; }
					for (int k = 0; k < n; ++k) a.out->put(r[k]); a.out->put((int)n); return true; }, &F::info, true);
			add_op(R, st, "query(callback writes the object)", F_WRITE | F_CALLBACK | F_MULTI, [](Args &a) {
					auto &o = F::get(a.obj[0]); int k = 0; const T *m = imm_<T>(a); Out *out = a.out; const int *ii = a.ii;
					put_new(out, o.query([&o, &k, m, out, ii](T x) -> bool { out->put(x); sim_callback(k, (double)x); if (ii[k] & 4) o[(unsigned)(ii[k] >> 3) % n] = m[k]; return m[7 - k++] < x; })); out->put(k); },
				[](RefArgs &a) {
					auto w = w_<T>(a, 0); auto m = imm_<T>(a); bool r[n];
					for (int k = 0; k < n; ++k) { T x = w[k]; a.out->put(x); if (a.ii[k] & 4) w[(unsigned)(a.ii[k] >> 3) % n] = m[k]; r[k] = m[7 - k] < x; }
					for (int k = 0; k < n; ++k) a.out->put(r[k]); a.out->put((int)n); return true; }, &F::info, true);
		}
	}

	// views and their swizzles are constructor components as what they derive from
	template <class X> static const auto &component(const X &x) { if constexpr (F::K == K_V) return x; else return x.as_base(); }

	// ---- copies -----------------------------------------------------------------------------
	// a copy of a vector or view_vector has its own storage; a copy of a view shares it
	static void reg_copy(Registry &R)
	{
		using X = typename F::obj_t;
		if constexpr (F::info.acc[0] == 0)
		{
			if constexpr (F::K == K_V || F::K == K_Y)
			{
				add_op(R, st, "copy/move, then write the copy", F_READ | F_CONV, [](Args &a) {
						const X &o = F::cget(a.obj[0]); const T *m = imm_<T>(a);
						X c(o); X d(std::move(c)); X e{}; e = d; X f{}; f = std::move(d);
						X g(e);
						for (int i = 0; i < n; ++i) e[i] = m[i];
						put_vec(a.out, o); put_vec(a.out, e); put_vec(a.out, f); put_vec(a.out, g); put_vec(a.out, c);
					}, ref_copy4, &F::info);
				add_op(R, st, "swap with private", F_WRITE | F_CONV, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
						X p{}; for (int i = 0; i < n; ++i) p[i] = m[i];
						if constexpr (F::K == K_V) { if (a.ii[0] % 3 == 0) o.swap(p); else if (a.ii[0] % 3 == 1) swap(o, p); else std::swap(o, p); }
						else { if (a.ii[0] % 3 == 0) o.swap(p); else if (a.ii[0] % 3 == 1) swap(static_cast<dsga::basic_view<true, T, n> &>(o), static_cast<dsga::basic_view<true, T, n> &>(p)); else o.swap(p); }
						put_vec(a.out, p); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) { w_<T>(a, 0)[i] = imm_<T>(a)[i]; a.out->put(in_<T>(a, 0)[i]); } return true; }, &F::info, true);
				add_op(R, st, "= X(copy of self modified)", F_WRITE | F_CONV | F_OBJW, [](Args &a) {
						X &o = F::get(a.obj[0]); X c(o); c[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; if (a.ii[1] & 1) o = c; else o = std::move(c); put_vec(a.out, c); },
					[](RefArgs &a) { auto w = w_<T>(a, 0); w[(unsigned)a.ii[0] % n] = imm_<T>(a)[0]; for (int i = 0; i < n; ++i) a.out->put(w[i]); return true; }, &F::info, true);
				// values assigned from something that is given up: it is copied all the same
				if constexpr (num) add_op(R, st, "= rvalue view, whose target changes later", F_WRITE | F_CONV | F_OBJW | F_MULTI, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
						T loc[4] = {m[0], m[1], m[2], m[3]}; dsga::basic_view<true, T, n> w(loc); dsga::basic_view<false, T, n> c(loc); dsga::view_vector<T, n> y(w);
						switch (a.ii[0] % 5)
						{
							case 0: o = dsga::basic_view<true, T, n>(loc); break;
							case 1: o = std::move(w); break;
							case 2: o = std::move(c); break;
							case 3: o = std::move(y); y[(unsigned)a.ii[1] % n] = m[4]; break;
							default: o = static_cast<dsga::basic_view<true, T, n> &&>(y); y[(unsigned)a.ii[1] % n] = m[4]; break;
						}
						loc[(unsigned)a.ii[1] % n] = m[4];
						put_vec(a.out, o); o[(unsigned)a.ii[2] % n] = m[5]; put_vec(a.out, w); put_vec(a.out, c); },
					[](RefArgs &a) { auto w = w_<T>(a, 0); auto m = imm_<T>(a); for (int i = 0; i < n; ++i) a.out->put(w[i] = m[i]); w[(unsigned)a.ii[2] % n] = m[5];
						for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(m[i == (int)((unsigned)a.ii[1] % n) ? 4 : i]); return true; }, &F::info, true);
				add_op(R, st, "self assignment", F_WRITE | F_CONV | F_OBJW, [](Args &a) { X &o = F::get(a.obj[0]); X &q = *&o; o = q; put_vec(a.out, o); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }, &F::info, true);
			}
			if constexpr (F::K == K_W)
			{
				add_op(R, st, "write through copied view", F_WRITE | F_CONV, [](Args &a) {
						const X &o = F::cget(a.obj[0]); const T *m = imm_<T>(a);
						X c(o); X d(std::move(c)); for (int i = 0; i < n; ++i) d[i] = m[i]; put_vec(a.out, o); put_vec(a.out, c); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(imm_<T>(a)[i]); return true; }, &F::info, true);
				add_op(R, st, "rebinding a copied view", F_WRITE | F_CONV, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
						X c(o); T loc[4] = {m[4], m[5], m[6], m[7]};
						c.reset(loc); for (int i = 0; i < n; ++i) c[i] = m[i];
						X e; e.reset(o.data()); e[(unsigned)a.ii[0] % n] = m[0];
						put_vec(a.out, o); put_vec(a.out, c); for (T x : loc) a.out->put(x); },
					[](RefArgs &a) { auto w = w_<T>(a, 0); auto m = imm_<T>(a); w[(unsigned)a.ii[0] % n] = m[0]; for (int i = 0; i < n; ++i) a.out->put(w[i]); for (int i = 0; i < n; ++i) a.out->put(m[i]); for (int i = 0; i < 4; ++i) a.out->put(i < n ? m[i] : m[4 + i]); return true; }, &F::info, true);
				add_op(R, st, "swap with private", F_WRITE | F_CONV, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
						T loc[4] = {m[0], m[1], m[2], m[3]}; X p(loc);
						if (a.ii[0] & 1) o.swap(p); else swap(o, p);
						put_vec(a.out, p); },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) { w_<T>(a, 0)[i] = imm_<T>(a)[i]; a.out->put(in_<T>(a, 0)[i]); } return true; }, &F::info, true);
				if constexpr (num && n > 1) add_op(R, st, "assign to swizzles of a temporary view", F_WRITE | F_CONV | F_PART, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a);
						switch (a.ii[0] % 6)
						{
							case 0: X(o.data()).x = m[0]; break;
							case 1: X(o.data()).y = m[0]; break;
							case 2: if constexpr (n > 2) { X(o.data()).z = m[0]; break; } else { X(o.data()).y = dsga::basic_vector<T, 1>(m[0]); break; }
							case 3: if constexpr (n > 3) { X(o.data()).w = m[0]; break; } else { X(o.data()).x = dsga::basic_vector<T, 1>(m[0]); break; }
							case 4: X(o.data()).yx = dsga::basic_vector<T, 2>(m[0], m[1]); break;
							default: X(o.data())[a.ii[1] % n] = m[0]; break;
						} },
					[](RefArgs &a) { auto m = imm_<T>(a); auto w = w_<T>(a, 0);
						switch (a.ii[0] % 6) { case 0: w[0] = m[0]; break; case 1: w[1] = m[0]; break; case 2: w[n > 2 ? 2 : 1] = m[0]; break; case 3: w[n > 3 ? 3 : 0] = m[0]; break; case 4: w[1] = m[0]; w[0] = m[1]; break; default: w[a.ii[1] % n] = m[0]; }
						return true; }, &F::info, true);
				if constexpr (num) add_op(R, st, "assign through temporary view", F_WRITE | F_CONV, [](Args &a) {
						X &o = F::get(a.obj[0]); const T *m = imm_<T>(a); dsga::basic_vector<T, n> v{}; for (int i = 0; i < n; ++i) v[i] = m[i];
						X(o.data()) = v; },
					[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; }, &F::info, true);
			}
		}
		// conversions of any form into owning objects, later changes to which stay private
		if constexpr (num)
		add_op(R, st, "convert to owning, then write", F_READ | F_CONV | F_OBJREAD, [](Args &a) {
				const auto &o = F::cget(a.obj[0]); const T *m = imm_<T>(a);
				dsga::basic_vector<T, n> v(o); dsga::view_vector<T, n> y(o); auto arr = dsga::to_array(o);
				if constexpr (n > 1) { dsga::basic_vector<T, n> v2; v2 = o; put_vec(a.out, v2); }
				for (int i = 0; i < n; ++i) { v[i] = m[i]; y[i] = m[i]; }
				for (int i = 0; i < n; ++i) a.out->put(arr[i]);
				put_vec(a.out, o); put_vec(a.out, v); put_vec(a.out, y); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); auto m = imm_<T>(a); if (n > 1) for (int i = 0; i < n; ++i) a.out->put(p[i]); for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(p[i]); for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) a.out->put(m[i]); return true; }, &F::info);
		if constexpr (num)
			add_op(R, st, "construct combined vectors from parts", F_READ | F_CONV | F_OBJREAD, [](Args &a) {
				const auto &o = component(F::cget(a.obj[0])); const T *m = imm_<T>(a);
				if constexpr (n == 1) { dsga::basic_vector<T, 4> v(m[0], o, m[1], o); put_vec(a.out, v); dsga::basic_vector<T, 2> w(o, o); put_vec(a.out, w); dsga::basic_vector<T, 3> s((T)o[0]); put_vec(a.out, s); }
				if constexpr (n == 2) { dsga::basic_vector<T, 4> v(o, o); put_vec(a.out, v); dsga::basic_vector<T, 4> w(m[0], o, m[1]); put_vec(a.out, w); dsga::basic_vector<T, 3> z(m[2], o); put_vec(a.out, z); }
				if constexpr (n == 3) { dsga::basic_vector<T, 4> v(o, m[0]); put_vec(a.out, v); dsga::basic_vector<T, 4> w(m[0], o); put_vec(a.out, w); dsga::basic_vector<T, 2> z(o); put_vec(a.out, z); }
				if constexpr (n == 4) { dsga::basic_vector<T, 3> v(o); put_vec(a.out, v); dsga::basic_vector<T, 2> w(o); put_vec(a.out, w); dsga::view_vector<T, 4> y(m[0], m[1], dsga::basic_vector<T, 2>(m[2], m[3])); put_vec(a.out, y); } },
			[](RefArgs &a) {
				auto p = in_<T>(a, 0); auto m = imm_<T>(a); auto P = [&](auto... x) { (a.out->put(T(x)), ...); };
				if constexpr (n == 1) { P(m[0], p[0], m[1], p[0]); P(p[0], p[0]); P(p[0], p[0], p[0]); }
				if constexpr (n == 2) { P(p[0], p[1], p[0], p[1]); P(m[0], p[0], p[1], m[1]); P(m[2], p[0], p[1]); }
				if constexpr (n == 3) { P(p[0], p[1], p[2], m[0]); P(m[0], p[0], p[1], p[2]); P(p[0], p[1]); }
				if constexpr (n == 4) { P(p[0], p[1], p[2]); P(p[0], p[1]); P(m[0], m[1], m[2], m[3]); }
				return true; }, &F::info);
	}
	static bool ref_copy4(RefArgs &a)
	{
		auto p = in_<T>(a, 0), m = imm_<T>(a);
		auto P = [&](const T *x) { for (int i = 0; i < n; ++i) a.out->put(x[i]); };
		P(p); P(m); P(p); P(p); P(p);
		return true;
	}

	// ---- long-lived handles: `run` takes the handle, `use` (a later operation of the same client) goes through it
	template <class H, class Take, class Use> static void handle(Registry &R, const char *nm, uint32_t fl, bool w, Take, Use, ref_fn ref)
	{
		static_assert(sizeof(H) <= 128 && std::is_default_constructible_v<Take> && std::is_default_constructible_v<Use>);
		add_op(R, st, (std::string("take ") + nm).c_str(), F_READ | F_HANDLE, [](Args &a) { new (a.scratch) H(Take{}(F::get_any(a.obj[0]))); }, [](RefArgs &) { return true; }, &F::info);
		add_op(R, st, (std::string("use ") + nm).c_str(), fl | F_HUSE, [](Args &a) { Use{}(*static_cast<H *>(a.scratch), a); }, ref, &F::info, w);
	}
	static bool ref_h_read(RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }
	static bool ref_h_rw(RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(in_<T>(a, 0)[i]); for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = imm_<T>(a)[i]; return true; }
	static bool ref_h_one(RefArgs &a) { unsigned i = (unsigned)a.ii[0] % n; a.out->put(in_<T>(a, 0)[i]); w_<T>(a, 0)[i] = imm_<T>(a)[0]; return true; }

	static void reg_handle(Registry &R)
	{
		using O = std::remove_reference_t<decltype(F::get(nullptr))>;
		using CO = const std::remove_cvref_t<decltype(F::cget(nullptr))>;
		using cit = decltype(std::declval<CO &>().begin());
		using crit = decltype(std::declval<CO &>().rbegin());
		auto asC = [](O &o) -> CO & { return o; }; (void)asC;
		handle<cit>(R, "const_iterator", F_READ | F_ITER, false, [](O &o) { return static_cast<CO &>(o).begin(); }, [](cit &h, Args &a) { for (int i = 0; i < n; ++i) a.out->put((T)h[i]); }, ref_h_read);
		handle<crit>(R, "const_reverse_iterator", F_READ | F_ITER, false, [](O &o) { return static_cast<CO &>(o).rbegin(); }, [](crit &h, Args &a) { for (int i = 0; i < n; ++i) a.out->put((T)h[n - 1 - i]); }, ref_h_read);
		handle<const T *>(R, "const data()", F_READ | F_ITER, false, [](O &o) { return static_cast<CO &>(o).data(); },
			[](const T *&h, Args &a) { [&]<std::size_t... I>(std::index_sequence<I...>) { (a.out->put(h[I]), ...); }(CO::sequence()); }, ref_h_read);
		struct CRefs { const T *p[n]; };
		handle<CRefs>(R, "const references", F_READ | F_ITER, false, [](O &o) { CRefs r; for (int i = 0; i < n; ++i) r.p[i] = &static_cast<CO &>(o)[i]; return r; }, [](CRefs &h, Args &a) { for (int i = 0; i < n; ++i) a.out->put((T)*h.p[i]); }, ref_h_read);
		if constexpr (F::wr)
		{
			using it = decltype(std::declval<O &>().begin());
			using rit = decltype(std::declval<O &>().rbegin());
			handle<it>(R, "iterator", F_WRITE | F_ITER, true, [](O &o) { return o.begin(); }, [](it &h, Args &a) { for (int i = 0; i < n; ++i) { a.out->put((T)*h); *h = imm_<T>(a)[i]; ++h; } h -= n; }, ref_h_rw);
			handle<rit>(R, "reverse_iterator", F_WRITE | F_ITER, true, [](O &o) { return o.rend(); }, [](rit &h, Args &a) { for (int i = 0; i < n; ++i) { --h; a.out->put((T)*h); *h = imm_<T>(a)[i]; } h += n; }, ref_h_rw);
			struct Refs { T *p[n]; };
			handle<Refs>(R, "references", F_WRITE | F_ITER, true, [](O &o) { Refs r; for (int i = 0; i < n; ++i) r.p[i] = &o[i]; return r; }, [](Refs &h, Args &a) { for (int i = 0; i < n; ++i) { a.out->put((T)*h.p[i]); *h.p[i] = imm_<T>(a)[i]; } }, ref_h_rw);
			handle<Refs>(R, "structured binding", F_WRITE | F_ITER, true, [](O &o) {
					Refs z;
					if constexpr (n == 1) { auto &[p] = o; z = Refs{&p}; }
					if constexpr (n == 2) { auto &[p, q] = o; z = Refs{&p, &q}; }
					if constexpr (n == 3) { auto &[p, q, r] = o; z = Refs{&p, &q, &r}; }
					if constexpr (n == 4) { auto &[p, q, r, s] = o; z = Refs{&p, &q, &r, &s}; }
					return z; }, [](Refs &h, Args &a) { unsigned i = (unsigned)a.ii[0] % n; a.out->put((T)*h.p[i]); *h.p[i] = imm_<T>(a)[0]; }, ref_h_one);
			struct OP { O *p; };
			handle<OP>(R, "object reference", F_WRITE | F_ITER, true, [](O &o) { return OP{&o}; }, [](OP &h, Args &a) { unsigned i = (unsigned)a.ii[0] % n; a.out->put((T)(*h.p)[i]); (*h.p).begin()[(int)i] = imm_<T>(a)[0]; }, ref_h_one);
			handle<T *>(R, "data()", F_WRITE | F_ITER, true, [](O &o) { return o.data(); },
				[](T *&h, Args &a) { int k = 0; [&]<std::size_t... I>(std::index_sequence<I...>) { ((a.out->put(h[I]), h[I] = imm_<T>(a)[k++]), ...); }(O::sequence()); }, ref_h_rw);
			if constexpr (F::info.acc[0] == 0)
			{
				using W = dsga::basic_view<true, T, n>;
				handle<W>(R, "view onto", F_WRITE | F_ITER, true, [](O &o) { return W(o.data()); }, [](W &h, Args &a) { for (int i = 0; i < n; ++i) { a.out->put((T)h[i]); h[i] = imm_<T>(a)[i]; } }, ref_h_rw);
			}
		}
	}

	// known call class: same-type swizzle assignment of owning vectors (see known_findings.txt)
	static void reg_known(Registry &R)
	{
		if constexpr (F::K == K_V && F::wr && F::info.acc[0] != 0)
		{
			add_op(R, st, "= same swizzle of", F_WRITE | F_KNOWN, [](Args &a) { auto &d = F::get(a.obj[0]); const auto &s = F::cget(a.obj[1]); d = s; },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; return true; }, &F::info, true, &F::info, false);
			add_op(R, st, "std::swap with same swizzle of", F_WRITE | F_KNOWN | F_NOALIAS, [](Args &a) { std::swap(F::get(a.obj[0]), F::get(a.obj[1])); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) { w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; w_<T>(a, 1)[i] = in_<T>(a, 0)[i]; } return true; }, &F::info, true, &F::info, true);
		}
	}
};

template <class T, int S> struct KnownAll
{
	struct Ctx { Registry *R; };
	template <class Acc> struct Do { static void go(Ctx &c) { if constexpr (Acc::wr && Acc::n < S) TabI<Form<K_V, T, S, Acc>>::reg_known(*c.R); } };
	static void reg(Registry &R)
	{
		Ctx c{&R};
		if constexpr (S == 2) each_swizzle_2<Do>(c);
		if constexpr (S == 3) each_swizzle_3<Do>(c);
		if constexpr (S == 4) each_swizzle_4<Do>(c);
	}
};
