// Table F: scripts that rebind handles. A private array and the components of the operand are the memory; handles of
// several classes (views, views over const, stand-alone swizzles, view_vectors) are rebound, copied, assigned, read and
// written. The model tracks which cell every handle begins at.
#pragma once
#include "common.hpp"
#include "forms.hpp"

template <class F, int m> struct TabF
{
	using T = typename F::T;
	static constexpr int n = F::n, PRIV = 8, SPACE = PRIV + n;
	static constexpr ST st = st_of<T>();
	using W = dsga::basic_view<true, T, m>;
	using CW = dsga::basic_view<false, T, m>;
	using Y = dsga::view_vector<T, m>;
	template <bool M, class> struct Sw;
	template <bool M, std::size_t... I> struct Sw<M, std::index_sequence<I...>> { using type = dsga::indexed_view<M, T, m, m, (m - 1 - I)...>; };
	using S = typename Sw<true, std::make_index_sequence<m>>::type;                 // all components, backwards
	using L = dsga::indexed_view<true, T, m, 1, m - 1>;                             // the last component
	using CL = dsga::indexed_view<false, T, m, 1, 0>;                               // the first component, over const
	enum { H_W0, H_W1, H_CW, H_S, H_L, H_CL, H_N };
	static constexpr int cnt(int h) { return h == H_L || h == H_CL ? 1 : m; }
	static constexpr bool con(int h) { return h == H_CW || h == H_CL; }
	// component i of handle h is cell pos[h] + at(h, i)
	static constexpr int at(int h, int i) { return h == H_S ? m - 1 - i : h == H_L ? m - 1 : i; }
	// a handle needs m cells in one piece
	static bool ok(int p) { return (p >= 0 && p + m <= PRIV) || (p >= PRIV && p + m <= SPACE); }
	static int place(unsigned x) { int np = PRIV - m + 1, ns = n >= m ? n - m + 1 : 0; int k = (int)(x % (unsigned)(np + 2 * ns)); return k < np ? k : PRIV + (k - np) % (ns ? ns : 1); }
	struct Dec { int what, h, g, p, i; };
	static Dec dec(const int *ii, int k) { unsigned x = (unsigned)ii[k] ^ (unsigned)ii[(k + 3) % 8] >> 7; return {(int)(x & 7), (int)((x >> 3) % H_N), (int)((x >> 6) & 1), place(x >> 8), (int)((x >> 16) % (unsigned)m)}; }
	static constexpr int START[H_N] = {0, 1, 2, 3, 4, 5}, STEPS = 8;

	template <class H> static void read(Out *o, const H &h, int how)
	{
		if (how & 1) for (auto i = h.cbegin(); i != h.cend(); ++i) o->put((T)*i);
		else for (int i = 0; i < (int)h.size(); ++i) o->put((T)h[i]);
	}
	// bool vectors have no converting assignment
	template <int k = m, class A, class B> static void assign(A &x, const B &y)
	{
		if constexpr (!std::is_same_v<T, bool>) x = y.as_base();
		else [&]<std::size_t... I>(std::index_sequence<I...>) { x.set((T)y[I]...); }(std::make_index_sequence<k>{});
	}
	static void run(Args &a)
	{
		auto &obj = F::get(a.obj[0]);
		const T *q = imm_<T>(a);
		T priv[PRIV];
		for (int i = 0; i < PRIV; ++i) priv[i] = q[i];
		auto cell = [&](int p) -> T * { return p < PRIV ? priv + p : &obj[p - PRIV]; };
		W w0(cell(START[0])), w1; CW cw; S s; L l(cell(START[4])); CL cl;
		w1.reset(cell(START[1])); cw.reset(cell(START[2])); s.reset(cell(START[3])); cl.reset(cell(START[5]));
		int pos[H_N]; for (int i = 0; i < H_N; ++i) pos[i] = START[i];
		auto rebind = [&](int h, int p, int how) {
			pos[h] = p;
			T *c = cell(p); const T *cc = c;
			switch (h)
			{
				case H_W0: if (how) { W t(c); w0.reset(t.data()); } else w0.reset(c); break;
				case H_W1: if (how) w1.x.reset(c); else w1.reset(c); break;            // the swizzles of a view share its pointer
				case H_CW: if (how) cw.reset(cc); else cw.reset(c); break;
				case H_S: if (how) { s.reset(nullptr); } s.reset(c); break;
				case H_L: if (how) l.reset(nullptr); l.reset(c); break;
				case H_CL: cl.reset(cc); break;
			} };
		for (int k = 0; k < STEPS; ++k)
		{
			Dec d = dec(a.ii, k);
			switch (d.what)
			{
				case 0: rebind(d.h, d.p, d.g); break;
				case 1: case 2: { int p = pos[d.h] + (d.what == 1 ? 1 : -1); if (ok(p)) rebind(d.h, p, d.g); break; }
				case 3:
					switch (d.h)
					{
						case H_W0: w0[d.i] = q[k]; break; case H_W1: w1[d.i] = q[k]; break;
						case H_S: s[d.i] = q[k]; break; case H_L: l[0] = q[k]; break;
					}
					break;
				case 4:
					if (d.h & 1) { W t(w1); std::destroy_at(&w0); new (&w0) W(std::move(t)); pos[H_W0] = pos[H_W1]; }
					else { W t(std::move(w0)); std::destroy_at(&w1); new (&w1) W(t); pos[H_W1] = pos[H_W0]; }
					break;
				case 5:
					switch (d.h)
					{
						case H_W0: assign(w0, w1); break; case H_W1: assign(w1, cw); break; case H_CW: assign(w0, s); break;
						case H_S: assign(s, w1); break; case H_L: assign<1>(l, cl); break; case H_CL: l[0] = cl[0]; break;
					}
					break;
				case 6: { Y y; if (d.g) y.reset(w0.data()); assign(y, w1); Y z(y); z[d.i] = q[k]; read(a.out, z, 0); break; }
			}
			switch (d.h)
			{
				case H_W0: read(a.out, w0, d.g); break; case H_W1: read(a.out, w1, d.g); break; case H_CW: read(a.out, cw, d.g); break;
				case H_S: read(a.out, s, d.g); break; case H_L: read(a.out, l, d.g); break; case H_CL: read(a.out, cl, d.g); break;
			}
		}
		for (int i = 0; i < PRIV; ++i) a.out->put(priv[i]);
	}
	static bool ref(RefArgs &a)
	{
		const T *q = imm_<T>(a);
		T mem[SPACE];
		for (int i = 0; i < PRIV; ++i) mem[i] = q[i];
		for (int i = 0; i < n; ++i) mem[PRIV + i] = w_<T>(a, 0)[i];
		int pos[H_N]; for (int i = 0; i < H_N; ++i) pos[i] = START[i];
		auto at_ = [&](int h, int i) -> T & { return mem[pos[h] + at(h, i)]; };
		for (int h = 0; h < H_N; ++h) if (!ok(pos[h])) return false;
		for (int k = 0; k < STEPS; ++k)
		{
			Dec d = dec(a.ii, k);
			switch (d.what)
			{
				case 0: pos[d.h] = d.p; break;
				case 1: case 2: { int p = pos[d.h] + (d.what == 1 ? 1 : -1); if (ok(p)) pos[d.h] = p; break; }
				case 3: if (!con(d.h)) at_(d.h, d.i % cnt(d.h)) = q[k]; break;
				case 4: if (d.h & 1) pos[H_W0] = pos[H_W1]; else pos[H_W1] = pos[H_W0]; break;
				case 5:
				{
					static constexpr int from[H_N] = {H_W1, H_CW, H_S, H_W1, H_CL, H_CL}, to[H_N] = {H_W0, H_W1, H_W0, H_S, H_L, H_L};
					T t[m]; int f = from[d.h], g = to[d.h];
					for (int i = 0; i < cnt(g); ++i) t[i] = at_(f, i);
					for (int i = 0; i < cnt(g); ++i) at_(g, i) = t[i];
					break;
				}
				case 6:
				{
					T t[m]; for (int i = 0; i < m; ++i) t[i] = at_(H_W1, i);
					if (d.g) for (int i = 0; i < m; ++i) at_(H_W0, i) = t[i];
					t[d.i] = q[k];
					for (int i = 0; i < m; ++i) a.out->put(t[i]);
					break;
				}
			}
			for (int i = 0; i < cnt(d.h); ++i) a.out->put(at_(d.h, i));
		}
		for (int i = 0; i < PRIV; ++i) a.out->put(mem[i]);
		for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = mem[PRIV + i];
		return true;
	}
	static void reg(Registry &R)
	{
		static const char *nm = m == 1 ? "rebinding script, 1 component" : m == 2 ? "rebinding script, 2 components" : "rebinding script, 3 components";
		add_op(R, st, nm, F_WRITE | F_CONV | F_MULTI, run, ref, &F::info, true);
	}
	static void reg_all(Registry &R)
	{
		TabF<Whole<K_V, T, 4>, m>::reg(R); TabF<Whole<K_W, T, 4>, m>::reg(R); TabF<Whole<K_Y, T, 4>, m>::reg(R);
		TabF<Whole<K_V, T, 3>, m>::reg(R); TabF<Whole<K_W, T, 2>, m>::reg(R); TabF<Whole<K_Y, T, 3>, m>::reg(R); TabF<Whole<K_W, T, 1>, m>::reg(R);
	}
};
