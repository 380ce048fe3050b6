// Table M: matrices.
#pragma once
#include "tab_c.hpp"

template <class T, int C, int R> struct TabM
{
	using M = MatForm<T, C, R>;
	using mat = dsga::basic_matrix<T, C, R>;
	static constexpr int N = C * R;
	static constexpr uint32_t RD = F_READ | F_MATRIX, WR = F_WRITE | F_MATRIX;

	static T at(const T *m, int c, int r) { return m[c * R + r]; }
	static bool ok(const T *m, int n) { for (int i = 0; i < n; ++i) if (!small(m[i])) return false; return true; }

	static void reg(Registry &Rg)
	{
		const ST st = st_of<T>();
		const FormInfo *mi = &M::info;
		// ---- reads
		add_op(Rg, st, "m[c], row(r), get<>, iteration", RD | F_ITER, [](Args &a) {
				const mat &m = M::cget(a.obj[0]);
				put_mat(a.out, m);
				for (int r = 0; r < R; ++r) put_new(a.out, m.row(r));
				put_vec(a.out, dsga::get<0>(m)); put_vec(a.out, dsga::get<C - 1>(m));
				for (auto &col : m) put_vec(a.out, col);
				a.out->put(m.length()); a.out->put(m.column_length()); },
			[](RefArgs &a) {
				auto m = in_<T>(a, 0);
				for (int i = 0; i < N; ++i) a.out->put(m[i]);
				for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) a.out->put(at(m, c, r));
				for (int r = 0; r < R; ++r) a.out->put(at(m, 0, r));
				for (int r = 0; r < R; ++r) a.out->put(at(m, C - 1, r));
				for (int i = 0; i < N; ++i) a.out->put(m[i]);
				a.out->put((int)C); a.out->put((int)R);
				return true; }, mi);
		add_op(Rg, st, "transpose", RD | F_FUNC, [](Args &a) { put_new(a.out, fn::transpose(M::cget(a.obj[0]))); },
			[](RefArgs &a) { for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) a.out->put(at(in_<T>(a, 0), c, r)); return true; }, mi);
		add_op(Rg, st, "==/unary+/unary-", RD, [](Args &a) { const mat &x = M::cget(a.obj[0]); const mat &y = M::cget(a.obj[1]); a.out->put(x == y); a.out->put(x == x); put_new(a.out, +x); put_new(a.out, -y); },
			[](RefArgs &a) { bool e = true, s = true; for (int i = 0; i < N; ++i) { e = e && in_<T>(a, 0)[i] == in_<T>(a, 1)[i]; s = s && !std::isnan(in_<T>(a, 0)[i]); } a.out->put(e); a.out->put(s); for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); for (int i = 0; i < N; ++i) a.out->put(T(-in_<T>(a, 1)[i])); return true; }, mi, false, mi, false);
		add_op(Rg, st, "+ - / compMult", RD, [](Args &a) { const mat &x = M::cget(a.obj[0]); const mat &y = M::cget(a.obj[1]); put_new(a.out, x + y); put_new(a.out, x - y); put_new(a.out, x / y); put_new(a.out, fn::matrixCompMult(x, y)); },
			[](RefArgs &a) { auto p = in_<T>(a, 0), q = in_<T>(a, 1); for (int i = 0; i < N; ++i) a.out->put(T(p[i] + q[i])); for (int i = 0; i < N; ++i) a.out->put(T(p[i] - q[i])); for (int i = 0; i < N; ++i) a.out->put(T(p[i] / q[i])); for (int i = 0; i < N; ++i) a.out->put(T(p[i] * q[i])); return true; }, mi, false, mi, false);
		add_op(Rg, st, "+ - scalar", RD, [](Args &a) { const mat &x = M::cget(a.obj[0]); T s = imm_<T>(a)[0]; put_new(a.out, x + s); put_new(a.out, s + x); put_new(a.out, x - s); put_new(a.out, s - x); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); T s = imm_<T>(a)[0]; for (int k = 0; k < 4; ++k) for (int i = 0; i < N; ++i) a.out->put(T(k < 2 ? p[i] + s : k == 2 ? p[i] - s : s - p[i])); return true; }, mi);
		add_op(Rg, st, "* / scalar", RD, [](Args &a) { const mat &x = M::cget(a.obj[0]); T s = imm_<T>(a)[0]; put_new(a.out, x * s); put_new(a.out, s * x); put_new(a.out, x / s); put_new(a.out, s / x); },
			[](RefArgs &a) { auto p = in_<T>(a, 0); T s = imm_<T>(a)[0]; for (int k = 0; k < 4; ++k) for (int i = 0; i < N; ++i) a.out->put(T(k < 2 ? p[i] * s : k == 2 ? p[i] / s : s / p[i])); return true; }, mi);
		add_op(Rg, st, "to_array/to_matrix", RD | F_CONV, [](Args &a) { auto arr = dsga::to_array(M::cget(a.obj[0])); for (auto x : arr) a.out->put(x); put_new(a.out, dsga::to_matrix<C, R>(arr)); },
			[](RefArgs &a) { for (int k = 0; k < 2; ++k) for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); return true; }, mi);
		add_op(Rg, st, "construct from pointer", RD | F_CONV | F_THROW, [](Args &a) {
				const mat &m = M::cget(a.obj[0]); T tmp[N]; for (int i = 0; i < N; ++i) tmp[i] = m[i / R][i % R];
				mat x(static_cast<const T *>(tmp)); put_mat(a.out, x);
				int caught = 0; try { mat y(static_cast<const T *>(nullptr)); caught = 9; } catch (const std::invalid_argument &) { caught = 1; } catch (...) { caught = 2; } a.out->put(caught); },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); a.out->put(1); return true; }, mi);
		// ---- matrix * vector forms
		mul_vec<Whole<K_V, T, C>, Whole<K_V, T, R>>(Rg);
		mul_vec<Whole<K_W, T, C>, Whole<K_C, T, R>>(Rg);
		if constexpr (C == 3 && R == 3) mul_vec<Form<K_V, T, 4, A_wyx>, Form<K_W, T, 4, A_zzy>>(Rg);
		if constexpr (C == 4 && R == 4) mul_vec<Form<K_V, T, 4, A_wzyx>, Form<K_W, T, 4, A_zzyx>>(Rg);
		if constexpr (C == 2 && R == 2) mul_vec<Form<K_V, T, 4, A_wy>, Form<K_W, T, 3, A_zy>>(Rg);
		// ---- writes
		add_op(Rg, st, "= mat", WR | F_CONV, [](Args &a) { M::get(a.obj[0]) = M::cget(a.obj[1]); },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; return true; }, mi, true, mi, false);
		add_op(Rg, st, "= mat(other type)", WR | F_CONV, [](Args &a) {
				using U = std::conditional_t<std::is_same_v<T, double>, float, T>;
				dsga::basic_matrix<U, C, R> o{}; for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) o[c][r] = U(a.ii[(c * R + r) % 8] % 50);
				M::get(a.obj[0]) = o; },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) w_<T>(a, 0)[i] = T(a.ii[i % 8] % 50); return true; }, mi, true);
		add_op(Rg, st, "swap", WR, [](Args &a) { if (a.ii[0] & 1) M::get(a.obj[0]).swap(M::get(a.obj[1])); else swap(M::get(a.obj[0]), M::get(a.obj[1])); },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) { w_<T>(a, 0)[i] = in_<T>(a, 1)[i]; w_<T>(a, 1)[i] = in_<T>(a, 0)[i]; } return true; }, mi, true, mi, true);
		add_op(Rg, st, "++pre/post++", WR | F_CMPD, [](Args &a) { mat &m = M::get(a.obj[0]); if (a.ii[0] & 1) { auto &r = ++m; a.out->put(&r == &m); } else { put_new(a.out, m++); } },
			[](RefArgs &a) { if (a.ii[0] & 1) a.out->put(true); else for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); for (int i = 0; i < N; ++i) w_<T>(a, 0)[i] = in_<T>(a, 0)[i] + T(1); return true; }, mi, true);
		add_op(Rg, st, "--pre/post--", WR | F_CMPD, [](Args &a) { mat &m = M::get(a.obj[0]); if (a.ii[0] & 1) { auto &r = --m; a.out->put(&r == &m); } else { put_new(a.out, m--); } },
			[](RefArgs &a) { if (a.ii[0] & 1) a.out->put(true); else for (int i = 0; i < N; ++i) a.out->put(in_<T>(a, 0)[i]); for (int i = 0; i < N; ++i) w_<T>(a, 0)[i] = in_<T>(a, 0)[i] - T(1); return true; }, mi, true);
		add_op(Rg, st, "= self*s + other", WR, [](Args &a) { mat &m = M::get(a.obj[0]); const mat &o = M::cget(a.obj[1]); m = m * T(a.ii[0] % 3) + o; },
			[](RefArgs &a) { for (int i = 0; i < N; ++i) { if (!small(in_<T>(a, 0)[i]) || !small(in_<T>(a, 1)[i])) return false; w_<T>(a, 0)[i] = in_<T>(a, 0)[i] * T(a.ii[0] % 3) + in_<T>(a, 1)[i]; } return true; }, mi, true, mi, false);
		// columns as independently writable parts
		[&]<int... I>(std::integer_sequence<int, I...>) { (column<I>(Rg), ...); }(std::make_integer_sequence<int, C>{});

		if constexpr (C == R) square(Rg);
		// resizing constructors and products with every compatible shape
		[&]<int... K>(std::integer_sequence<int, K...>) { ((product<K + 2>(Rg)), ...); }(std::make_integer_sequence<int, 3>{});
		[&]<int... K>(std::integer_sequence<int, K...>) { ((resize<K / 3 + 2, K % 3 + 2>(Rg)), ...); }(std::make_integer_sequence<int, 9>{});
		// outer product into R x C
		add_op(Rg, st, "outerProduct:", RD | F_FUNC, [](Args &a) { put_new(a.out, fn::outerProduct(Whole<K_V, T, R>::cget(a.obj[0]), Whole<K_W, T, C>::cget(a.obj[1]))); },
			[](RefArgs &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) a.out->put(T(in_<T>(a, 0)[r] * in_<T>(a, 1)[c])); return true; }, &Whole<K_V, T, R>::info, false, &Whole<K_W, T, C>::info, false);
	}
	template <class CV, class RV> static void mul_vec(Registry &Rg)
	{
		add_op(Rg, st_of<T>(), "* vec", RD, [](Args &a) { put_new(a.out, M::cget(a.obj[0]) * CV::cget(a.obj[1])); },
			[](RefArgs &a) { auto m = in_<T>(a, 0), v = in_<T>(a, 1); if (!ok(m, N) || !ok(v, C)) return false; a.out->reltol = tol_of<T>;
				for (int r = 0; r < R; ++r) { double s = 0, g = 0; for (int c = 0; c < C; ++c) { s += (double)at(m, c, r) * v[c]; g += std::fabs((double)at(m, c, r) * v[c]); } a.out->approx(s, g); } return true; }, &M::info, false, &CV::info, false);
		add_op(Rg, st_of<T>(), "vec * (mat first operand)", RD, [](Args &a) { put_new(a.out, RV::cget(a.obj[1]) * M::cget(a.obj[0])); },
			[](RefArgs &a) { auto m = in_<T>(a, 0), v = in_<T>(a, 1); if (!ok(m, N) || !ok(v, R)) return false; a.out->reltol = tol_of<T>;
				for (int c = 0; c < C; ++c) { double s = 0, g = 0; for (int r = 0; r < R; ++r) { s += (double)at(m, c, r) * v[r]; g += std::fabs((double)at(m, c, r) * v[r]); } a.out->approx(s, g); } return true; }, &M::info, false, &RV::info, false);
		// v = m * v style update of a visible vector
		if constexpr (C == R)
			add_op(Rg, st_of<T>(), "v = m * v:", WR | F_APPROXW, [](Args &a) { auto &v = CV::get(a.obj[1]); v = M::cget(a.obj[0]) * v; },
				[](RefArgs &a) { auto m = in_<T>(a, 0), v = in_<T>(a, 1); if (!ok(m, N) || !ok(v, C)) return false; a.out->reltol = tol_of<T>;
					for (int r = 0; r < R; ++r) { double s = 0; for (int c = 0; c < C; ++c) s += (double)at(m, c, r) * v[c]; if (std::fabs(s) > 1e4) return false; w_<T>(a, 1)[r] = (T)s; } return true; }, &M::info, false, &CV::info, true);
	}
	template <int I> static void column(Registry &Rg)
	{
		static constexpr FormInfo ci = [] { FormInfo f{K_M, C, R, R, {}, "[c]"}; for (int r = 0; r < R; ++r) f.idx[r] = (uint8_t)(I * R + r); return f; }();
		add_op(Rg, st_of<T>(), "= imm (one column)", WR | F_PART, [](Args &a) { mat &m = M::get(a.obj[0]); dsga::basic_vector<T, R> v{}; for (int r = 0; r < R; ++r) v[r] = imm_<T>(a)[r]; m[I] = v; },
			[](RefArgs &a) { for (int r = 0; r < R; ++r) w_<T>(a, 0)[r] = imm_<T>(a)[r]; return true; }, &ci, true);
		add_op(Rg, st_of<T>(), "*= scalar; via get<>/iterator", WR | F_PART | F_MULTI | F_ITER, [](Args &a) { mat &m = M::get(a.obj[0]); if (a.ii[0] & 1) dsga::get<I>(m) += imm_<T>(a)[0]; else m.begin()[I] += imm_<T>(a)[0]; *(m.data() + I) -= imm_<T>(a)[1]; },
			[](RefArgs &a) { for (int r = 0; r < R; ++r) { if (!small(in_<T>(a, 0)[r])) return false; T v = in_<T>(a, 0)[r] + imm_<T>(a)[0]; w_<T>(a, 0)[r] = v - imm_<T>(a)[1]; } return true; }, &ci, true);
		static constexpr FormInfo si = [] { FormInfo f{K_M, C, R, 2, {}, "[c].yx"}; f.idx[0] = (uint8_t)(I * R + 1); f.idx[1] = (uint8_t)(I * R); return f; }();
		add_op(Rg, st_of<T>(), "= imm (column swizzle)", WR | F_PART, [](Args &a) { mat &m = M::get(a.obj[0]); m[I].yx = dsga::basic_vector<T, 2>(imm_<T>(a)[0], imm_<T>(a)[1]); },
			[](RefArgs &a) { for (int r = 0; r < 2; ++r) w_<T>(a, 0)[r] = imm_<T>(a)[r]; return true; }, &si, true);
		static constexpr FormInfo ei = [] { FormInfo f{K_M, C, R, 1, {}, "[c][r]"}; f.idx[0] = (uint8_t)(I * R + R - 1); return f; }();
		add_op(Rg, st_of<T>(), "+= imm (one element)", WR | F_PART, [](Args &a) { mat &m = M::get(a.obj[0]); m[I][R - 1] += imm_<T>(a)[0]; },
			[](RefArgs &a) { if (!small(in_<T>(a, 0)[0])) return false; w_<T>(a, 0)[0] = in_<T>(a, 0)[0] + imm_<T>(a)[0]; return true; }, &ei, true);
	}
	template <int C2> static void product(Registry &Rg)     // (C x R) * (C2 x C)
	{
		using M2 = MatForm<T, C2, C>;
		add_op(Rg, st_of<T>(), "* mat", RD, [](Args &a) { put_new(a.out, M::cget(a.obj[0]) * M2::cget(a.obj[1])); },
			[](RefArgs &a) { auto p = in_<T>(a, 0), q = in_<T>(a, 1); if (!ok(p, N) || !ok(q, C * C2)) return false; a.out->reltol = tol_of<T>;
				for (int c = 0; c < C2; ++c) for (int r = 0; r < R; ++r) { double s = 0, g = 0; for (int k = 0; k < C; ++k) { double t = (double)at(p, k, r) * q[c * C + k]; s += t; g += std::fabs(t); } a.out->approx(s, g); } return true; }, &M::info, false, &M2::info, false);
	}
	template <int C2, int R2> static void resize(Registry &Rg)
	{
		using M2 = MatForm<T, C2, R2>;
		if constexpr (C2 != C || R2 != R)
			add_op(Rg, st_of<T>(), "= resize-construct from", WR | F_CONV, [](Args &a) { M::get(a.obj[0]) = mat(M2::cget(a.obj[1])); },
				[](RefArgs &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) w_<T>(a, 0)[c * R + r] = c < C2 && r < R2 ? in_<T>(a, 1)[c * R2 + r] : (C == R && c == r) ? T(1) : T(0); return true; }, &M::info, true, &M2::info, false);
	}
	static long double det(const T *m, int n, unsigned rows, int c)
	{
		if (c == n) return 1;
		long double s = 0; int sg = 1;
		for (int r = 0; r < n; ++r) if (rows >> r & 1) { s += sg * (long double)m[c * n + r] * det(m, n, rows & ~(1u << r), c + 1); sg = -sg; }
		return s;
	}
	static long double minor_(const T *m, int n, int cc, int rr)
	{
		T t[9]; int k = 0;
		for (int c = 0; c < n; ++c) if (c != cc) for (int r = 0; r < n; ++r) if (r != rr) t[k++] = m[c * n + r];
		return det(t, n - 1, (1u << (n - 1)) - 1, 0);
	}
	static double mag(const T *m) { double g = 1; for (int c = 0; c < C; ++c) { double s = 0; for (int r = 0; r < R; ++r) s += std::fabs((double)m[c * R + r]); g *= s; } return g; }
	static void square(Registry &Rg)
	{
		add_op(Rg, st_of<T>(), "determinant", RD | F_FUNC, [](Args &a) { a.out->put(fn::determinant(M::cget(a.obj[0]))); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); if (!ok(m, N)) return false; a.out->reltol = tol_of<T>; a.out->approx((double)det(m, C, (1u << C) - 1, 0), mag(m)); return true; }, &M::info);
		add_op(Rg, st_of<T>(), "inverse", RD | F_FUNC, [](Args &a) { put_new(a.out, fn::inverse(M::cget(a.obj[0]))); },
			[](RefArgs &a) { auto m = in_<T>(a, 0); if (!ok(m, N)) return false; a.out->reltol = 100 * tol_of<T>; long double d = det(m, C, (1u << C) - 1, 0); double g = mag(m);
				if (std::fabs((double)d) < 1e-3 * g || g < 1e-3) return false;
				for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) a.out->approx((double)(((c + r) & 1 ? -1 : 1) * minor_(m, C, r, c) / d), g / std::fabs((double)d)); return true; }, &M::info);
		add_op(Rg, st_of<T>(), "= self * other", WR | F_APPROXW, [](Args &a) { mat &m = M::get(a.obj[0]); m = m * M::cget(a.obj[1]); },
			[](RefArgs &a) { auto p = in_<T>(a, 0), q = in_<T>(a, 1); if (!ok(p, N) || !ok(q, N)) return false; a.out->reltol = tol_of<T>;
				for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) { double s = 0; for (int k = 0; k < C; ++k) s += (double)at(p, k, r) * q[c * R + k]; if (std::fabs(s) > 1e4) return false; w_<T>(a, 0)[c * R + r] = (T)s; } return true; }, &M::info, true, &M::info, false);
		add_op(Rg, st_of<T>(), "= transpose(self)", WR, [](Args &a) { mat &m = M::get(a.obj[0]); m = fn::transpose(m); },
			[](RefArgs &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) w_<T>(a, 0)[c * R + r] = at(in_<T>(a, 0), r, c); return true; }, &M::info, true);
		add_op(Rg, st_of<T>(), "= mat(scalar) diagonal", WR | F_CONV, [](Args &a) { M::get(a.obj[0]) = mat(imm_<T>(a)[0]); },
			[](RefArgs &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < R; ++r) w_<T>(a, 0)[c * R + r] = c == r ? imm_<T>(a)[0] : T(0); return true; }, &M::info, true);
		add_op(Rg, st_of<T>(), "diagonal_matrix:", RD | F_FUNC, [](Args &a) { put_new(a.out, fn::diagonal_matrix(Whole<K_V, T, C>::cget(a.obj[0]))); },
			[](RefArgs &a) { for (int c = 0; c < C; ++c) for (int r = 0; r < C; ++r) a.out->put(c == r ? in_<T>(a, 0)[c] : T(0)); return true; }, &Whole<K_V, T, C>::info);
		if constexpr (C == 3)
			add_op(Rg, st_of<T>(), "cross_matrix:", RD | F_FUNC, [](Args &a) { put_new(a.out, fn::cross_matrix(Whole<K_W, T, 3>::cget(a.obj[0]))); },
				[](RefArgs &a) { auto v = in_<T>(a, 0); T e[9] = {T(0), v[2], T(-v[1]), T(-v[2]), T(0), v[0], v[1], T(-v[0]), T(0)}; for (T x : e) a.out->put(x); return true; }, &Whole<K_W, T, 3>::info);
	}
};
