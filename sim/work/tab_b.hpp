// Table B: assignment, compound assignment, increment/decrement, unary and binary operators
// over representative operand forms.
#pragma once
#include "forms.hpp"

template <class T> constexpr bool is_i = std::is_integral_v<T> && !std::is_same_v<T, bool>;

#include "tab_b_ops.inc"

// reference models, independent of the operand forms
template <class T, int n, int m, class Op> bool ref_cmpd(RefArgs &a)     // in1 has m components (n or 1)
{
	for (int i = 0; i < n; ++i)
		if (!Op::template el<T>(in_<T>(a, 0)[i], in_<T>(a, 1)[m == 1 ? 0 : i], w_<T>(a, 0)[i])) return false;
	a.out->put(true);
	return true;
}
template <class T, int n, class Op> bool ref_cmpd_imm(RefArgs &a)
{
	for (int i = 0; i < n; ++i)
		if (!Op::template el<T>(in_<T>(a, 0)[i], imm_<T>(a)[0], w_<T>(a, 0)[i])) return false;
	a.out->put(true);
	return true;
}
template <class T, int n, int m, class Op> bool ref_cmpd_elref(RefArgs &a)
{
	T s = in_<T>(a, 1)[(unsigned)a.ii[0] % m];
	for (int i = 0; i < n; ++i)
		if (!Op::template el<T>(in_<T>(a, 0)[i], s, w_<T>(a, 0)[i])) return false;
	a.out->put(true);
	return true;
}
template <class T, int n> bool ref_asg(RefArgs &a)
{
	for (int i = 0; i < n; ++i) w_<T>(a, 0)[i] = in_<T>(a, 1)[i];
	a.out->put(true);
	return true;
}
template <class T, int n, int l, int r, class Op> bool ref_bin(RefArgs &a)
{
	for (int i = 0; i < n; ++i)
	{
		T x;
		if (!Op::template el<T>(in_<T>(a, 0)[l == 1 ? 0 : i], in_<T>(a, 1)[r == 1 ? 0 : i], x)) return false;
		a.out->put(x);
	}
	return true;
}
// integer promotion note: for T narrower than int nothing here applies (bool is excluded)
template <class T, int n, bool immleft, class Op> bool ref_bin_imm(RefArgs &a)
{
	for (int i = 0; i < n; ++i)
	{
		T x, p = in_<T>(a, 0)[i], q = imm_<T>(a)[0];
		if (!Op::template el<T>(immleft ? q : p, immleft ? p : q, x)) return false;
		a.out->put(x);
	}
	return true;
}

template <class T> struct TabB
{
	using OpsI = FList<OpAdd, OpSub, OpMul, OpDiv, OpMod, OpShl, OpShr, OpAnd, OpOr, OpXor>;
	using OpsF = FList<OpAdd, OpSub, OpMul, OpDiv>;
	using Ops = std::conditional_t<is_i<T>, OpsI, OpsF>;

	template <class DF, class SF> static constexpr bool same_view_object =
		// C++ level: whole = whole of the same view type is deliberately deleted; for swizzles of
		// basic_vector it is the call class in known_findings.txt
		std::is_same_v<std::remove_cvref_t<decltype(DF::get(nullptr))>, std::remove_cvref_t<decltype(SF::get(nullptr))>>;

	template <class DF, class SF> static void assign(Registry &R)
	{
		using D = std::remove_reference_t<decltype(DF::get(nullptr))>;
		using S = std::remove_reference_t<decltype(SF::cget(nullptr))>;
		constexpr bool same = same_view_object<DF, SF>;
		constexpr bool swizzle = DF::info.acc[0] != 0;
		if constexpr (std::is_assignable_v<D &, const S &>)      // view = view of one type is deleted by design
			if constexpr (!(same && swizzle))                     // same-swizzle copy assignment: see known_findings.txt
			{
				add_op(R, st_of<T>(), "=", F_WRITE | F_PART | (same && DF::K == K_Y ? F_OBJW : 0), [](Args &a) {
					auto &d = DF::get(a.obj[0]); const auto &s = SF::cget(a.obj[1]);
					auto &r = (d = s);
					a.out->put((const void *)&r == (const void *)&d);
				}, ref_asg<T, DF::n>, &DF::info, true, &SF::info, false);
			}
	}
	template <class Op, class DF, class SF> static void cmpd(Registry &R)
	{
		add_op(R, st_of<T>(), Op::nm, F_WRITE | F_CMPD, [](Args &a) {
			auto &d = DF::get(a.obj[0]); const auto &s = SF::cget(a.obj[1]);
			auto &r = Op::asg(d, s);
			a.out->put((const void *)&r == (const void *)&d);
		}, ref_cmpd<T, DF::n, SF::n, Op>, &DF::info, true, &SF::info, false);
	}
	template <class Op, class DF> static void cmpd_scalar(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Op::nm) + " scalar").c_str(), F_WRITE | F_CMPD, [](Args &a) {
			auto &d = DF::get(a.obj[0]);
			auto &r = Op::asg(d, imm_<T>(a)[0]);
			a.out->put((const void *)&r == (const void *)&d);
		}, ref_cmpd_imm<T, DF::n, Op>, &DF::info, true);
	}
	// scalar operand that is a reference to a component of some (possibly the same) object
	template <class Op, class DF, class SF> static void cmpd_elref(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Op::nm) + " component-of").c_str(), F_WRITE | F_CMPD, [](Args &a) {
			auto &d = DF::get(a.obj[0]); const auto &s = SF::cget(a.obj[1]);
			auto &r = Op::asg(d, s[(unsigned)a.ii[0] % SF::n]);
			a.out->put((const void *)&r == (const void *)&d);
		}, ref_cmpd_elref<T, DF::n, SF::n, Op>, &DF::info, true, &SF::info, false);
	}
	template <class DF> static void incdec(Registry &R)
	{
		static constexpr int n = DF::n;
		add_op(R, st_of<T>(), "++pre", F_WRITE | F_CMPD, [](Args &a) { auto &d = DF::get(a.obj[0]); auto &r = ++d; a.out->put((const void *)&r == (const void *)&d); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) if (!OpAdd::el<T>(in_<T>(a, 0)[i], T(1), w_<T>(a, 0)[i])) return false; a.out->put(true); return true; }, &DF::info, true);
		add_op(R, st_of<T>(), "--pre", F_WRITE | F_CMPD, [](Args &a) { auto &d = DF::get(a.obj[0]); auto &r = --d; a.out->put((const void *)&r == (const void *)&d); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) if (!OpSub::el<T>(in_<T>(a, 0)[i], T(1), w_<T>(a, 0)[i])) return false; a.out->put(true); return true; }, &DF::info, true);
		add_op(R, st_of<T>(), "post++", F_WRITE | F_CMPD, [](Args &a) { auto &d = DF::get(a.obj[0]); put_new(a.out, d++); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) { if (!OpAdd::el<T>(in_<T>(a, 0)[i], T(1), w_<T>(a, 0)[i])) return false; a.out->put(in_<T>(a, 0)[i]); } return true; }, &DF::info, true);
		add_op(R, st_of<T>(), "post--", F_WRITE | F_CMPD, [](Args &a) { auto &d = DF::get(a.obj[0]); put_new(a.out, d--); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) { if (!OpSub::el<T>(in_<T>(a, 0)[i], T(1), w_<T>(a, 0)[i])) return false; a.out->put(in_<T>(a, 0)[i]); } return true; }, &DF::info, true);
	}
	template <class SF> static void unary(Registry &R)
	{
		static constexpr int n = SF::n;
		add_op(R, st_of<T>(), "unary+", F_READ, [](Args &a) { put_new(a.out, +SF::cget(a.obj[0])); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(T(+in_<T>(a, 0)[i])); return true; }, &SF::info);
		add_op(R, st_of<T>(), "unary-", F_READ, [](Args &a) { put_new(a.out, -SF::cget(a.obj[0])); },
			[](RefArgs &a) { for (int i = 0; i < n; ++i) { T x; if constexpr (is_i<T>) { if constexpr (std::is_unsigned_v<T>) x = T(T(0) - in_<T>(a, 0)[i]); else if (!OpSub::el<T>(T(0), in_<T>(a, 0)[i], x)) return false; } else x = -in_<T>(a, 0)[i]; a.out->put(x); } return true; }, &SF::info);
		if constexpr (is_i<T>)
			add_op(R, st_of<T>(), "unary~", F_READ, [](Args &a) { put_new(a.out, ~SF::cget(a.obj[0])); },
				[](RefArgs &a) { for (int i = 0; i < n; ++i) a.out->put(T(~in_<T>(a, 0)[i])); return true; }, &SF::info);
	}
	template <class Op, class LF, class RF> static void binary(Registry &R)
	{
		constexpr int n = LF::n > RF::n ? LF::n : RF::n;
		add_op(R, st_of<T>(), Op::bn, F_READ, [](Args &a) { put_new(a.out, Op::bin(LF::cget(a.obj[0]), RF::cget(a.obj[1]))); },
			ref_bin<T, n, LF::n, RF::n, Op>, &LF::info, false, &RF::info, false);
	}
	template <class Op, class LF> static void binary_scalar(Registry &R)
	{
		add_op(R, st_of<T>(), (std::string(Op::bn) + " scalar").c_str(), F_READ, [](Args &a) { put_new(a.out, Op::bin(LF::cget(a.obj[0]), imm_<T>(a)[0])); },
			ref_bin_imm<T, LF::n, false, Op>, &LF::info);
		add_op(R, st_of<T>(), (std::string(Op::bn) + " scalar-left").c_str(), F_READ, [](Args &a) { put_new(a.out, Op::bin(imm_<T>(a)[0], LF::cget(a.obj[0]))); },
			ref_bin_imm<T, LF::n, true, Op>, &LF::info);
	}

	// the tables, split so that translation units stay small
	template <int n> static void reg_assign(Registry &R)
	{
		for_forms(typename Forms<T, n>::dst{}, [&]<class DF>() {
			for_forms(typename Forms<T, n>::src{}, [&]<class SF>() { assign<DF, SF>(R); });
			if constexpr (!std::is_same_v<T, bool>) incdec<DF>(R);
		});
		if constexpr (!std::is_same_v<T, bool>) for_forms(typename Forms<T, n>::src{}, [&]<class SF>() { unary<SF>(R); });
	}
	template <int n, class OpL, bool full = false> static void reg_cmpd(Registry &R)
	{
		for_forms(OpL{}, [&]<class Op>() {
			for_forms(typename FormsL<T, n, full>::dst{}, [&]<class DF>() {
				for_forms(typename FormsL<T, n, full>::src{}, [&]<class SF>() { cmpd<Op, DF, SF>(R); });
				if constexpr (n > 1) for_forms(Src1<T, full>{}, [&]<class SF>() { cmpd<Op, DF, SF>(R); });
				cmpd_scalar<Op, DF>(R);
				if constexpr (DF::S > 1) cmpd_elref<Op, DF, Whole<DF::K, T, DF::S>>(R);
				if constexpr (full) cmpd_elref<Op, DF, Whole<K_W, T, 2>>(R);
			});
		});
	}
	template <int n, class OpL, bool full = false> static void reg_bin(Registry &R)
	{
		for_forms(OpL{}, [&]<class Op>() {
			for_forms(typename FormsL<T, n, full>::src{}, [&]<class LF>() {
				binary<Op, LF, Whole<K_V, T, n>>(R);
				if constexpr (n == 4) binary<Op, LF, Form<K_W, T, 4, A_wzyx>>(R);
				if constexpr (n == 3) binary<Op, LF, Form<K_W, T, 4, A_zxy>>(R);
				if constexpr (n == 2) binary<Op, LF, Form<K_V, T, 4, A_wx>>(R);
				if constexpr (n > 1) { binary<Op, LF, Form<K_V, T, 3, A_y>>(R); binary<Op, Form<K_W, T, 4, A_z>, LF>(R); }
				binary_scalar<Op, LF>(R);
			});
		});
	}
};
