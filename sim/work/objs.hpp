// Object types: construction, rebinding, copying (always the real library code).
#pragma once
#include "common.hpp"

template <Kind K, class T, int S> void reg_obj(Registry &R)
{
	using X = typename obj_of<K, T, S>::type;
	ObjVT v{};
	v.t = ObjT{K, (uint8_t)S, 0};
	v.st = st_of<T>();
	v.size = sizeof(X);
	v.align = alignof(X);
	if constexpr (K == K_W || K == K_C)
	{
		v.construct = [](void *m, void *b) { new (m) X(static_cast<T *>(b)); };
		v.reset = [](void *o, void *b) { static_cast<X *>(o)->reset(static_cast<T *>(b)); };
	}
	else
	{
		v.construct = [](void *m, void *) { new (m) X(); };
		v.reset = nullptr;
	}
	v.comp = [](void *o, int i) -> void * { return const_cast<T *>(static_cast<const X *>(o)->data() + i); };
	v.copy_construct = [](void *m, void *s) { new (m) X(*static_cast<const X *>(s)); };
	v.move_construct = [](void *m, void *s) { new (m) X(std::move(*static_cast<X *>(s))); };
	v.destroy = [](void *o) { static_cast<X *>(o)->~X(); };
	R.objs.push_back(v);
}
template <class T, int C, int Rr> void reg_mat(Registry &R)
{
	using X = dsga::basic_matrix<T, C, Rr>;
	ObjVT v{};
	v.t = ObjT{K_M, (uint8_t)C, (uint8_t)Rr};
	v.st = st_of<T>();
	v.size = sizeof(X);
	v.align = alignof(X);
	v.construct = [](void *m, void *) { new (m) X(); };
	v.reset = nullptr;
	v.comp = [](void *o, int i) -> void * { return const_cast<T *>(static_cast<const X *>(o)->data()[i / Rr].data() + i % Rr); };
	v.copy_construct = [](void *m, void *s) { new (m) X(*static_cast<const X *>(s)); };
	v.move_construct = [](void *m, void *s) { new (m) X(std::move(*static_cast<X *>(s))); };
	v.destroy = [](void *o) { static_cast<X *>(o)->~X(); };
	R.objs.push_back(v);
}
template <class T> void reg_objs(Registry &R)
{
	[&]<int... I>(std::integer_sequence<int, I...>) {
		(reg_obj<K_V, T, I + 1>(R), ...); (reg_obj<K_W, T, I + 1>(R), ...); (reg_obj<K_C, T, I + 1>(R), ...); (reg_obj<K_Y, T, I + 1>(R), ...);
	}(std::make_integer_sequence<int, 4>{});
	if constexpr (std::is_floating_point_v<T>)
		[&]<int... I>(std::integer_sequence<int, I...>) { (reg_mat<T, I / 3 + 2, I % 3 + 2>(R), ...); }(std::make_integer_sequence<int, 9>{});
}
