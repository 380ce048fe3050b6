struct OpAdd {
	static constexpr const char *nm = "+="; static constexpr const char *bn = "+"; static constexpr bool fp = true;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d += s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d + s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = (W)((unsigned __int128)x + (unsigned __int128)y); if (std::is_signed_v<T> && !fits<T>(z)) return false; r = (T)z; }
		else { r = a + b; }
		return true;
	}
};
struct OpSub {
	static constexpr const char *nm = "-="; static constexpr const char *bn = "-"; static constexpr bool fp = true;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d -= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d - s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = (W)((unsigned __int128)x - (unsigned __int128)y); if (std::is_signed_v<T> && !fits<T>(z)) return false; r = (T)z; }
		else { r = a - b; }
		return true;
	}
};
struct OpMul {
	static constexpr const char *nm = "*="; static constexpr const char *bn = "*"; static constexpr bool fp = true;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d *= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d * s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = (W)((unsigned __int128)x * (unsigned __int128)y); if (std::is_signed_v<T> && !fits<T>(z)) return false; r = (T)z; }
		else { r = a * b; }
		return true;
	}
};
struct OpDiv {
	static constexpr const char *nm = "/="; static constexpr const char *bn = "/"; static constexpr bool fp = true;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d /= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d / s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(y != 0)) return false; W z = (x / y); if (!fits<T>(z)) return false; r = (T)z; }
		else { r = a / b; }
		return true;
	}
};
struct OpMod {
	static constexpr const char *nm = "%="; static constexpr const char *bn = "%"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d %= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d % s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(y != 0 && fits<T>(x / y))) return false; W z = (x % y); if (!fits<T>(z)) return false; r = (T)z; }
		else { return false; }
		return true;
	}
};
struct OpShl {
	static constexpr const char *nm = "<<="; static constexpr const char *bn = "<<"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d <<= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d << s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(y >= 0 && y < (int)sizeof(T) * 8)) return false; r = (T)((unsigned __int128)x << (int)y); }
		else { return false; }
		return true;
	}
};
struct OpShr {
	static constexpr const char *nm = ">>="; static constexpr const char *bn = ">>"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d >>= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d >> s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(y >= 0 && y < (int)sizeof(T) * 8)) return false; W z = (x >> (int)y); if (!fits<T>(z)) return false; r = (T)z; }
		else { return false; }
		return true;
	}
};
struct OpAnd {
	static constexpr const char *nm = "&="; static constexpr const char *bn = "&"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d &= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d & s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = ((T)((T)x & (T)y)); if (!fits<T>(z)) return false; r = (T)z; }
		else { return false; }
		return true;
	}
};
struct OpOr {
	static constexpr const char *nm = "|="; static constexpr const char *bn = "|"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d |= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d | s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = ((T)((T)x | (T)y)); if (!fits<T>(z)) return false; r = (T)z; }
		else { return false; }
		return true;
	}
};
struct OpXor {
	static constexpr const char *nm = "^="; static constexpr const char *bn = "^"; static constexpr bool fp = false;
	template <class D, class S> static auto &asg(D &d, const S &s) { return d ^= s; }
	template <class D, class S> static decltype(auto) bin(const D &d, const S &s) { return d ^ s; }
	template <class T> static bool el(T a, T b, T &r)
	{
		if constexpr (std::is_integral_v<T>) { using W = __int128; W x = a, y = b; (void)x; (void)y; if (!(true)) return false; W z = ((T)((T)x ^ (T)y)); if (!fits<T>(z)) return false; r = (T)z; }
		else { return false; }
		return true;
	}
};
