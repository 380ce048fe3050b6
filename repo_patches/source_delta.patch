From 8413f7589a309570335b5898c3e554c4ccf39854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 01/10] fix: let swizzle iterators move to the end position

begin() + length() and friends form the past-the-end iterator, which is a
valid position for a random access iterator; only dereferencing it is not.
---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..f31f855 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From 5ea03ce00e3433a9ec7a59b5108c15977d0e004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 02/10] fix: view_vector assignment from a vector that refers
 to its own storage

vv = vv.zyx copied component by component and read components that it had
already overwritten.
---
 include/dsga.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f31f855..a2d20cf 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5876,7 +5876,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other may refer to our own storage, so read all of it before writing
+			T values[Size]{};
+			std::copy(other.begin(), other.end(), values);
+			std::copy(values, values + Size, store);
 			return *this;
 		}
 
@@ -5884,7 +5887,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other may refer to our own storage, so read all of it before writing
+			T values[Size]{};
+			std::copy(other.begin(), other.end(), values);
+			std::copy(values, values + Size, store);
 			return *this;
 		}
 	};
-- 
2.43.0


From f44ea90c0974c0ee4ec27981e26c2e28243b5d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 03/10] fix: modf() when the integer part is stored over the
 argument

modf(v, v) subtracted the already overwritten integer part from itself and
returned zero.
---
 include/dsga.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index a2d20cf..26872de 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7768,12 +7768,12 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// i may refer to the same storage as arg, so it is written last
+			const basic_vector<T, C> whole(trunc(arg));
+			const auto fraction = machinery::apply_unitype_make(arg, whole, modf_op);
+			i.as_derived() = whole;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From decd3964740dd492dac82c80496c98af9dfa6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 04/10] fix: swap() of view_wrappers may throw

view_wrapper::swap() throws std::range_error for overlapping views; calling it
through the noexcept free function terminated the program instead.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 26872de..437adab 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2037,7 +2037,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From 035241557c43a7df36720434bab912da3d78d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 05/10] fix: abs() of negative infinity

Infinities were returned unchanged, so abs(-inf) was -inf.
---
 include/dsga.hxx | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 437adab..8e279a3 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1294,9 +1294,6 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
-					return value;
-
 				return relaxed::abs(value);
 			}
 
@@ -1313,9 +1310,6 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
-					return value;
-
 				return relaxed::fabs(value);
 			}
 
-- 
2.43.0


From b8394542831e3c7789111421d5dce5a7c116811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 06/10] fix: compare 64-bit integers exactly in lessThan() and
 its relatives

---
 include/dsga.hxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8e279a3..1408373 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7014,7 +7014,10 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			if constexpr (std::integral<T>)
+				return x < y;			// conversion to double is lossy for 64-bit integers
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7033,7 +7036,10 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			if constexpr (std::integral<T>)
+				return x <= y;			// conversion to double is lossy for 64-bit integers
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7052,7 +7058,10 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			if constexpr (std::integral<T>)
+				return x > y;			// conversion to double is lossy for 64-bit integers
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7071,7 +7080,10 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			if constexpr (std::integral<T>)
+				return x >= y;			// conversion to double is lossy for 64-bit integers
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From 3d025655c99e00d22d8d6296861203a1d22a59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 07/10] fix: shift() by the most negative count

Negating INT_MIN overflows, so the clamped count came out negative, and
std::shift_right() with it accessed memory far outside the vector.  Compare
before negating.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 1408373..8d38bbe 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2202,7 +2202,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;			// negating the smallest int would overflow
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From 7a1dacb47722d215cacc2d07e10145d5f7170481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 08/10] fix: copies and assignment of a view_vector after
 reset()

---
 include/dsga.hxx | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8d38bbe..89abbe4 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5811,11 +5811,11 @@ namespace dsga
 
 		constexpr view_vector(const view_vector &v) noexcept : basic_view<Mutable, T, Size>(store)
 		{
-			std::copy(v.store, v.store + Size, store);
+			std::copy(v.begin(), v.end(), store);
 		}
 		constexpr view_vector(view_vector &&v) noexcept : basic_view<Mutable, T, Size>(store)
 		{
-			std::copy(v.store, v.store + Size, store);
+			std::copy(v.begin(), v.end(), store);
 		}
 
 		template <typename U>
@@ -5857,12 +5857,18 @@ namespace dsga
 
 		constexpr view_vector & operator =(const view_vector &v) & noexcept requires Writable && Mutable
 		{
-			std::copy(v.store, v.store + Size, store);
+			// v may have been reset() to overlapping data, so read all of it before writing
+			T values[Size]{};
+			std::copy(v.begin(), v.end(), values);
+			std::copy(values, values + Size, this->begin());
 			return *this;
 		}
 		constexpr view_vector & operator =(view_vector &&v) & noexcept requires Writable && Mutable
 		{
-			std::copy(v.store, v.store + Size, store);
+			// v may have been reset() to overlapping data, so read all of it before writing
+			T values[Size]{};
+			std::copy(v.begin(), v.end(), values);
+			std::copy(values, values + Size, this->begin());
 			return *this;
 		}
 
@@ -5870,10 +5876,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			// other may refer to our own storage, so read all of it before writing
+			// other may refer to our own data, so read all of it before writing
 			T values[Size]{};
 			std::copy(other.begin(), other.end(), values);
-			std::copy(values, values + Size, store);
+			std::copy(values, values + Size, this->begin());
 			return *this;
 		}
 
@@ -5881,10 +5887,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			// other may refer to our own storage, so read all of it before writing
+			// other may refer to our own data, so read all of it before writing
 			T values[Size]{};
 			std::copy(other.begin(), other.end(), values);
-			std::copy(values, values + Size, store);
+			std::copy(values, values + Size, this->begin());
 			return *this;
 		}
 	};
-- 
2.43.0


From 24b594d7469a095bc0d8bce0727ec39e731066b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 09/10] fix: fract() of values too large for a fractional part
 is zero

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 89abbe4..2dbba05 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1042,9 +1042,9 @@ namespace dsga
 				template <std::floating_point T>
 				constexpr T constexpr_fract(T value) noexcept
 				{
-					// screen out unnecessary input
+					// screen out unnecessary input, values too large for a fractional part don't have one
 					if (fails_fractional_input_constraints(value))
-						return value;
+						return isfinite(value) ? T(0) : value;
 
 					return relaxed::fract(value);
 				}
-- 
2.43.0


From 3e7633baddf3a52498dd479b448162d61af7f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 10/10] fix: roundEven() of values just below one half is zero

---
 include/dsga.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 2dbba05..5f8b655 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -647,10 +647,10 @@ namespace dsga
 			{
 				T trunc_value = trunc(value);
 				bool is_even = (fmod(trunc_value, T(2)) == T(0));
-				bool is_halfway = (fract(value) == T(0.5));
+				T fraction = abs(value - trunc_value);
 
-				// the special case
-				if (is_halfway && is_even)
+				// the special cases, adding a half below would not be exact for values just under a half
+				if (fraction < T(0.5) || (fraction == T(0.5) && is_even))
 					return trunc_value;
 
 				// zero could be handled either place, but here it is with the negative values.
-- 
2.43.0

