From c7365b974e7446586dfbfe100c2690200c0ef860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 001/140] fix: do not take a random number generator for a seed
 sequence

Copying an engine (or a vector of engines) from a mutable lvalue selected the
seed-sequence constructor template and failed to compile.
---
 sprout/random/type_traits.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sprout/random/type_traits.hpp b/sprout/random/type_traits.hpp
index 5fe39c0..60c3506 100644
--- a/sprout/random/type_traits.hpp
+++ b/sprout/random/type_traits.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_RANDOM_TYPE_TRAITS_HPP
 
 #include <type_traits>
+#include <utility>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/has_xxx.hpp>
@@ -18,7 +19,29 @@ namespace sprout {
 		//
 		// is_seed_seq
 		//
-		SPROUT_HAS_XXX_TYPE_DEF(is_seed_seq, result_type);
+		namespace detail {
+			SPROUT_HAS_XXX_TYPE_DEF(has_result_type, result_type);
+
+			template<typename T, bool = sprout::random::detail::has_result_type<T>::value>
+			struct is_not_generator
+				: public sprout::false_type
+			{};
+			template<typename T>
+			struct is_not_generator<T, true> {
+			private:
+				template<typename U, typename = decltype(std::declval<U&>()())>
+				static char test(int);
+				template<typename U>
+				static long test(...);
+			public:
+				SPROUT_STATIC_CONSTEXPR bool value = sizeof(test<T>(0)) != sizeof(char);
+			};
+		}	// namespace detail
+		// unlike a random number generator, a seed sequence is not itself callable
+		template<typename T>
+		struct is_seed_seq
+			: public sprout::bool_constant<sprout::random::detail::is_not_generator<T>::value>
+		{};
 
 		//
 		// is_real_std_random_parameter
-- 
2.43.0


From 19299395d946520d0f516f8fd275c1545eea893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 002/140] fix: make the functional Mersenne twister step
 produce the standard sequence

In C++11 mode the const operator() shifted only the lower half of the joined
word, and made the later words of a block from the previous block, so it gave
another sequence than the mutable operator().
---
 sprout/random/mersenne_twister.hpp | 90 +++++++-----------------------
 1 file changed, 20 insertions(+), 70 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..9738f01 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -16,6 +16,7 @@
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/array/array.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
 namespace sprout {
@@ -295,82 +296,31 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
+			SPROUT_CONSTEXPR result_type twist_at_1(result_type x0, result_type x1, result_type xm) const {
+				return xm ^ (((x0 & upper_mask) | (x1 & lower_mask)) >> 1) ^ ((x1 & 1) * a);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+			SPROUT_CONSTEXPR result_type twist_at(sprout::array<result_type, n> const& next, std::size_t i) const {
+				return twist_at_1(
+					x_[i],
+					i + 1 < n ? x_[i + 1] : next[0],
+					i < n - m ? x_[i + m] : next[i - (n - m)]
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
+			template<sprout::index_t... Indexes>
+			SPROUT_CONSTEXPR sprout::array<result_type, n>
+			twist_2(sprout::array<result_type, n> const& next, sprout::index_tuple<Indexes...>) const {
+				return sprout::array<result_type, n>{{twist_at(next, Indexes)...}};
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
+			// each pass settles n - m more words of the next block, which the following words are made from
+			SPROUT_CONSTEXPR sprout::array<result_type, n>
+			twist_1(sprout::array<result_type, n> const& next, std::size_t settled) const {
+				return settled < n
+					? twist_1(twist_2(next, sprout::make_index_tuple<n>::make()), settled + (n - m))
+					: next
+					;
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return mersenne_twister_engine(twist_1(x_, 0), 0, private_construct_t());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From cfd5065f09e4d3ec93ff088ec1cb7e19f0272da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:29 +0000
Subject: [PATCH 003/140] fix: temper the functional Mersenne twister output
 step by step

Each tempering step of the C++11 const operator() was applied to the previous
step's increment instead of to its result.
---
 sprout/random/mersenne_twister.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 9738f01..c10e8aa 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -275,13 +275,13 @@ namespace sprout {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
-- 
2.43.0


From eb3aef66e30514a3f4301886c9a1d62f68fd7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 004/140] fix: write and compare the Mersenne twister state
 from correctly rewound words

operator<< printed data[0] and then the first i words instead of all n, and the
functional rewinding it used (too deep for gcc's default template depth) never
advanced; words rewound by operator== in a 64 bit type kept a 33rd bit.  The
C++11 operator== now compares against the twisted state of the engine that is
behind, which needs no rewinding.
---
 sprout/random/mersenne_twister.hpp | 174 +++--------------------------
 1 file changed, 15 insertions(+), 159 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index c10e8aa..8ba1b48 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -103,173 +103,29 @@ namespace sprout {
 			rewind_find(result_type const* last, std::size_t size, std::size_t i) const {
 				return rewind_find_1(last, size, (i + n - size + n - 1) % n);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const&, Args const&... args) const {
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const& data, Args const&... args) const {
-				return rewind_finish_1(data, args..., data[sizeof...(args)]);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return &data[0] + i == last - z
-					? rewind_finish_1(data, data[i], args...)
-					: rewind_finish(data, last, z, i + 1, data[i], args...)
-					;
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_2(
-					data, last, z, y1, i, (y0 & upper_mask) | (y1 & lower_mask),
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_4(
-					data, last, z, y0,
-					y1 & (static_cast<result_type>(1) << (w - 1))
-						? ((y1 ^ a) << 1) | 1
-						: y1 << 1
-						,
-					i,
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return i < z
-					? rewind_3(data, last, z, y0, rewind_find(last, i, m - 1) ^ rewind_find(last, i, n - 1), i, args...)
-					: rewind_finish(data, last, z, 0, args...)
-					;
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind_1(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0) const {
-				return rewind_2(
-					data,
-					last,
-					z,
-					y0 & (static_cast<result_type>(1) << (w - 1))
-						? ((y0 ^ a) << 1) | 1
-						: y0 << 1
-						,
-					0
-					);
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z) const {
-				return rewind_1(data, last, z, x_[m - 1] ^ x_[n - 1]);
-			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_2(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_2(mersenne_twister_engine const& next, std::size_t offset, std::size_t i = 0) const {
 				return i < offset
-					? back[i + n - offset] != other.x_[i]
+					? x_[i + n - offset] != next.x_[i]
 						? false
-						: equal_impl_2(other, back, offset, i + 1)
+						: equal_impl_2(next, offset, i + 1)
 					: true
 					;
 			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_1(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_1(mersenne_twister_engine const& other, std::size_t offset, std::size_t i = 0) const {
 				return i + offset < n
 					? x_[i] != other.x_[i + offset]
 						? false
-						: equal_impl_1(other, back, offset, i + 1)
-					: equal_impl_2(other, rewind(back, &back[n - 1], offset), offset)
+						: equal_impl_1(other, offset, i + 1)
+					: true
 					;
 			}
 			SPROUT_CONSTEXPR bool
 			equal_impl(mersenne_twister_engine const& other) const {
-				return equal_impl_1(other, sprout::array<result_type, n>(), other.i_ - i_);
+				return equal_impl_1(other, other.i_ - i_)
+					&& (other.i_ == i_ || equal_impl_2(other.twist(), other.i_ - i_))
+					;
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_4(result_type z) const {
 				return z ^ (z >> l);
@@ -355,16 +211,16 @@ namespace sprout {
 				UIntType const lower_mask = ~upper_mask;
 				UIntType y0 = x_[m - 1] ^ x_[n - 1];
 				if (y0 & (static_cast<UIntType>(1) << (w - 1))) {
-					y0 = ((y0 ^ a) << 1) | 1;
+					y0 = (((y0 ^ a) << 1) | 1) & static_max();
 				} else {
-					y0 = y0 << 1;
+					y0 = (y0 << 1) & static_max();
 				}
 				for (std::size_t sz = 0; sz < z; ++sz) {
 					UIntType y1 = rewind_find(last, sz, m - 1) ^ rewind_find(last, sz, n - 1);
 					if (y1 & (static_cast<UIntType>(1) << (w - 1))) {
-						y1 = ((y1 ^ a) << 1) | 1;
+						y1 = (((y1 ^ a) << 1) | 1) & static_max();
 					} else {
-						y1 = y1 << 1;
+						y1 = (y1 << 1) & static_max();
 					}
 					*(last - sz) = (y0 & upper_mask) | (y1 & lower_mask);
 					y0 = y1;
@@ -472,10 +328,10 @@ namespace sprout {
 					data[i + n - rhs.i_] = rhs.x_[i];
 				}
 				if (rhs.i_ != n) {
-					data = rhs.rewind(data, &data[n - rhs.i_ - 1], n - rhs.i_);
+					rhs.do_rewind(&data[n - rhs.i_ - 1], n - rhs.i_);
 				}
 				lhs << data[0];
-				for (std::size_t i = 0; i < rhs.i_; ++i) {
+				for (std::size_t i = 1; i < n; ++i) {
 					lhs << ' ' << data[i];
 				}
 				return lhs;
-- 
2.43.0


From c9fd600b9eec429fad0c1dd9741ffe825968fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 005/140] fix: restore a Mersenne twister all or nothing, and
 from text that ends at its last digit

operator>> wrote each word straight into the engine, so a truncated or damaged
text left a mixture; accepted words wider than the word size; and skipped
whitespace after the last word, which fails at the end of the stream.
---
 sprout/random/mersenne_twister.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 8ba1b48..cd72901 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -311,10 +311,21 @@ namespace sprout {
 				mersenne_twister_engine& rhs
 				)
 			{
-				for (std::size_t i = 0; i < state_size; ++i) {
-					lhs >> rhs.x_[i] >> std::ws;
+				sprout::array<result_type, n> data;
+				for (std::size_t i = 0; i < n; ++i) {
+					if (i != 0) {
+						lhs >> std::ws;
+					}
+					if (!(lhs >> data[i])) {
+						return lhs;
+					}
+					if (data[i] > static_max()) {
+						lhs.setstate(std::ios_base::failbit);
+						return lhs;
+					}
 				}
-				rhs.i_ = state_size;
+				rhs.x_ = data;
+				rhs.i_ = n;
 				return lhs;
 			}
 			template<typename Elem, typename Traits>
-- 
2.43.0


From aee27f56f013dc2d7458d971781a1932afba6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:25 +0000
Subject: [PATCH 006/140] fix: restore a shuffle-order engine all or nothing,
 and reject values outside its range

A truncated or damaged text left a mixture of old and new state, and an
out-of-range last value made the next draw index outside the table.
---
 sprout/random/shuffle_order.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sprout/random/shuffle_order.hpp b/sprout/random/shuffle_order.hpp
index 98dcc7d..6d8df7c 100644
--- a/sprout/random/shuffle_order.hpp
+++ b/sprout/random/shuffle_order.hpp
@@ -80,6 +80,9 @@ namespace sprout {
 				return base_type::static_max();
 			}
 		private:
+			static SPROUT_CONSTEXPR bool is_in_range(result_type x) {
+				return sprout::math::greater_equal(x, static_min()) && x <= static_max();
+			}
 			template<std::size_t M, typename EngineResult, typename... Args, sprout::index_t... Indexes>
 			static SPROUT_CONSTEXPR typename std::enable_if<
 				(M + sizeof...(Args) == k),
@@ -260,11 +263,25 @@ namespace sprout {
 				shuffle_order_engine& rhs
 				)
 			{
-				lhs >> rhs.rng_;
-				for (std::size_t i = 0; i < k; ++i) {
-					lhs >> std::ws >> rhs.v_[i];
+				base_type rng(rhs.rng_);
+				sprout::array<result_type, k> v;
+				result_type y;
+				lhs >> rng;
+				for (std::size_t i = 0; i < k && lhs; ++i) {
+					lhs >> std::ws >> v[i];
+					if (lhs && !is_in_range(v[i])) {
+						lhs.setstate(std::ios_base::failbit);
+					}
+				}
+				if (lhs >> std::ws >> y) {
+					if (is_in_range(y)) {
+						rhs.rng_ = rng;
+						rhs.v_ = v;
+						rhs.y_ = y;
+					} else {
+						lhs.setstate(std::ios_base::failbit);
+					}
 				}
-				lhs >> std::ws >> rhs.y_;
 				return lhs;
 			}
 			template<typename Elem, typename Traits>
-- 
2.43.0


From fcbe153a064b449729d721eacadc7b8dbe168e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:25 +0000
Subject: [PATCH 007/140] fix: leave combined and feedback-shift engines
 unchanged when restoring one fails

---
 sprout/random/additive_combine.hpp      |  8 +++++++-
 sprout/random/linear_feedback_shift.hpp | 10 +++++++++-
 sprout/random/xor_combine.hpp           |  8 +++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/sprout/random/additive_combine.hpp b/sprout/random/additive_combine.hpp
index 3f39309..6b4df6e 100644
--- a/sprout/random/additive_combine.hpp
+++ b/sprout/random/additive_combine.hpp
@@ -151,7 +151,13 @@ namespace sprout {
 				additive_combine_engine& rhs
 				)
 			{
-				return lhs >> rhs.mlcg1_ >> std::ws >> rhs.mlcg2_;
+				base1_type mlcg1(rhs.mlcg1_);
+				base2_type mlcg2(rhs.mlcg2_);
+				if (lhs >> mlcg1 >> std::ws >> mlcg2) {
+					rhs.mlcg1_ = mlcg1;
+					rhs.mlcg2_ = mlcg2;
+				}
+				return lhs;
 			}
 			template<typename Elem, typename Traits>
 			friend SPROUT_NON_CONSTEXPR std::basic_ostream<Elem, Traits>& operator<<(
diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index 13320e5..ba00a03 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -141,7 +141,15 @@ namespace sprout {
 				linear_feedback_shift_engine& rhs
 				)
 			{
-				return lhs >> rhs.x_;
+				result_type x;
+				if (lhs >> x) {
+					if (x <= static_max()) {
+						rhs.x_ = x;
+					} else {
+						lhs.setstate(std::ios_base::failbit);
+					}
+				}
+				return lhs;
 			}
 			template<typename Elem, typename Traits>
 			friend SPROUT_NON_CONSTEXPR std::basic_ostream<Elem, Traits>& operator<<(
diff --git a/sprout/random/xor_combine.hpp b/sprout/random/xor_combine.hpp
index cf63339..19145c5 100644
--- a/sprout/random/xor_combine.hpp
+++ b/sprout/random/xor_combine.hpp
@@ -136,7 +136,13 @@ namespace sprout {
 				xor_combine_engine& rhs
 				)
 			{
-				return lhs >> rhs.rng1_ >> std::ws >> rhs.rng2_;
+				base1_type rng1(rhs.rng1_);
+				base2_type rng2(rhs.rng2_);
+				if (lhs >> rng1 >> std::ws >> rng2) {
+					rhs.rng1_ = rng1;
+					rhs.rng2_ = rng2;
+				}
+				return lhs;
 			}
 			template<typename Elem, typename Traits>
 			friend SPROUT_NON_CONSTEXPR std::basic_ostream<Elem, Traits>& operator<<(
-- 
2.43.0


From b502ed984e492b639b4e333843d1e37d0fd7bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:25 +0000
Subject: [PATCH 008/140] fix: make random iterators and engine-only ranges
 incrementable

begin(engine) deduced an iterator over a const result (the functional draw returns const), whose ++ does not
compile, and make_range(engine) named an undeclared distribution in its return type.
---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From f1dfab1037fa60b1048f16729c7fd414d1819146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 009/140] fix: draw the high bits of the 48-bit congruential
 state

The state was cut to 32 bits before the shift, so rand48 drew 15-bit values of the sequence's middle bits.
---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..85c8ce8 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -325,7 +325,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -343,7 +343,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From 9fb864fb78b12d25e1c82c21723d5439c5c68c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 010/140] fix: variate_generator over references passes engine
 and distribution in order

---
 sprout/random/poisson_distribution.hpp | 3 +++
 sprout/random/variate_generator.hpp    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..54169f3 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -12,9 +12,12 @@
 #include <ostream>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
+#include <sprout/array/array.hpp>
 #include <sprout/cstdlib/abs.hpp>
 #include <sprout/math/abs.hpp>
+#include <sprout/math/exp.hpp>
 #include <sprout/math/log.hpp>
+#include <sprout/math/sqrt.hpp>
 #include <sprout/math/floor.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/random/uniform_01.hpp>
diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..e37978a 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 			>::type random_result_type;
 		private:
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::true_type) {
-				return random_result_type(g.distribution_(g.engine_), g.distribution_, g.engine_);
+				return random_result_type(g.distribution_(g.engine_), g.engine_, g.distribution_);
 			}
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::false_type) {
 				return g.distribution_(sprout::as_const(g.engine_));
-- 
2.43.0


From 16efa1f5ae8c3391d989a7f43c9a0c3fef815989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:18 +0000
Subject: [PATCH 011/140] fix: variate_generator includes the tag types it uses

---
 sprout/random/variate_generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index e37978a..0f3fd8f 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/random/detail/ptr_helper.hpp>
 #include <sprout/random/random_result_fwd.hpp>
+#include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/lvalue_reference.hpp>
 #include <sprout/utility/lvalue_forward.hpp>
 #include <sprout/utility/as_const.hpp>
-- 
2.43.0


From c48fc2db2fb7c8b308570dca61fc2d8426ff8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:18 +0000
Subject: [PATCH 012/140] fix: normal_distribution draws functionally with an
 explicit parameter set

---
 sprout/random/normal_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/normal_distribution.hpp b/sprout/random/normal_distribution.hpp
index 8739162..0ecd4dc 100644
--- a/sprout/random/normal_distribution.hpp
+++ b/sprout/random/normal_distribution.hpp
@@ -238,7 +238,7 @@ namespace sprout {
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, normal_distribution> const operator()(Engine const& eng, param_type const& parm) const {
-				return normal_distribution(parm)(eng);
+				return normal_distribution(parm).generate(eng);
 			}
 			template<typename Elem, typename Traits>
 			friend SPROUT_NON_CONSTEXPR std::basic_istream<Elem, Traits>& operator>>(
-- 
2.43.0


From 7cb5061e4517e8416afa5aa30bc7b0f3529f5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:18 +0000
Subject: [PATCH 013/140] fix: uniform_int_distribution draws functionally for
 narrow integers

---
 sprout/random/uniform_int_distribution.hpp | 64 ++++++++++++----------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..0d492f0 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -188,7 +188,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1<D + 1>(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<int D, typename EngineResult, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -210,11 +210,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
@@ -274,7 +276,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -339,8 +341,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -400,11 +402,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -562,7 +566,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -575,11 +579,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -615,7 +621,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -655,8 +661,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -697,11 +703,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From 8345ac0d54accd8e2a9b3f4e7a49999fe42ff19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:18 +0000
Subject: [PATCH 014/140] fix: binomial_distribution draws in place

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..61162b7 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = sprout::math::abs(static_cast<RealType>(k) - m_);
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From ee727bc1e9e0bbff1c06fc99e344ca16be3abf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 015/140] fix: distributions report their real parameters
 unrounded

---
 sprout/random/binomial_distribution.hpp  | 2 +-
 sprout/random/geometric_distribution.hpp | 2 +-
 sprout/random/poisson_distribution.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 61162b7..7c078cd 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -727,7 +727,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR result_type t() const SPROUT_NOEXCEPT {
 				return t_;
 			}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/geometric_distribution.hpp b/sprout/random/geometric_distribution.hpp
index 2f0afad..18c2028 100644
--- a/sprout/random/geometric_distribution.hpp
+++ b/sprout/random/geometric_distribution.hpp
@@ -114,7 +114,7 @@ namespace sprout {
 				: p_(parm.p())
 				, log_1mp_(init_log_1mp(parm.p()))
 			{}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 54169f3..e41a42e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -347,7 +347,7 @@ namespace sprout {
 				, ptrd_(init_ptrd(parm.mean()))
 				, exp_mean_(init_exp_mean(parm.mean()))
 			{}
-			SPROUT_CONSTEXPR result_type mean() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType mean() const SPROUT_NOEXCEPT {
 				return mean_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From ca9394d567579e24fa8a3b11f774742f20bc1be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 016/140] fix: uniform_int_distribution over sources of
 fractions

---
 sprout/random/detail/uniform_int_float.hpp | 6 +++---
 sprout/random/uniform_int_distribution.hpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/random/detail/uniform_int_float.hpp b/sprout/random/detail/uniform_int_float.hpp
index d9012f7..ae67e69 100644
--- a/sprout/random/detail/uniform_int_float.hpp
+++ b/sprout/random/detail/uniform_int_float.hpp
@@ -57,21 +57,21 @@ namespace sprout {
 					return (
 						result_type(2) << (
 							NS_SSCRISK_CEL_OR_SPROUT::min(
-								sprout::numeric_limits<result_type>::digits,
+								static_cast<std::size_t>(sprout::numeric_limits<result_type>::digits),
 								sprout::random::detail::generator_bits<base_type>::value()
 								) - 1
 							)
 						) - 1
 						;
 				}
-				base_type& base() {
+				SPROUT_CXX14_CONSTEXPR base_type& base() {
 					return rng_;
 				}
 				SPROUT_CONSTEXPR base_type const& base() const {
 					return rng_;
 				}
 				SPROUT_CXX14_CONSTEXPR result_type operator()() {
-					return static_cast<result_type>(static_cast<base_result>(rng_()) * static_cast<base_result>(max()) + 1);
+					return static_cast<result_type>(static_cast<base_result>(rng_()) * (static_cast<base_result>(max()) + 1));
 				}
 				SPROUT_CONSTEXPR sprout::random::random_result<uniform_int_float> const operator()() const {
 					return generate(rng_());
diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 0d492f0..c54edf1 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -117,7 +117,9 @@ namespace sprout {
 				)
 			{
 				sprout::random::detail::uniform_int_float<Engine> wrapper(eng);
-				return sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				T result = sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				eng = wrapper.base();
+				return result;
 			}
 			template<typename Engine, typename T>
 			inline SPROUT_CXX14_CONSTEXPR T
-- 
2.43.0


From dc45b95205877e5fbf5b50f87ae046906c87cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 017/140] fix: binomial_distribution's functional draw below
 the mode terminates

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 7c078cd..aafbd94 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -399,7 +399,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -585,7 +585,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From 98ed6fd1430c57ca83fc5b4162a92d6214e6e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 018/140] fix: poisson_distribution stops inverting when the
 rest is below rounding

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index e41a42e..c0e30f2 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -176,7 +176,7 @@ namespace sprout {
 				RealType u = sprout::random::uniform_01<RealType>()(eng);
 				IntType x = 0;
 				RealType p = exp_mean_;
-				while (u > p) {
+				while (u > p && u - p < u) {
 					u -= p;
 					++x;
 					p = p * mean_ / x;
@@ -185,7 +185,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> invert_2(Random const& rnd, RealType u, IntType x, RealType p) const {
-				return !(u > p) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
+				return !(u > p && u - p < u) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
 					: invert_2<Engine>(rnd, u - p, x + 1, p * mean_ / (x + 1))
 					;
 			}
-- 
2.43.0


From 822668a688abe2b9faff6c662973e09b0ec3c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 019/140] fix: binomial_distribution stops inverting at its
 last value or below rounding

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index aafbd94..fcbb09f 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -220,7 +220,7 @@ namespace sprout {
 				RealType r = q_n_;
 				RealType u = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng));
 				IntType x = 0;
-				while (u > r) {
+				while (u > r && x < t && u - r < u) {
 					u = u - r;
 					++x;
 					r = ((a / x) - s) * r;
@@ -299,7 +299,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			invert_4(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, IntType x = 0) const {
-				return u > r
+				return u > r && x < t_ && u - r < u
 					? invert_4(eng, u - r, q, s, a, ((a / (x + 1)) - s) * r, x + 1)
 					: sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
 					;
-- 
2.43.0


From 1a2173c482c3a4bd9bd822ee3af0f65925308e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 020/140] fix: poisson_distribution looks up logarithms of
 factorials below ten only

---
 sprout/random/poisson_distribution.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index c0e30f2..68d0cbd 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -220,7 +220,7 @@ namespace sprout {
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
 					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
 						return static_cast<IntType>(k);
@@ -239,7 +239,7 @@ namespace sprout {
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
 					;
@@ -294,7 +294,7 @@ namespace sprout {
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
 					;
-- 
2.43.0


From bea442f740e892846e2591708311a1d7b1b3c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 021/140] fix: poisson_distribution's functional draw scales
 the squeezed word

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 68d0cbd..a58055c 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -264,7 +264,7 @@ namespace sprout {
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType, RealType u) const {
-				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const&, RealType, RealType) const {
@@ -311,7 +311,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType v, RealType u) const {
-				return generate_2<Engine>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_2(Random const& rnd, RealType v) const {
-- 
2.43.0


From 2cc5b4323f2c36e8d5cde31bd9503a549a40dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:10 +0000
Subject: [PATCH 022/140] fix: binomial_distribution range-checks its candidate
 before narrowing it

---
 sprout/random/binomial_distribution.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index fcbb09f..3710076 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -246,10 +246,11 @@ namespace sprout {
 						v = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng)) * btrd_.v_r;
 					}
 					RealType us = RealType(0.5) - sprout::math::abs(u);
-					IntType k = static_cast<IntType>(sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c));
-					if (k < 0 || k > t_) {
+					RealType x = sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c);
+					if (x < 0 || x > t_) {
 						continue;
 					}
+					IntType k = static_cast<IntType>(x);
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
 					RealType km = sprout::math::abs(static_cast<RealType>(k) - m_);
 					if (km <= 15) {
@@ -453,21 +454,21 @@ namespace sprout {
 			}
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
-			generate_5(Engine const& eng, RealType v, RealType us, IntType k) const {
-				return k < 0 || k > t_
+			generate_5(Engine const& eng, RealType v, RealType us, RealType x) const {
+				return x < 0 || x > t_
 					? generate<D + 1>(eng)
-					: generate_6<D + 1>(eng, v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b), k, sprout::abs(k - m_))
+					: generate_6<D + 1>(eng, v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b), static_cast<IntType>(x), sprout::math::abs(x - m_))
 					;
 			}
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
-			generate_5(Engine const&, RealType, RealType, IntType) const {
+			generate_5(Engine const&, RealType, RealType, RealType) const {
 				return sprout::throw_recursive_function_template_instantiation_exeeded();
 			}
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_4(Engine const& eng, RealType v, RealType u, RealType us) const {
-				return generate_5<D + 1>(eng, v, us, static_cast<IntType>(sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c)));
+				return generate_5<D + 1>(eng, v, us, sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c));
 			}
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
@@ -619,16 +620,16 @@ namespace sprout {
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
-			generate_5(Engine const& eng, RealType v, RealType, RealType us, IntType k) const {
-				return k < 0 || k > t_
+			generate_5(Engine const& eng, RealType v, RealType, RealType us, RealType x) const {
+				return x < 0 || x > t_
 					? generate(eng)
-					: generate_6(eng, v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b), k, sprout::abs(k - m_))
+					: generate_6(eng, v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b), static_cast<IntType>(x), sprout::math::abs(x - m_))
 					;
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_4(Engine const& eng, RealType v, RealType u, RealType us) const {
-				return generate_5(eng, v, u, us, static_cast<IntType>(sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c)));
+				return generate_5(eng, v, u, us, sprout::math::floor((2 * btrd_.a / us + btrd_.b) * u + btrd_.c));
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
-- 
2.43.0


From 5212905e69a2a10e0b9847f1826b1d28871b66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:24 +0000
Subject: [PATCH 023/140] fix: generate_canonical scales the first word of a
 source of fractions

---
 sprout/random/generate_canonical.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 2b281b8..a0e6807 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 					RealType(2),
 					RealType(NS_SSCRISK_CEL_OR_SPROUT::min(bits, static_cast<std::size_t>(sprout::numeric_limits<RealType>::digits)))
 					);
-				RealType s = RealType(static_cast<base_result>(rng()) - rng.min());
+				RealType s = sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r);
 				RealType mult = r;
 				while (mult < limit) {
 					s += sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r) * mult;
@@ -176,12 +176,12 @@ namespace sprout {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return r < limit ? sprout::random::detail::generate_canonical_impl_0_1<RealType, bits, URNG>(
 						r, limit,
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()),
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r),
 						r,
 						rnd()
 						)
 					: pair_type(
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()) / r,
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r) / r,
 						sprout::random::next(rnd)
 						)
 					;
-- 
2.43.0


From 4cb92684686a171e7eea372238be0006d9447c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:30 +0000
Subject: [PATCH 024/140] fix: the functional generate_canonical rounds one
 down, not zero

---
 sprout/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index a0e6807..09c2be2 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 0 ? generate_canonical_check_1(
+					res.first == 1 ? generate_canonical_check_1(
 							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
-- 
2.43.0


From 054863cc68fb1cde72b964d56c45983e395052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:33 +0000
Subject: [PATCH 025/140] fix: uniform_int_distribution reads one word when the
 source spans the range

---
 sprout/random/uniform_int_distribution.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index c54edf1..e422bcd 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -49,10 +49,7 @@ namespace sprout {
 					return min_value;
 				} else if (brange == range) {
 					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
-					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
-						min_value
-						);
+					return sprout::random::detail::add<base_unsigned, result_type>()(v, min_value);
 				} else if (brange < range) {
 					for (; ; ) {
 						range_type limit = range_type();
-- 
2.43.0


From 2b4b9db4cd069403590a493d28860359889c1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:33 +0000
Subject: [PATCH 026/140] fix: uniform_int_distribution adds its minimum when
 the words fill the range exactly

---
 sprout/random/uniform_int_distribution.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index e422bcd..2a99b3b 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -332,8 +332,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -652,8 +653,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From fd4c54a9a07101b8bbc57dd35cffa1bbda30bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:23 +0000
Subject: [PATCH 027/140] fix: poisson_distribution rejects a candidate its
 result cannot represent

---
 sprout/random/poisson_distribution.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index a58055c..08e40e7 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -219,7 +219,7 @@ namespace sprout {
 					}
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
-					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
+					if ((k >= 10 && k < RealType(sprout::numeric_limits<IntType>::max()) && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
 						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
@@ -238,7 +238,7 @@ namespace sprout {
 #ifdef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
-				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
+				return (k >= 10 && k < RealType(sprout::numeric_limits<IntType>::max()) && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
 						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
@@ -293,7 +293,7 @@ namespace sprout {
 #else
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
-				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
+				return (k >= 10 && k < RealType(sprout::numeric_limits<IntType>::max()) && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
 						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
-- 
2.43.0


From f2b9dfe11457a829da984f9c80e5c20f6961d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:59 +0000
Subject: [PATCH 028/140] fix: add to a negative minimum in the wider of the
 two types

---
 sprout/random/detail/signed_unsigned_tools.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/random/detail/signed_unsigned_tools.hpp b/sprout/random/detail/signed_unsigned_tools.hpp
index e5540c3..a08d3be 100644
--- a/sprout/random/detail/signed_unsigned_tools.hpp
+++ b/sprout/random/detail/signed_unsigned_tools.hpp
@@ -54,10 +54,11 @@ namespace sprout {
 			struct add<T1, T2, true> {
 			public:
 				typedef T2 result_type;
+				typedef typename std::make_unsigned<T2>::type unsigned_type;
 			public:
 				SPROUT_CONSTEXPR result_type operator()(T1 x, T2 y) const {
 					return y >= 0 ? T2(x) + y
-						: x >= T1(-(y + 1)) ? T2(x - T1(-(y + 1)) - 1)
+						: unsigned_type(x) >= unsigned_type(-(y + 1)) ? T2(unsigned_type(x) - unsigned_type(-(y + 1)) - 1)
 						: T2(x) + y
 						;
 				}
-- 
2.43.0


From c20120eb997a07f9b8eff91d857eddc7940853db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:05 +0000
Subject: [PATCH 029/140] fix: uniform_smallint measures the source in the
 source's own type

---
 sprout/random/uniform_smallint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..1d89cb4 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From a9497c2aa728b22c64d46c129dc50e7c0b05fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:37 +0000
Subject: [PATCH 030/140] fix: generate_canonical stays below one when the sum
 of its words rounds past it

---
 sprout/random/generate_canonical.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 09c2be2..5b7630b 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -74,9 +74,8 @@ namespace sprout {
 				std::is_integral<typename URNG::result_type>()
 				);
 			SPROUT_ASSERT(result >= 0);
-			SPROUT_ASSERT(result <= 1);
-			if (result == 1) {
-				result -= sprout::numeric_limits<RealType>::epsilon() / 2;
+			if (result >= 1) {
+				result = 1 - sprout::numeric_limits<RealType>::epsilon() / 2;
 				SPROUT_ASSERT(result != 1);
 			}
 			return result;
@@ -211,9 +210,9 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<RealType, URNG> const
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
-				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 1 ? generate_canonical_check_1(
-							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
+				return SPROUT_ASSERT(res.first >= 0),
+					res.first >= 1 ? generate_canonical_check_1(
+							pair_type(1 - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
 					;
-- 
2.43.0


From facac4c24cea8f45b437c2db50b344b1efcbea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:23 +0000
Subject: [PATCH 031/140] fix: binomial_distribution's correction table holds
 the Stirling corrections

---
 sprout/random/binomial_distribution.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 3710076..ff6c4b7 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -31,12 +31,16 @@ namespace sprout {
 		namespace detail {
 #		define SPROUT_BINOMIAL_TABLE_DEF \
 			{{ \
-				1, \
-				1, \
-				2, \
-				6, \
-				24, \
-				120 \
+				0.08106146679532726, \
+				0.04134069595540929, \
+				0.02767792568499834, \
+				0.02079067210376509, \
+				0.01664469118982119, \
+				0.01387612882307075, \
+				0.01189670994589177, \
+				0.01041126526197209, \
+				0.009255462182712733, \
+				0.008330563433362871 \
 			}}
 
 			template<typename RealType>
-- 
2.43.0


From cb297fd0759fd995fa7ccaebff92833495059f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 032/140] fix: operator>> of uuid compiles

---
 sprout/uuid/io.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 4452e10..0fa3d7c 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -40,26 +40,27 @@ namespace sprout {
 					char const szdigits[] = "0123456789ABCDEF";
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
+				char_type const* const xdigits_begin = xdigits;
 				char_type const* const xdigits_end = xdigits + 16;
-				char_type c;
+				char_type c = char_type();
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-					char_type const* f = sprout::find(xdigits, xdigits_end, c);
+					char_type const* f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
-					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					lhs >> c;
 					c = ctype.toupper(c);
-					f = sprout::find(xdigits, xdigits_end, c);
+					f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
 					byte <<= 4;
-					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					data[i] = byte;
 					if (lhs) {
 						if (i == 3 || i == 5 || i == 7 || i == 9) {
-- 
2.43.0


From 286ae7e44784fe81d59831c1ec2771e69ba5655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 033/140] fix: operator<< of uuid writes its digits alike
 whatever the adjustment and base flags

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 0fa3d7c..b2c3d9e 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -97,7 +97,7 @@ namespace sprout {
 						lhs << fill;
 					}
 				}
-				lhs << std::hex;
+				lhs << std::hex << std::right << std::noshowbase;
 				lhs.fill(lhs.widen('0'));
 				std::size_t i = 0;
 				for (sprout::uuids::uuid::const_iterator i_data = rhs.begin(), i_last = rhs.end(); i_data != i_last; ++i_data, ++i) {
-- 
2.43.0


From c4c65975d6d69f92a53af2e4ac63df307644ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 034/140] fix: operator<< of string_view reports a sink that
 takes no more

---
 sprout/utility/string_view/io.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sprout/utility/string_view/io.hpp b/sprout/utility/string_view/io.hpp
index 711f0c4..7d53a3a 100644
--- a/sprout/utility/string_view/io.hpp
+++ b/sprout/utility/string_view/io.hpp
@@ -8,11 +8,9 @@
 #ifndef SPROUT_UTILITY_STRING_IO_HPP
 #define SPROUT_UTILITY_STRING_IO_HPP
 
-#include <iterator>
 #include <istream>
 #include <ostream>
 #include <sprout/config.hpp>
-#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/utility/string_view/string_view.hpp>
 
 namespace sprout {
@@ -22,8 +20,7 @@ namespace sprout {
 	template<typename T, typename Traits, typename StreamTraits>
 	inline SPROUT_NON_CONSTEXPR std::basic_ostream<T, StreamTraits>&
 	operator<<(std::basic_ostream<T, StreamTraits>& lhs, sprout::basic_string_view<T, Traits> const& rhs) {
-		sprout::copy(rhs.begin(), rhs.end(), std::ostreambuf_iterator<T, StreamTraits>(lhs));
-		return lhs;
+		return lhs.write(rhs.data(), static_cast<std::streamsize>(rhs.size()));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 589f5c65de8a7bc16e9b7b8635d156d587ced46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 035/140] fix: operator>> of bitset reports that it read no
 digit and keeps the target when the device fails

---
 sprout/bitset/io.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..f283cf0 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -51,17 +51,16 @@ namespace sprout {
 					}
 				}
 			} catch(...) {
-				lhs.setstate(ios_base::badbit);
+				state |= ios_base::badbit;
 			}
 		}
 		if (tmp.empty() && N) {
 			state |= ios_base::failbit;
-		} else {
+		} else if (!(state & ios_base::badbit)) {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 4a4646cd37a661965873a6fee5fe8ca5ed5af7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 036/140] fix: operator>> of complex keeps the target when the
 text is no complex number

---
 sprout/complex/stream_operators.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sprout/complex/stream_operators.hpp b/sprout/complex/stream_operators.hpp
index fc34215..3daba76 100644
--- a/sprout/complex/stream_operators.hpp
+++ b/sprout/complex/stream_operators.hpp
@@ -17,13 +17,20 @@ namespace sprout {
 	template<typename T, typename Char, typename Traits>
 	inline SPROUT_NON_CONSTEXPR std::basic_istream<Char, Traits>&
 	operator>>(std::basic_istream<Char, Traits>& lhs, sprout::complex<T>& rhs) {
-		T re, im;
-		Char ch;
-		lhs >> ch;
+		T re = T();
+		T im = T();
+		Char ch = Char();
+		if (!(lhs >> ch)) {
+			return lhs;
+		}
 		if (ch == '(') {
-			lhs >> re >> ch;
+			if (!(lhs >> re >> ch)) {
+				return lhs;
+			}
 			if (ch == ',') {
-				lhs >> im >> ch;
+				if (!(lhs >> im >> ch)) {
+					return lhs;
+				}
 				if (ch == ')') {
 					rhs = sprout::complex<T>(re, im);
 				} else {
@@ -36,8 +43,9 @@ namespace sprout {
 			}
 		} else {
 			lhs.putback(ch);
-			lhs >> re;
-			rhs = re;
+			if (lhs >> re) {
+				rhs = re;
+			}
 		}
 		return lhs;
 	}
-- 
2.43.0


From 82181fc2e527b4982d23e24265d638274972d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 037/140] fix: operator>> of quaternion fails on failure and
 not on reaching the end

---
 sprout/math/quaternion/stream_operators.hpp | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index 5f215c4..36d20a3 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -50,13 +50,13 @@ namespace sprout {
 			Elem ch = Elem();
 			char cc;
 			lhs >> ch;
-			if (!lhs.good()) {
+			if (lhs.fail()) {
 				goto finish;
 			}
 			cc = ct.narrow(ch, char());
 			if (cc == '(') {
 				lhs >> ch;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				cc = ct.narrow(ch, char());
@@ -65,11 +65,11 @@ namespace sprout {
 					lhs >> u;
 					a = u.real();
 					b = u.imag();
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -79,11 +79,11 @@ namespace sprout {
 						lhs >> v;
 						c = v.real();
 						d = v.imag();
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -98,11 +98,11 @@ namespace sprout {
 				} else {
 					lhs.putback(ch);
 					lhs >> a;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -110,7 +110,7 @@ namespace sprout {
 						rhs = sprout::math::quaternion<T>(a);
 					} else if (cc == ',') {
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -119,11 +119,11 @@ namespace sprout {
 							lhs >> v;
 							c = v.real();
 							d = v.imag();
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -135,11 +135,11 @@ namespace sprout {
 						} else {
 							lhs.putback(ch);
 							lhs >> b;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -147,11 +147,11 @@ namespace sprout {
 								rhs = sprout::math::quaternion<T>(a, b);
 							} else if (cc == ',') {
 								lhs >> c;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								lhs >> ch;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								cc = ct.narrow(ch, char());
@@ -159,11 +159,11 @@ namespace sprout {
 									rhs = sprout::math::quaternion<T>(a, b, c);
 								} else if (cc == ',') {
 									lhs >> d;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									lhs >> ch;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									cc = ct.narrow(ch, char());
@@ -186,7 +186,7 @@ namespace sprout {
 			} else {
 				lhs.putback(ch);
 				lhs >> a;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				rhs = sprout::math::quaternion<T>(a);
-- 
2.43.0


From e0894f4ba715123c58620ab72cb9e211996d177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 038/140] fix: operator>> of optional takes a value only when
 it read one

---
 sprout/optional/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/io.hpp b/sprout/optional/io.hpp
index a3f4bac..68e722a 100644
--- a/sprout/optional/io.hpp
+++ b/sprout/optional/io.hpp
@@ -25,8 +25,9 @@ namespace sprout {
 			int d = lhs.get();
 			if (d == ' ') {
 				T x;
-				lhs >> x;
-				rhs = x;
+				if (lhs >> x) {
+					rhs = x;
+				}
 			} else {
 				if (d == '-') {
 					d = lhs.get();
@@ -37,6 +38,8 @@ namespace sprout {
 				}
 				lhs.setstate(std::ios::failbit);
 			}
+		} else {
+			lhs.setstate(std::ios::failbit);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 274bd2a0e07c3d269558bd49b7dbb6a6b46916cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 039/140] fix: operator>> of value_holder takes a value only
 when it read one

---
 sprout/utility/value_holder/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/utility/value_holder/io.hpp b/sprout/utility/value_holder/io.hpp
index 583e1cc..7870194 100644
--- a/sprout/utility/value_holder/io.hpp
+++ b/sprout/utility/value_holder/io.hpp
@@ -28,11 +28,14 @@ namespace sprout {
 			int d = lhs.get();
 			if (d == ' ') {
 				T x;
-				lhs >> x;
-				rhs = x;
+				if (lhs >> x) {
+					rhs = x;
+				}
 			} else {
 				lhs.setstate(std::ios::failbit);
 			}
+		} else {
+			lhs.setstate(std::ios::failbit);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 566be3c4d05b5ae5f7b9db7145009368376571f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 040/140] fix: operator>> of basic_string sizes the target
 before it reports the state

---
 sprout/string/io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..5dee534 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -58,8 +58,10 @@ namespace sprout {
 		if (!changed) {
 			state |= std::ios_base::failbit;
 		}
+		if (changed) {
+			rhs.resize(current);
+		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
-- 
2.43.0


From da15c531151bb1fece3901e294165b95cba3a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 041/140] fix: operator>> of basic_string keeps the characters
 past the old length

---
 sprout/string/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index 5dee534..88ff4e0 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -29,6 +29,8 @@ namespace sprout {
 		typedef std::ctype<elem_type> ctype_type;
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
+		string_type tmp;
+		tmp.resize(tmp.max_size());
 		bool changed = false;
 		size_type current = 0;
 		if (typename istream_type::sentry(lhs)) {
@@ -46,7 +48,7 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						tmp[current] = traits_type::to_char_type(meta);
 						changed = true;
 						++current;
 					}
@@ -59,7 +61,8 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		if (changed) {
-			rhs.resize(current);
+			tmp.resize(current);
+			rhs = tmp;
 		}
 		lhs.setstate(state);
 		return lhs;
-- 
2.43.0


From 20bee567177257789e6e4248371fa446b29903c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:04 +0000
Subject: [PATCH 042/140] fix: assignment of rational does not call itself
 without end

---
 sprout/rational/rational.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..5253e34 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -98,7 +98,8 @@ namespace sprout {
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
 			rational temp(rhs);
-			sprout::swap(temp, *this);
+			sprout::swap(temp.num_, num_);
+			sprout::swap(temp.den_, den_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
-- 
2.43.0


From 6fd76c0e4411ea2901ce35dec195bd750cb073b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 043/140] fix: operator<< of basic_string writes characters
 past a NUL

---
 sprout/string/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index 88ff4e0..b7730fa 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_STRING_IO_HPP
 #define SPROUT_STRING_IO_HPP
 
+#include <string>
 #include <istream>
 #include <ostream>
 #include <sprout/config.hpp>
@@ -70,7 +71,7 @@ namespace sprout {
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
 	inline SPROUT_NON_CONSTEXPR std::basic_ostream<T, StreamTraits>&
 	operator<<(std::basic_ostream<T, StreamTraits>& lhs, sprout::basic_string<T, N, Traits> const& rhs) {
-		return lhs << rhs.c_str();
+		return lhs << std::basic_string<T, StreamTraits>(rhs.data(), rhs.size());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 365a93b07f6078a3a3ae92ce700465b97691e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 044/140] fix: operator>> of quaternion includes the operator
 of complex it calls

---
 sprout/math/quaternion/stream_operators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index 36d20a3..e866ac7 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -12,6 +12,7 @@
 #include <sstream>
 #include <locale>
 #include <sprout/config.hpp>
+#include <sprout/complex/stream_operators.hpp>
 #include <sprout/math/quaternion/quaternion.hpp>
 
 namespace sprout {
-- 
2.43.0


From 91b15491199ea8ac97ac274a42b9c1885b582d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 045/140] fix: uuid includes the header of the byte type it
 uses

---
 sprout/uuid/uuid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/uuid/uuid.hpp b/sprout/uuid/uuid.hpp
index c1f5770..4706e42 100644
--- a/sprout/uuid/uuid.hpp
+++ b/sprout/uuid/uuid.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_UUID_UUID_HPP
 #define SPROUT_UUID_UUID_HPP
 
+#include <cstdint>
 #include <utility>
 #include <stdexcept>
 #include <type_traits>
-- 
2.43.0


From 854262769b4a42aba2108f3e369b9a76a6fe6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 046/140] fix: md5 takes a block of bytes in place

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..77caf49 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From b7b472f1e7bf2b480dadcf208e21d08d816e5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 047/140] fix: endian_traits reaches every byte of numbers
 wider than int

---
 sprout/endian_traits.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..daaff42 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -53,14 +53,13 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
-						>> CHAR_BIT * ((size() - 1) - i)
+					t >> CHAR_BIT * ((size() - 1) - i)
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				t &= ~(static_cast<type>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i));
+				t |= (static_cast<type>(value) << CHAR_BIT * ((size() - 1) - i));
 			}
 		};
 
@@ -98,14 +97,13 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
-						>> CHAR_BIT * i
+					t >> CHAR_BIT * i
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				t &= ~(static_cast<type>(UCHAR_MAX) << CHAR_BIT * i);
+				t |= (static_cast<type>(value) << CHAR_BIT * i);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 5df005cfbde8ec228a3c122ca586b31950b8bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 048/140] fix: normal_distribution called on a const engine
 draws functionally from any distribution object

A temporary or non-const distribution took the in-place overload even for a
const engine, so white_noise did not compile.
---
 sprout/random/normal_distribution.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sprout/random/normal_distribution.hpp b/sprout/random/normal_distribution.hpp
index 0ecd4dc..48b13f8 100644
--- a/sprout/random/normal_distribution.hpp
+++ b/sprout/random/normal_distribution.hpp
@@ -233,6 +233,10 @@ namespace sprout {
 				return generate(eng);
 			}
 			template<typename Engine>
+			SPROUT_CXX14_CONSTEXPR sprout::random::random_result<Engine, normal_distribution> const operator()(Engine const& eng) {
+				return generate(eng);
+			}
+			template<typename Engine>
 			SPROUT_CXX14_CONSTEXPR result_type operator()(Engine& eng, param_type const& parm) const {
 				return normal_distribution(parm)(eng);
 			}
-- 
2.43.0


From f0435a4c313e256c8e058195d49f485e0ddd1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 049/140] fix: random_swap stays inside the range

The indexes were drawn from [0, n], so the element past the end could be swapped in.
---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From c8affb85868e9ba3ddc6560b41544ba8835b49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 050/140] fix: functional shuffle makes every permutation
 equally likely

Each step drew from the whole range instead of the elements not yet placed.
---
 sprout/algorithm/fixed/shuffle.hpp        | 10 ++++++----
 sprout/algorithm/fixed/shuffle_result.hpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sprout/algorithm/fixed/shuffle.hpp b/sprout/algorithm/fixed/shuffle.hpp
index feb997f..3e04214 100644
--- a/sprout/algorithm/fixed/shuffle.hpp
+++ b/sprout/algorithm/fixed/shuffle.hpp
@@ -30,14 +30,16 @@ namespace sprout {
 			template<std::size_t N, typename Random>
 			inline SPROUT_CONSTEXPR sprout::array<std::ptrdiff_t, N>
 			make_shuffle_indexes_1(std::ptrdiff_t n, Random const& rnd, sprout::array<std::ptrdiff_t, N> const& arr, std::ptrdiff_t i) {
-				return i < n - 1
+				return i < n - 2
 					? sprout::fixed::detail::make_shuffle_indexes_1(
 						n,
-						sprout::random::next(rnd)(),
-						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + sprout::random::result(rnd)),
+						SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t>(0, n - 2 - i)(
+							sprout::random::next(rnd).engine()
+							),
+						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + i + sprout::random::result(rnd)),
 						i + 1
 						)
-					: sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + sprout::random::result(rnd))
+					: sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + i + sprout::random::result(rnd))
 					;
 			}
 			template<std::size_t N, typename UniformRandomNumberGenerator>
diff --git a/sprout/algorithm/fixed/shuffle_result.hpp b/sprout/algorithm/fixed/shuffle_result.hpp
index 2523a36..19053c8 100644
--- a/sprout/algorithm/fixed/shuffle_result.hpp
+++ b/sprout/algorithm/fixed/shuffle_result.hpp
@@ -34,15 +34,17 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<sprout::array<std::ptrdiff_t, N>, typename std::decay<UniformRandomNumberGenerator>::type>
 			make_shuffle_result_indexes_1(std::ptrdiff_t n, Random const& rnd, sprout::array<std::ptrdiff_t, N> const& arr, std::ptrdiff_t i) {
 				typedef sprout::pair<sprout::array<std::ptrdiff_t, N>, typename std::decay<UniformRandomNumberGenerator>::type> result_type;
-				return i < n - 1
+				return i < n - 2
 					? sprout::fixed::detail::make_shuffle_result_indexes_1<UniformRandomNumberGenerator>(
 						n,
-						sprout::random::next(rnd)(),
-						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + sprout::random::result(rnd)),
+						SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t>(0, n - 2 - i)(
+							sprout::random::next(rnd).engine()
+							),
+						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + i + sprout::random::result(rnd)),
 						i + 1
 						)
 					: result_type(
-						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + sprout::random::result(rnd)),
+						sprout::fixed::swap_element(arr, arr.begin() + i, arr.begin() + i + sprout::random::result(rnd)),
 						sprout::random::next(rnd).engine()
 						)
 					;
-- 
2.43.0


From df94a9c8949a1961bf8c9a9dbd1b1129a4a422d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 051/140] fix: range | white_noise starts with the first value
 of the noise

engine() is the engine after the first draw, so piping a range dropped it.
---
 sprout/compost/waves/white_noise.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sprout/compost/waves/white_noise.hpp b/sprout/compost/waves/white_noise.hpp
index d511587..a06adac 100644
--- a/sprout/compost/waves/white_noise.hpp
+++ b/sprout/compost/waves/white_noise.hpp
@@ -63,6 +63,15 @@ namespace sprout {
 						iterator()
 						)
 				{}
+				SPROUT_CONSTEXPR white_noise_range(
+					range_type& range,
+					generator_type const& gen
+					)
+					: base_type(
+						iterator(gen, sprout::size(range)),
+						iterator()
+						)
+				{}
 				SPROUT_CONSTEXPR engine_type engine() const {
 					return base_type::begin().generator().engine();
 				}
@@ -147,7 +156,7 @@ namespace sprout {
 					typename std::remove_reference<typename sprout::lvalue_reference<Range>::type>::type
 				>(
 					sprout::lvalue_forward<Range>(lhs),
-					rhs.engine(), rhs.sigma()
+					rhs.begin().generator()
 					);
 			}
 		}	// namespace waves
-- 
2.43.0


From fcff5695f48a7b960c870f5eb0f4929457da1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 052/140] fix: copy_while and copy_until return the pair type
 they declare

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 4082ab71847a72d7756b3b98b58307d4325f1003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 053/140] fix: partial_sort_copy can be instantiated

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From 166831d5ea6f549324704a91b7de0c1d742403bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 054/140] fix: stable_sort next to sort is no longer an
 ambiguous call

---
 sprout/algorithm/cxx14/stable_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..3bdafa3 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::insertion_sort<RandomAccessIterator, Compare>(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From a28b576cca5ef112800862996cbcb8252ad88709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 055/140] fix: for_each_n ends after n elements

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..a0a91d8 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++first, ++i) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From 7d5eacc46b14c62684fab68961371e04f100a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 056/140] fix: move_backward moves the last element first

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 7b1ef4e57f0c6c3d3134fee87cb958e79e40cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 057/140] fix: make_heap sifts up every element, the last too

---
 sprout/algorithm/cxx14/make_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..27a8bd0 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 				last = first;
 				++last;
 				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i + 1);
 				}
 			}
 		}
-- 
2.43.0


From 9e46d8dbc734a1b29dc399d285d1579ab80e62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 058/140] fix: remove and remove_if do not move an element onto
 itself

---
 sprout/algorithm/cxx14/remove.hpp    | 5 ++++-
 sprout/algorithm/cxx14/remove_if.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/remove.hpp b/sprout/algorithm/cxx14/remove.hpp
index ae6c03c..90cd7c3 100644
--- a/sprout/algorithm/cxx14/remove.hpp
+++ b/sprout/algorithm/cxx14/remove.hpp
@@ -21,7 +21,10 @@ namespace sprout {
 		ForwardIterator result = first;
 		for (; first != last; ++first) {
 			if (!(*first == value)) {
-				*result++ = sprout::move(*first);
+				if (result != first) {
+					*result = sprout::move(*first);
+				}
+				++result;
 			}
 		}
 		return result;
diff --git a/sprout/algorithm/cxx14/remove_if.hpp b/sprout/algorithm/cxx14/remove_if.hpp
index 477cd82..2cd6000 100644
--- a/sprout/algorithm/cxx14/remove_if.hpp
+++ b/sprout/algorithm/cxx14/remove_if.hpp
@@ -21,7 +21,10 @@ namespace sprout {
 		ForwardIterator result = first;
 		for (; first != last; ++first) {
 			if (!pred(*first)) {
-				*result++ = sprout::move(*first);
+				if (result != first) {
+					*result = sprout::move(*first);
+				}
+				++result;
 			}
 		}
 		return result;
-- 
2.43.0


From 224cef945a3413bfd858a4085f92ae4d60eb3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 059/140] fix: stable_partition skips the elements of the right
 half already in place

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From 2c5dc8be3df191dd3364af5e5cb141d1b6072d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 060/140] fix: inner_product with two operations can be
 instantiated

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From 8706b7b060af9bf44f55eeb4bb96b8dd5a5a12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 061/140] fix: exclusive scans of an empty sequence write
 nothing

---
 sprout/numeric/cxx14/exclusive_scan.hpp           | 6 +++---
 sprout/numeric/cxx14/transform_exclusive_scan.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a36e36 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..fc205a8 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-- 
2.43.0


From 978e444913f3c42f79898ddca64aeb52cec5c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 062/140] fix: search_n for no elements finds the beginning

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From a8d829fd403d5fb47e2f0bcee3b5f56d1f21db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 063/140] fix: is_heap and is_heap_until accept equal elements

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From 7e3036b9cd078d50a66eb98bb23586433023e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 064/140] fix: one_of and one_of_equal count matches of both
 halves

---
 sprout/algorithm/one_of.hpp       | 44 +++++++++----------------------
 sprout/algorithm/one_of_equal.hpp | 44 +++++++++----------------------
 2 files changed, 24 insertions(+), 64 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..e48f0b8 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -18,43 +18,23 @@
 namespace sprout {
 	namespace detail {
 		template<typename RandomAccessIterator, typename Predicate>
-		inline SPROUT_CONSTEXPR bool
-		one_of_impl_ra_1(
-			RandomAccessIterator const& first, RandomAccessIterator const& last, Predicate pred,
-			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot
-			)
-		{
-			return pivot == 0 ? !pred(*first)
-				: sprout::detail::one_of_impl_ra_1(
-					first, sprout::next(first, pivot), pred,
-					pivot / 2
-					)
-					&& sprout::detail::one_of_impl_ra_1(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
-						)
-				;
-		}
-		template<typename RandomAccessIterator, typename Predicate>
-		inline SPROUT_CONSTEXPR bool
+		inline SPROUT_CONSTEXPR typename std::iterator_traits<RandomAccessIterator>::difference_type
 		one_of_impl_ra(
 			RandomAccessIterator const& first, RandomAccessIterator const& last, Predicate pred,
-			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot
+			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot, typename std::iterator_traits<RandomAccessIterator>::difference_type found
 			)
 		{
-			return pivot == 0 ? pred(*first)
+			return found > 1 ? found
+				: pivot == 0 ? (pred(*first) ? found + 1 : found)
 				: sprout::detail::one_of_impl_ra(
-					first, sprout::next(first, pivot), pred,
-					pivot / 2
-					)
-					? sprout::detail::one_of_impl_ra_1(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
-						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					sprout::next(first, pivot), last, pred,
+					(sprout::distance(first, last) - pivot) / 2,
+					sprout::detail::one_of_impl_ra(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2,
+						found
 						)
+					)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
@@ -68,7 +48,7 @@ namespace sprout {
 			)
 		{
 			return first == last ? false
-				: sprout::detail::one_of_impl_ra(first, last, pred, sprout::distance(first, last) / 2)
+				: sprout::detail::one_of_impl_ra(first, last, pred, sprout::distance(first, last) / 2, 0) == 1
 				;
 		}
 
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..a256071 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -18,43 +18,23 @@
 namespace sprout {
 	namespace detail {
 		template<typename RandomAccessIterator, typename T>
-		inline SPROUT_CONSTEXPR bool
-		one_of_equal_impl_ra_1(
-			RandomAccessIterator const& first, RandomAccessIterator const& last, T const& value,
-			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot
-			)
-		{
-			return pivot == 0 ? !(*first == value)
-				: sprout::detail::one_of_equal_impl_ra_1(
-					first, sprout::next(first, pivot), value,
-					pivot / 2
-					)
-					&& sprout::detail::one_of_equal_impl_ra_1(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
-						)
-				;
-		}
-		template<typename RandomAccessIterator, typename T>
-		inline SPROUT_CONSTEXPR bool
+		inline SPROUT_CONSTEXPR typename std::iterator_traits<RandomAccessIterator>::difference_type
 		one_of_equal_impl_ra(
 			RandomAccessIterator const& first, RandomAccessIterator const& last, T const& value,
-			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot
+			typename std::iterator_traits<RandomAccessIterator>::difference_type pivot, typename std::iterator_traits<RandomAccessIterator>::difference_type found
 			)
 		{
-			return pivot == 0 ? *first == value
+			return found > 1 ? found
+				: pivot == 0 ? (*first == value ? found + 1 : found)
 				: sprout::detail::one_of_equal_impl_ra(
-					first, sprout::next(first, pivot), value,
-					pivot / 2
-					)
-					? sprout::detail::one_of_equal_impl_ra_1(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
-						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					sprout::next(first, pivot), last, value,
+					(sprout::distance(first, last) - pivot) / 2,
+					sprout::detail::one_of_equal_impl_ra(
+						first, sprout::next(first, pivot), value,
+						pivot / 2,
+						found
 						)
+					)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
@@ -68,7 +48,7 @@ namespace sprout {
 			)
 		{
 			return first == last ? false
-				: sprout::detail::one_of_equal_impl_ra(first, last, value, sprout::distance(first, last) / 2)
+				: sprout::detail::one_of_equal_impl_ra(first, last, value, sprout::distance(first, last) / 2, 0) == 1
 				;
 		}
 
-- 
2.43.0


From f03b4b5f4f3ea850952924a89f04a7f6007f10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 065/140] fix: folds read a single-pass source before moving
 on, whatever the order of arguments

---
 sprout/algorithm/count.hpp          |  2 +-
 sprout/algorithm/count_if.hpp       |  2 +-
 sprout/algorithm/fold_until.hpp     |  8 ++++++--
 sprout/algorithm/fold_while.hpp     |  8 ++++++--
 sprout/algorithm/includes.hpp       |  7 +++----
 sprout/numeric/accumulate.hpp       |  8 ++++++--
 sprout/numeric/inner_product.hpp    | 10 +++++++---
 sprout/numeric/transform_reduce.hpp | 18 +++++++++++++-----
 8 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/sprout/algorithm/count.hpp b/sprout/algorithm/count.hpp
index b03aa95..9f0739c 100644
--- a/sprout/algorithm/count.hpp
+++ b/sprout/algorithm/count.hpp
@@ -59,7 +59,7 @@ namespace sprout {
 		{
 			typedef sprout::pair<InputIterator, typename std::iterator_traits<InputIterator>::difference_type> type;
 			return current.first == last ? current
-				: n == 1 ? type(sprout::next(current.first), current.second + (*current.first == value ? 1 : 0))
+				: n == 1 ? *current.first == value ? type(sprout::next(current.first), current.second + 1) : type(sprout::next(current.first), current.second)
 				: sprout::detail::count_impl_1(
 					sprout::detail::count_impl_1(
 						current,
diff --git a/sprout/algorithm/count_if.hpp b/sprout/algorithm/count_if.hpp
index 6e9fddf..d7940fc 100644
--- a/sprout/algorithm/count_if.hpp
+++ b/sprout/algorithm/count_if.hpp
@@ -59,7 +59,7 @@ namespace sprout {
 		{
 			typedef sprout::pair<InputIterator, typename std::iterator_traits<InputIterator>::difference_type> type;
 			return current.first == last ? current
-				: n == 1 ? type(sprout::next(current.first), current.second + (pred(*current.first) ? 1 : 0))
+				: n == 1 ? pred(*current.first) ? type(sprout::next(current.first), current.second + 1) : type(sprout::next(current.first), current.second)
 				: sprout::detail::count_if_impl_1(
 					sprout::detail::count_if_impl_1(
 						current,
diff --git a/sprout/algorithm/fold_until.hpp b/sprout/algorithm/fold_until.hpp
index 1a00dd1..48c728e 100644
--- a/sprout/algorithm/fold_until.hpp
+++ b/sprout/algorithm/fold_until.hpp
@@ -15,6 +15,11 @@
 
 namespace sprout {
 	namespace detail {
+		template<typename InputIterator, typename T>
+		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
+		fold_until_next(InputIterator const& it, T const& value) {
+			return sprout::pair<InputIterator, T>(sprout::next(it), value);
+		}
 		template<typename InputIterator, typename T, typename BinaryOperation, typename Predicate>
 		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
 		fold_until_impl_1(
@@ -22,9 +27,8 @@ namespace sprout {
 			InputIterator const& last, BinaryOperation binary_op, Predicate pred, typename std::iterator_traits<InputIterator>::difference_type n
 			)
 		{
-			typedef sprout::pair<InputIterator, T> type;
 			return current.first == last || pred(current.second) ? current
-				: n == 1 ? type(sprout::next(current.first), binary_op(current.second, *current.first))
+				: n == 1 ? sprout::detail::fold_until_next<InputIterator, T>(current.first, binary_op(current.second, *current.first))
 				: sprout::detail::fold_until_impl_1(
 					sprout::detail::fold_until_impl_1(
 						current,
diff --git a/sprout/algorithm/fold_while.hpp b/sprout/algorithm/fold_while.hpp
index ee8c3f2..87f5195 100644
--- a/sprout/algorithm/fold_while.hpp
+++ b/sprout/algorithm/fold_while.hpp
@@ -15,6 +15,11 @@
 
 namespace sprout {
 	namespace detail {
+		template<typename InputIterator, typename T>
+		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
+		fold_while_next(InputIterator const& it, T const& value) {
+			return sprout::pair<InputIterator, T>(sprout::next(it), value);
+		}
 		template<typename InputIterator, typename T, typename BinaryOperation, typename Predicate>
 		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
 		fold_while_impl_1(
@@ -22,9 +27,8 @@ namespace sprout {
 			InputIterator const& last, BinaryOperation binary_op, Predicate pred, typename std::iterator_traits<InputIterator>::difference_type n
 			)
 		{
-			typedef sprout::pair<InputIterator, T> type;
 			return current.first == last || !pred(current.second) ? current
-				: n == 1 ? type(sprout::next(current.first), binary_op(current.second, *current.first))
+				: n == 1 ? sprout::detail::fold_while_next<InputIterator, T>(current.first, binary_op(current.second, *current.first))
 				: sprout::detail::fold_while_impl_1(
 					sprout::detail::fold_while_impl_1(
 						current,
diff --git a/sprout/algorithm/includes.hpp b/sprout/algorithm/includes.hpp
index 8753c72..9d6cc23 100644
--- a/sprout/algorithm/includes.hpp
+++ b/sprout/algorithm/includes.hpp
@@ -79,10 +79,9 @@ namespace sprout {
 				: n == 1
 				? comp(*current.second, *current.first)
 					? type(last1, current.second)
-					: type(
-						sprout::next(current.first),
-						comp(*current.first, *current.second) ? current.second : sprout::next(current.second)
-						)
+					: comp(*current.first, *current.second)
+						? type(sprout::next(current.first), current.second)
+						: type(sprout::next(current.first), sprout::next(current.second))
 				: sprout::detail::includes_impl_1(
 					sprout::detail::includes_impl_1(
 						current,
diff --git a/sprout/numeric/accumulate.hpp b/sprout/numeric/accumulate.hpp
index 5f78d2d..a52ff05 100644
--- a/sprout/numeric/accumulate.hpp
+++ b/sprout/numeric/accumulate.hpp
@@ -56,6 +56,11 @@ namespace sprout {
 				;
 		}
 
+		template<typename InputIterator, typename T>
+		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
+		accumulate_next(InputIterator const& it, T const& value) {
+			return sprout::pair<InputIterator, T>(sprout::next(it), value);
+		}
 		template<typename InputIterator, typename T, typename BinaryOperation>
 		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
 		accumulate_impl_1(
@@ -63,9 +68,8 @@ namespace sprout {
 			InputIterator const& last, BinaryOperation binary_op, typename std::iterator_traits<InputIterator>::difference_type n
 			)
 		{
-			typedef sprout::pair<InputIterator, T> type;
 			return current.first == last ? current
-				: n == 1 ? type(sprout::next(current.first), binary_op(current.second, *current.first))
+				: n == 1 ? sprout::detail::accumulate_next<InputIterator, T>(current.first, binary_op(current.second, *current.first))
 				: sprout::detail::accumulate_impl_1(
 					sprout::detail::accumulate_impl_1(
 						current,
diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index e8cbce7..55b8a2b 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -61,6 +61,11 @@ namespace sprout {
 				;
 		}
 
+		template<typename InputIterator1, typename InputIterator2, typename T>
+		inline SPROUT_CONSTEXPR sprout::tuples::tuple<InputIterator1, InputIterator2, T>
+		inner_product_next(InputIterator1 const& it1, InputIterator2 const& it2, T const& value) {
+			return sprout::tuples::tuple<InputIterator1, InputIterator2, T>(sprout::next(it1), sprout::next(it2), value);
+		}
 		template<typename InputIterator1, typename InputIterator2, typename T, typename BinaryOperation1, typename BinaryOperation2>
 		inline SPROUT_CONSTEXPR sprout::tuples::tuple<InputIterator1, InputIterator2, T>
 		inner_product_impl_1(
@@ -68,10 +73,9 @@ namespace sprout {
 			InputIterator1 last1, BinaryOperation1 binary_op1, BinaryOperation2 binary_op2, typename std::iterator_traits<InputIterator1>::difference_type n
 			)
 		{
-			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
 			return sprout::tuples::get<0>(current) == last1 ? current
-				: n == 1 ? type(
-					sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)),
+				: n == 1 ? sprout::detail::inner_product_next<InputIterator1, InputIterator2, T>(
+					sprout::tuples::get<0>(current), sprout::tuples::get<1>(current),
 					binary_op1(sprout::tuples::get<2>(current), binary_op2(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)))
 					)
 				: sprout::detail::inner_product_impl_1(
diff --git a/sprout/numeric/transform_reduce.hpp b/sprout/numeric/transform_reduce.hpp
index 5e944f3..bd86d53 100644
--- a/sprout/numeric/transform_reduce.hpp
+++ b/sprout/numeric/transform_reduce.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 				;
 		}
 
+		template<typename InputIterator1, typename InputIterator2, typename T>
+		inline SPROUT_CONSTEXPR sprout::tuple<InputIterator1, InputIterator2, T>
+		transform_reduce_next(InputIterator1 const& it1, InputIterator2 const& it2, T const& value) {
+			return sprout::tuple<InputIterator1, InputIterator2, T>(sprout::next(it1), sprout::next(it2), value);
+		}
 		template<typename InputIterator1, typename InputIterator2, typename T, typename BinaryOperation1, typename BinaryOperation2>
 		inline SPROUT_CONSTEXPR sprout::tuple<InputIterator1, InputIterator2, T>
 		transform_reduce_impl_1(
@@ -67,10 +72,9 @@ namespace sprout {
 			typename std::iterator_traits<InputIterator1>::difference_type n
 			)
 		{
-			typedef sprout::tuple<InputIterator1, InputIterator2, T> type;
 			return sprout::get<0>(current) == last1 ? current
-				: n == 1 ? type(
-					sprout::next(sprout::get<0>(current)), sprout::next(sprout::get<1>(current)),
+				: n == 1 ? sprout::detail::transform_reduce_next<InputIterator1, InputIterator2, T>(
+					sprout::get<0>(current), sprout::get<1>(current),
 					binary_op1(sprout::get<2>(current), binary_op2(*sprout::get<0>(current), *sprout::get<1>(current)))
 					)
 				: sprout::detail::transform_reduce_impl_1(
@@ -176,6 +180,11 @@ namespace sprout {
 				;
 		}
 
+		template<typename InputIterator, typename T>
+		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
+		transform_reduce_next(InputIterator const& it, T const& value) {
+			return sprout::pair<InputIterator, T>(sprout::next(it), value);
+		}
 		template<typename InputIterator, typename T, typename BinaryOperation, typename UnaryOperation>
 		inline SPROUT_CONSTEXPR sprout::pair<InputIterator, T>
 		transform_reduce_impl_1(
@@ -184,9 +193,8 @@ namespace sprout {
 			typename std::iterator_traits<InputIterator>::difference_type n
 			)
 		{
-			typedef sprout::pair<InputIterator, T> type;
 			return current.first == last ? current
-				: n == 1 ? type(sprout::next(current.first), binary_op(current.second, unary_op(*current.first)))
+				: n == 1 ? sprout::detail::transform_reduce_next<InputIterator, T>(current.first, binary_op(current.second, unary_op(*current.first)))
 				: sprout::detail::transform_reduce_impl_1(
 					sprout::detail::transform_reduce_impl_1(
 						current,
-- 
2.43.0


From d518b9f1847414a793ae6b69287e0d2eb9bb8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 066/140] fix: exclusive scans can write onto their source

---
 sprout/numeric/cxx14/exclusive_scan.hpp           | 4 ++--
 sprout/numeric/cxx14/transform_exclusive_scan.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 7a36e36..c2afd53 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -27,13 +27,13 @@ namespace sprout {
 		if (first == last) {
 			return result;
 		}
+		value_type temp = *first;
 		value_type sum = sprout::move(init);
 		*result = sum;
-		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-			*++result = sum;
 			temp = *first;
+			*++result = sum;
 		}
 		return ++result;
 	}
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index fc205a8..1ab2b70 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -27,13 +27,13 @@ namespace sprout {
 		if (first == last) {
 			return result;
 		}
+		value_type temp = unary_op(*first);
 		value_type sum = sprout::move(init);
 		*result = sum;
-		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-			*++result = sum;
 			temp = unary_op(*first);
+			*++result = sum;
 		}
 		return ++result;
 	}
-- 
2.43.0


From 08877e3950130cc35703371464bc988c35cdee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 067/140] fix: functional adjacent_difference and partial_sum
 can be called

---
 sprout/numeric/fit/adjacent_difference.hpp   | 2 +-
 sprout/numeric/fit/partial_sum.hpp           | 2 +-
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From 32dee4606ec28adc11a4bd8e2b80706b98ebbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 068/140] fix: functional transform_inclusive_scan with an
 initial value takes an array of one

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..e2ad76a 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-- 
2.43.0


From 92b274c439107b6725c265d732c2ecf83df7de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:51 +0000
Subject: [PATCH 069/140] fix: functional scans into an empty window leave the
 array as it is

---
 sprout/numeric/fixed/adjacent_difference.hpp  |  4 ++--
 sprout/numeric/fixed/exclusive_scan.hpp       | 20 +++++++++----------
 sprout/numeric/fixed/inclusive_scan.hpp       |  9 +++++----
 sprout/numeric/fixed/partial_sum.hpp          |  4 ++--
 .../fixed/transform_exclusive_scan.hpp        | 10 +++++-----
 .../fixed/transform_inclusive_scan.hpp        | 11 +++++-----
 6 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index c614581..ed6e31a 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, binary_op, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..46aeed6 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,11 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init) : sprout::detail::container_complate(result);
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +87,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -159,11 +159,11 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init) : sprout::detail::container_complate(result);
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -175,9 +175,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/inclusive_scan.hpp b/sprout/numeric/fixed/inclusive_scan.hpp
index c68052e..15a9cfd 100644
--- a/sprout/numeric/fixed/inclusive_scan.hpp
+++ b/sprout/numeric/fixed/inclusive_scan.hpp
@@ -66,10 +66,10 @@ namespace sprout {
 			>::type
 			inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::remake<Result>(result, sprout::size(result), init) : sprout::detail::container_complate(result);
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -81,9 +81,10 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(first, last, result, binary_op, size, init)
-					: sprout::detail::container_complate(result, init)
+					: size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/partial_sum.hpp b/sprout/numeric/fixed/partial_sum.hpp
index d0144cc..6e56a46 100644
--- a/sprout/numeric/fixed/partial_sum.hpp
+++ b/sprout/numeric/fixed/partial_sum.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, size, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..b9bed56 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,11 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init) : sprout::detail::container_complate(result);
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +87,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index e2ad76a..135faa9 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
@@ -115,10 +115,10 @@ namespace sprout {
 			>::type
 			transform_inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::remake<Result>(result, sprout::size(result), init) : sprout::detail::container_complate(result);
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -130,9 +130,10 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
-					: sprout::detail::container_complate(result, init)
+					: size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From b1b49994cdb5215ff3e99687fea5e9dfce15b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 070/140] fix: fit::partition and fit::stable_partition deliver
 the matching elements

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From f8a8cc51830efa7941fdaa4c39c7c405b0628299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 071/140] fix: functional unique_copy into an empty window
 leaves the array as it is

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..6f5a3ea 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From c075b71b6ee5a20b65834a2eddc8ff33a669612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 072/140] fix: functional sorts accept an empty window

---
 sprout/algorithm/fixed/stable_sort.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..57ad944 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,17 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size == 0 ? sprout::deep_copy(cont)
+					: sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 515f64bf959b72c558f14e936e0cd31fc3cb0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 073/140] fix: range::fit algorithms over two ranges return
 what sprout::fit returns

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From c0faadeca4ab60daf6de8ca097f3751fec07261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 074/140] fix: sprout::fit operations can be instantiated

---
 sprout/operation/fit/append.hpp          | 10 +++++++---
 sprout/operation/fit/append_back.hpp     | 10 +++++++---
 sprout/operation/fit/append_front.hpp    | 10 +++++++---
 sprout/operation/fit/erase.hpp           | 10 +++++++---
 sprout/operation/fit/erase_n.hpp         | 10 +++++++---
 sprout/operation/fit/insert.hpp          | 10 +++++++---
 sprout/operation/fit/insert_n.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back_n.hpp      | 10 +++++++---
 sprout/operation/fit/pop_front.hpp       | 10 +++++++---
 sprout/operation/fit/pop_front_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_back.hpp       | 10 +++++++---
 sprout/operation/fit/push_back_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_front.hpp      | 10 +++++++---
 sprout/operation/fit/push_front_n.hpp    | 10 +++++++---
 sprout/operation/fit/realign.hpp         | 10 +++++++---
 sprout/operation/fit/realign_to.hpp      | 10 +++++++---
 sprout/operation/fit/resize.hpp          | 10 +++++++---
 sprout/operation/fit/resize_backward.hpp | 10 +++++++---
 sprout/operation/fit/set.hpp             | 10 +++++++---
 20 files changed, 140 insertions(+), 60 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..5e2614f 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..4d45e1e 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_back<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..31520cb 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_front<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..1bbc5fb 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..2a711d6 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..5c3967b 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..79560f6 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..b11c9df 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..0af3b21 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..07bd801 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..a432b3c 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..1917a96 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..9c31ae4 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..0b15c26 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..c1cb636 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..bc8061f 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..7903a59 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign_to<Result, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..d9ed429 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..8669357 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize_backward.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize_backward<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..c5cacda 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/set.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::set<Container, T>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From a826addb3e81b4bb38436a721b26fa8a69e3ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 075/140] fix: fit::erase_n delivers what is left after
 removing N elements

---
 sprout/operation/fit/erase_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2a711d6..8a2701a 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -46,7 +46,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -55,7 +55,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From 84990dee8990bb42fb8a88823177c99c55315101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 076/140] fix: assigning a tuple to a pair takes the second
 element from the second one

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From bfdf8dacb5edcb27090e3b86f2c992370cff01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 077/140] fix: optional::swap leaves both states alone when
 swapping the values fails

---
 sprout/optional/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..c21e94e 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -275,8 +275,8 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR void swap(optional& other)
 		SPROUT_NOEXCEPT_IF_EXPR(sprout::swap(val, other.val))
 		{
-			sprout::swap(init, other.init);
 			sprout::swap(val, other.val);
+			sprout::swap(init, other.init);
 		}
 		// 20.6.4.5, observers
 		SPROUT_CONSTEXPR pointer_const_type operator->() const {
-- 
2.43.0


From b85acda074dfcc76a579bdcafa2a644da12388aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 078/140] fix: move assignment of an optional lets a failing
 move out instead of terminating

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index c21e94e..fdf6d6d 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -182,7 +182,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR optional& operator=(optional&& v)
-		SPROUT_NOEXCEPT_IF(std::is_move_constructible<T>::value && std::is_move_assignable<T>::value)
+		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value)
 		{
 			assign(SPROUT_FORWARD(optional, v));
 			return *this;
@@ -232,7 +232,7 @@ namespace sprout {
 			temp.swap(*this);
 		}
 		SPROUT_CXX14_CONSTEXPR void assign(optional&& v)
-		SPROUT_NOEXCEPT_IF(std::is_move_constructible<T>::value && std::is_move_assignable<T>::value)
+		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value)
 		{
 			optional temp(SPROUT_FORWARD(optional, v));
 			temp.swap(*this);
-- 
2.43.0


From f13599981cef53020935262a9d420ad391928932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 079/140] fix: an optional can be iterated backwards

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index fdf6d6d..acb8c08 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 4aa0c34fd0b4ce2762b587dce112073279148efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 080/140] fix: an optional reference can be moved

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index acb8c08..53bebf8 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -125,7 +125,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR optional(optional&& v)
 		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value)
 			: init(v.init)
-			, val(v.is_initialized() ? holder_type(sprout::move(get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(get(sprout::move(v))) : holder_type())
 		{}
 #endif
 		SPROUT_CONSTEXPR optional(T const& v)
@@ -170,7 +170,7 @@ namespace sprout {
 		template<typename U>
 		explicit SPROUT_CONSTEXPR optional(optional<U>&& v)
 			: init(v.is_initialized())
-			, val(v.is_initialized() ? holder_type(sprout::move(optional<U>::get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(optional<U>::get(sprout::move(v))) : holder_type())
 		{}
 		// 20.6.4.3, assignment
 		SPROUT_CXX14_CONSTEXPR optional& operator=(sprout::nullopt_t v) SPROUT_NOEXCEPT {
-- 
2.43.0


From 825df552ebae51d7ef7d14dbbae6e2604ed5d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 081/140] fix: tuples of references can be assigned and do not
 move from what they refer to

---
 sprout/tuple/tuple/tuple_decl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..0901ae4 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 				}
 				static SPROUT_CONSTEXPR value_type&&
 				get(element_holder&& t) {
-					return sprout::move(t.value_);
+					return static_cast<value_type&&>(t.value_);
 				}
 				static SPROUT_CONSTEXPR value_type const&
 				get(element_holder const& t) {
@@ -297,7 +297,7 @@ namespace sprout {
 			SPROUT_CXX14_CONSTEXPR void
 			assign_impl(Tuple&& t, sprout::index_tuple<Indexes...>) {
 				typedef typename std::decay<Tuple>::type type;
-				sprout::swallow({((base_type::template get<Indexes>(*this) = sprout::move(type::template get<Indexes>(SPROUT_FORWARD(Tuple, t)))), 0)...});
+				sprout::swallow({((base_type::template get<Indexes>(*this) = type::template get<Indexes>(SPROUT_FORWARD(Tuple, t))), 0)...});
 			}
 			template<sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR std::tuple<Types...>
-- 
2.43.0


From 802402cabd86726dcae920ef4aad659aa2c09cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 082/140] fix: a variant that is not const can be copied and
 assigned

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From 96831d1188e1ef7754ac444f95f5e696bd21e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:11 +0000
Subject: [PATCH 083/140] fix: a failing copy leaves the variant it was meant
 for as it was

---
 sprout/variant/variant.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index 1c86521..9cab6ed 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -248,13 +248,15 @@ namespace sprout {
 			impl_type::swap(other);
 		}
 		SPROUT_CXX14_CONSTEXPR variant& operator=(variant const& rhs) {
-			static_cast<impl_type&>(*this) = rhs;
+			variant temp(rhs);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR variant& operator=(variant&& rhs)
-		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_assignable<impl_type>::value)
+		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<impl_type>::value && SPROUT_NOEXCEPT_EXPR(std::declval<impl_type&>().swap(std::declval<impl_type&>())))
 		{
-			static_cast<impl_type&>(*this) = sprout::move(rhs);
+			variant temp(sprout::move(rhs));
+			temp.swap(*this);
 			return *this;
 		}
 		template<
@@ -262,7 +264,8 @@ namespace sprout {
 			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
 		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
-			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
+			variant temp(SPROUT_FORWARD(T, rhs));
+			temp.swap(*this);
 			return *this;
 		}
 		// queries
-- 
2.43.0


From 92e4d6a6b93e35ed0c62216f00e55cc556c55c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 084/140] fix: piecewise construction of a pair forwards rvalue
 arguments

The argument tuples were copied, which does not compile for tuples of
rvalue references (forward_as_tuple), and their elements were passed on
as lvalues.
---
 sprout/utility/pair/pair.hpp      | 6 +++---
 sprout/utility/pair/pair_decl.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index 28e79f9..e25a6e3 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	template<typename T1, typename T2>
 	template<typename... Args1, typename... Args2, sprout::index_t... Indexes1, sprout::index_t... Indexes2>
 	inline SPROUT_CONSTEXPR sprout::pair<T1, T2>::pair(
-		sprout::tuples::tuple<Args1...> first_args, sprout::tuples::tuple<Args2...> second_args,
+		sprout::tuples::tuple<Args1...>& first_args, sprout::tuples::tuple<Args2...>& second_args,
 		sprout::index_tuple<Indexes1...>, sprout::index_tuple<Indexes2...>
 		)
-		: first(sprout::tuples::get<Indexes1>(first_args)...)
-		, second(sprout::tuples::get<Indexes2>(second_args)...)
+		: first(SPROUT_FORWARD(Args1, sprout::tuples::get<Indexes1>(first_args))...)
+		, second(SPROUT_FORWARD(Args2, sprout::tuples::get<Indexes2>(second_args))...)
 	{}
 #if SPROUT_USE_DELEGATING_CONSTRUCTORS
 	template<typename T1, typename T2>
diff --git a/sprout/utility/pair/pair_decl.hpp b/sprout/utility/pair/pair_decl.hpp
index b893552..917a79a 100644
--- a/sprout/utility/pair/pair_decl.hpp
+++ b/sprout/utility/pair/pair_decl.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 	private:
 		template<typename... Args1, typename... Args2, sprout::index_t... Indexes1, sprout::index_t... Indexes2>
 		SPROUT_CONSTEXPR pair(
-			sprout::tuples::tuple<Args1...> first_args, sprout::tuples::tuple<Args2...> second_args,
+			sprout::tuples::tuple<Args1...>& first_args, sprout::tuples::tuple<Args2...>& second_args,
 			sprout::index_tuple<Indexes1...>, sprout::index_tuple<Indexes2...>
 			);
 	public:
-- 
2.43.0


From 60f51f63bb97883cfbd8ea700ddd605d4957912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 085/140] fix: an optional reference can be emplaced

The in-place constructor of a value_holder of a reference initialized the
pointer it holds with the referent.
---
 sprout/utility/value_holder/value_holder.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sprout/utility/value_holder/value_holder.hpp b/sprout/utility/value_holder/value_holder.hpp
index 10ece35..3ad6fa4 100644
--- a/sprout/utility/value_holder/value_holder.hpp
+++ b/sprout/utility/value_holder/value_holder.hpp
@@ -233,11 +233,18 @@ namespace sprout {
 		{}
 		template<
 			typename... Args,
-			typename = typename std::enable_if<is_constructible_args<Args...>::value>::type
+			typename = typename std::enable_if<!std::is_reference<T>::value && is_constructible_args<Args...>::value>::type
 		>
 		explicit SPROUT_CONSTEXPR value_holder(sprout::in_place_t, Args&&... args)
 			: holder_(SPROUT_FORWARD(Args, args)...)
 		{}
+		template<
+			typename U,
+			typename = typename std::enable_if<std::is_reference<T>::value && is_constructible_args<U>::value>::type
+		>
+		explicit SPROUT_CONSTEXPR value_holder(sprout::in_place_t, U&& p)
+			: holder_(helper_type::hold(p))
+		{}
 		template<
 			typename U, typename... Args,
 			typename = typename std::enable_if<is_constructible_args<std::initializer_list<U>&, Args...>::value>::type
-- 
2.43.0


From 960fb8aa541fd31715d8ff32d5fdf191e2b4837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 086/140] fix: assigning a pair of references to a tuple does
 not move from what they refer to

---
 sprout/tuple/tuple/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/tuple/tuple/tuple.hpp b/sprout/tuple/tuple/tuple.hpp
index 675d673..44a33e6 100644
--- a/sprout/tuple/tuple/tuple.hpp
+++ b/sprout/tuple/tuple/tuple.hpp
@@ -83,8 +83,8 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR sprout::tuples::tuple<Types...>&
 		sprout::tuples::tuple<Types...>::operator=(sprout::pair<UType1, UType2>&& rhs) {
-			base_type::template get<0>(*this) = sprout::move(rhs.first);
-			base_type::template get<1>(*this) = sprout::move(rhs.second);
+			base_type::template get<0>(*this) = SPROUT_FORWARD(UType1, rhs.first);
+			base_type::template get<1>(*this) = SPROUT_FORWARD(UType2, rhs.second);
 			return *this;
 		}
 	}	// namespace tuples
-- 
2.43.0


From 7236b1b5fcfa86a7d940b120a05e39997afa978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 087/140] fix: a failing default construction inside an empty
 optional reaches the caller

An empty optional default constructs its value; the constructors were
unconditionally noexcept, so that a failure terminated the program.
---
 sprout/optional/optional.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 53bebf8..940ee8b 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -19,6 +19,7 @@
 #include <sprout/utility/forward.hpp>
 #include <sprout/utility/move.hpp>
 #include <sprout/type_traits/is_constructible.hpp>
+#include <sprout/type_traits/is_nothrow_default_constructible.hpp>
 #include <sprout/type_traits/is_convert_constructible.hpp>
 #include <sprout/iterator/reverse_iterator.hpp>
 #include <sprout/iterator/value_iterator.hpp>
@@ -109,10 +110,12 @@ namespace sprout {
 		}
 	public:
 		// 20.6.4.1, constructors
-		SPROUT_CONSTEXPR optional() SPROUT_NOEXCEPT
+		SPROUT_CONSTEXPR optional()
+		SPROUT_NOEXCEPT_IF(std::is_reference<T>::value || sprout::is_nothrow_default_constructible<T>::value)
 			: init(false)
 		{}
-		SPROUT_CONSTEXPR optional(sprout::nullopt_t) SPROUT_NOEXCEPT
+		SPROUT_CONSTEXPR optional(sprout::nullopt_t)
+		SPROUT_NOEXCEPT_IF(std::is_reference<T>::value || sprout::is_nothrow_default_constructible<T>::value)
 			: init(false)
 		{}
 		SPROUT_CONSTEXPR optional(optional const& v)
-- 
2.43.0


From 27af86c7a6d7a6b028982a19408e730a73e65f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:18 +0000
Subject: [PATCH 088/140] fix: darkcult.py does not wait for ever for a
 compiler that prints a lot

The output of the commands went to a pipe that nobody reads.
---
 tools/darkroom/darkcult.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/darkroom/darkcult.py b/tools/darkroom/darkcult.py
index e885a34..3732dc1 100755
--- a/tools/darkroom/darkcult.py
+++ b/tools/darkroom/darkcult.py
@@ -6,6 +6,7 @@
 # Distributed under the Boost Software License, Version 1.0. (See accompanying
 # file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 # =============================================================================
+import os
 import sys
 import optparse
 import subprocess
@@ -13,10 +14,14 @@ import multiprocessing
 import logging
 import tty
 
+def call(command):
+	with open(os.devnull, "r+") as null:
+		return subprocess.call(command, shell=True, stdin=null, stdout=null)
+
 def build(command):
 	sys.stdout.write(".")
 	sys.stdout.flush()
-	return subprocess.call(command, shell=True, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
+	return call(command)
 
 def continue_build(command):
 	if command[2]:
@@ -25,7 +30,7 @@ def continue_build(command):
 		return 0
 	sys.stdout.write(".")
 	sys.stdout.flush()
-	result = subprocess.call(command[0], shell=True, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
+	result = call(command[0])
 	if not result:
 		logging.critical(command[1])
 	return result
-- 
2.43.0


From cf40858add7a816b7a1adaceecc11c9f7990d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:36 +0000
Subject: [PATCH 089/140] fix: darkcult.py does not take a torn record for a
 completed tile

A record is now a line of its own that ends in a mark: neither the start
of a record that could not be written in full, nor one with the next record
behind it, is the record of another tile.
---
 tools/darkroom/darkcult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/darkroom/darkcult.py b/tools/darkroom/darkcult.py
index 3732dc1..1403b36 100755
--- a/tools/darkroom/darkcult.py
+++ b/tools/darkroom/darkcult.py
@@ -80,7 +80,7 @@ def main():
 	if opts.continuable:
 		logging.basicConfig(
 			filename=opts.continue_file,
-			format="%(message)s"
+			format="\n%(message)s;"
 			)
 		completed = [line.strip() for line in open(opts.continue_file)]
 
@@ -90,7 +90,7 @@ def main():
 
 		def format_continue_command(x, y):
 			key = "%d %d" % (x, y)
-			return (format_command(x, y), key, key in completed)
+			return (format_command(x, y), key, key + ";" in completed)
 
 		pool = multiprocessing.Pool(opts.max_procs if opts.max_procs != 0 else None)
 		try:
-- 
2.43.0


From 137c5e1685af688ff2bbc261e1cd0de2179d2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 090/140] fix: darkcult.sh passes all macros and include paths
 to the compiler

Only the first -D and the first -I were passed.
---
 tools/darkroom/darkcult.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/darkroom/darkcult.sh b/tools/darkroom/darkcult.sh
index b8b56c2..2cf9f9f 100755
--- a/tools/darkroom/darkcult.sh
+++ b/tools/darkroom/darkcult.sh
@@ -178,10 +178,10 @@ if [ ! -f "${src}" -a ! -f "$(cd $(dirname $0); pwd)/${src}" ]; then
 	exit 1
 fi
 
-for user_macro in ${user_macros}; do
+for user_macro in "${user_macros[@]}"; do
 	define_options="${define_options} -D${user_macro}"
 done
-for include_path in ${include_paths}; do
+for include_path in "${include_paths[@]}"; do
 	include_options="${include_options} -I${include_path}"
 done
 compile_options="-std=c++11 ${define_options} ${include_options} ${common_options[*]}"
-- 
2.43.0


From 50edded656b33a0710845ad05bf4311c4b0f2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 091/140] fix: darkcult.sh assembles the tiles of the rendering
 range

It made directories for, and assembled, the rows of the whole picture: rows
outside the range have no tiles, and rows of a range that does not start at
a multiple of the tile height had no directory. Tiles another run left in
the directories of an existing stage were assembled too.
---
 tools/darkroom/darkcult.sh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/darkroom/darkcult.sh b/tools/darkroom/darkcult.sh
index 2cf9f9f..9213bdd 100755
--- a/tools/darkroom/darkcult.sh
+++ b/tools/darkroom/darkcult.sh
@@ -202,7 +202,7 @@ if [ -d "${stagedir}" ]; then
 else
 	mkdir -p ${stagedir}
 fi
-for ((y=0; y<height; y+=tile_height)); do
+for ((y=t; y<b; y+=tile_height)); do
 	mkdir -p ${stagedir}/${y}/
 done
 
@@ -271,13 +271,19 @@ let elapsed=${SECONDS}-${start}
 echo "  elapsed(total) = ${elapsed}s"
 
 if [ ${is_uncompleted} -eq 0 ]; then
-	for ((y=0; y<height; y+=tile_height)); do
+	declare -a row_files=()
+	for ((y=t; y<b; y+=tile_height)); do
+		declare -a tile_files=()
+		for ((x=l; x<r; x+=tile_width)); do
+			tile_files=(${tile_files[@]} ${x}.ppm)
+		done
 		pushd ${stagedir}/${y}/ > /dev/null
-		pnmcat -lr $(ls *.ppm | sort -n) > ../${y}.ppm
+		pnmcat -lr ${tile_files[@]} > ../${y}.ppm
 		popd > /dev/null
+		row_files=(${row_files[@]} ${y}.ppm)
 	done
 	pushd ${stagedir} > /dev/null
-	pnmcat -tb $(ls *.ppm | sort -n) > ${output}
+	pnmcat -tb ${row_files[@]} > ${output}
 	popd > /dev/null
 fi
 
-- 
2.43.0


From 02ecc32463ab7f5469c9c703a50a43528bfd5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 092/140] fix: darkcult.sh reports a picture that could not be
 assembled

It printed "finished." and ended with status 0.
---
 tools/darkroom/darkcult.sh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/darkroom/darkcult.sh b/tools/darkroom/darkcult.sh
index 9213bdd..45acad4 100755
--- a/tools/darkroom/darkcult.sh
+++ b/tools/darkroom/darkcult.sh
@@ -279,11 +279,19 @@ if [ ${is_uncompleted} -eq 0 ]; then
 		done
 		pushd ${stagedir}/${y}/ > /dev/null
 		pnmcat -lr ${tile_files[@]} > ../${y}.ppm
+		if [ $? -ne 0 ]; then
+			echo >&2 "error: assembling row(${y}) failed."
+			exit 1
+		fi
 		popd > /dev/null
 		row_files=(${row_files[@]} ${y}.ppm)
 	done
 	pushd ${stagedir} > /dev/null
 	pnmcat -tb ${row_files[@]} > ${output}
+	if [ $? -ne 0 ]; then
+		echo >&2 "error: assembling output(${output}) failed."
+		exit 1
+	fi
 	popd > /dev/null
 fi
 
-- 
2.43.0


From a217f6e2b51db6be3859fb5ac4343ed906aad86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 093/140] fix: an empty string can be assigned

Assigning or copying from the position at the end of a string, so any
assignment of an empty string, threw std::out_of_range.
---
 sprout/string/string.hpp                   | 2 +-
 sprout/utility/string_view/string_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..1ee50e0 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -891,7 +891,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string<>: index out of range")
 				: (void)0
 				;
 		}
diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..85d973b 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -438,7 +438,7 @@ namespace sprout {
 		// others:
 		SPROUT_CXX14_CONSTEXPR void
 		rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string_view<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string_view<>: index out of range")
 				: (void)0
 				;
 		}
-- 
2.43.0


From a92d412d403264b0c74156a0409f8fb42748e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 094/140] fix: a source that fails or is too long leaves a
 string as it was

Characters of a range were written in place: a range of one more than the
capacity from input iterators was accepted, overwriting the terminator, and
an exception of the range left the string without one.
---
 sprout/string/string.hpp | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 1ee50e0..ecb7eb2 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -304,50 +304,32 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = begin();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string temp;
+			for (; first != last; ++first) {
+				temp.push_back(*first);
 			}
-			put_terminator(sprout::distance(begin(), it));
-			return *this;
+			return assign(temp.data(), temp.size());
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(ForwardIterator first, ForwardIterator last, std::forward_iterator_tag*) {
 			lengthcheck(sprout::distance(first, last));
-			iterator it = begin();
-			for (; first != last; ++first, ++it) {
-				traits_type::assign(*it, *first);
-			}
-			put_terminator(sprout::distance(begin(), it));
-			return *this;
+			return assign(first, last, static_cast<std::input_iterator_tag*>(nullptr));
 		}
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = end();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string temp;
+			for (; first != last; ++first) {
+				temp.push_back(*first);
 			}
-			put_terminator(size() + sprout::distance(end(), it));
-			return *this;
+			return append(temp.data(), temp.size());
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(ForwardIterator first, ForwardIterator last, std::forward_iterator_tag*) {
 			lengthcheck(size() + sprout::distance(first, last));
-			iterator it = end();
-			for (; first != last; ++first, ++it) {
-				traits_type::assign(*it, *first);
-			}
-			put_terminator(size() + sprout::distance(end(), it));
-			return *this;
+			return append(first, last, static_cast<std::input_iterator_tag*>(nullptr));
 		}
 	public:
 		// construct/copy/destroy:
-- 
2.43.0


From d3c987f25003ed5b393c5455374f1f4daabba14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 095/140] fix: a string is constructed from input iterators in
 order

Whether a character was read before or after the iterator was incremented
depended on the order in which arguments are evaluated.
---
 sprout/string/string.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index ecb7eb2..27bea60 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -91,9 +91,20 @@ namespace sprout {
 			N != sizeof...(Args),
 			sprout::detail::constant_size_source<InputIterator, T, N>
 		>::type
+		make_constant_size_source_impl(InputIterator first, InputIterator last, Args const&... args);
+		template<typename T, std::size_t N, typename InputIterator, typename... Args>
+		inline SPROUT_CONSTEXPR sprout::detail::constant_size_source<InputIterator, T, N>
+		make_constant_size_source_next(InputIterator const& first, InputIterator const& last, T const& value, Args const&... args) {
+			return sprout::detail::make_constant_size_source_impl<T, N>(sprout::next(first), last, args..., value);
+		}
+		template<typename T, std::size_t N, typename InputIterator, typename... Args>
+		inline SPROUT_CONSTEXPR typename std::enable_if<
+			N != sizeof...(Args),
+			sprout::detail::constant_size_source<InputIterator, T, N>
+		>::type
 		make_constant_size_source_impl(InputIterator first, InputIterator last, Args const&... args) {
 			return first != last
-				? sprout::detail::make_constant_size_source_impl<T, N>(sprout::next(first), last, args..., *first)
+				? sprout::detail::make_constant_size_source_next<T, N>(first, last, static_cast<T>(*first), args...)
 				: sprout::detail::constant_size_source<InputIterator, T, N>(sizeof...(args), args...)
 				;
 		}
-- 
2.43.0


From 8e971fb293db09194b6590fab1e8aa597652d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 096/140] fix: a part of a string or view is never longer than
 what is there

basic_string_view::substr() did not limit its length, constructing a string
from a position beyond the end of another read outside of it, and substr()
of a string and to_string() of a view stopped at a null character, reading
beyond the end of a view for it.
---
 sprout/string/string.hpp                   | 14 +++++++++-----
 sprout/utility/string_view/string_view.hpp |  6 ++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 27bea60..3c3dda1 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -293,6 +293,12 @@ namespace sprout {
 				sprout::detail::string_raw_construct_t(), n, SPROUT_FORWARD(Args, args)...
 				)
 		{}
+		static SPROUT_CONSTEXPR size_type
+		sublength(size_type size, size_type pos, size_type n) {
+			return !(size < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, size - pos)
+				: throw std::out_of_range("basic_string<>: index out of range")
+				;
+		}
 		SPROUT_CXX14_CONSTEXPR void
 		maxcheck(size_type n) const {
 			if (n > max_size()) {
@@ -356,14 +362,14 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(basic_string const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, sublength(str.size(), pos, n)
 				)
 		{}
 		template<std::size_t N2, typename Enable = typename std::enable_if<(N2 < N)>::type>
 		SPROUT_CONSTEXPR basic_string(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N2>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, sublength(str.size(), pos, n)
 				)
 		{}
 		template<std::size_t N2 SPROUT_ENABLE_IF_WITH_ARRAY_IN_TEMPLATE_PARAMS((N2 - 1 <= N))>
@@ -837,9 +843,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? from_c_str(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
-				: throw std::out_of_range("basic_string<>: index out of range")
-				;
+			return basic_string(*this, pos, n);
 		}
 		template<std::size_t N2>
 		SPROUT_CONSTEXPR int
diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 85d973b..0f0ef57 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -365,9 +365,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string_view
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? n == npos
-					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+			return !(size() < pos) ? basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
@@ -420,7 +418,7 @@ namespace sprout {
 		template<std::size_t N>
 		SPROUT_CONSTEXPR sprout::basic_string<T, N, Traits>
 		to_string() const {
-			return sprout::basic_string<T, N, Traits>(ptr_, size());
+			return sprout::basic_string<T, N, Traits>(ptr_, ptr_ + size());
 		}
 		template<typename Allocator = std::allocator<T> >
 		SPROUT_NON_CONSTEXPR std::basic_string<T, Traits, Allocator>
-- 
2.43.0


From f412892571f0394be9a3eb4480c614c49438a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 097/140] fix: char_traits::compare() compares null characters
 like any other

Strings that differ only after a null character compared equal.
---
 sprout/string/char_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..21bb77a 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -94,8 +94,8 @@ namespace sprout {
 #endif
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
@@ -164,24 +164,24 @@ namespace sprout {
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, ForwardIterator s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator1, typename ForwardIterator2>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator1 s1, ForwardIterator2 s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
-- 
2.43.0


From d13eb82a19a5e314ee97a90a074edf4703763729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 098/140] fix: memmove() and char_traits::move() move
 overlapping characters

memmove() wrote before its destination, and char_traits::move() always
copied backwards, so that assigning a part of a string to itself repeated
its last character.
---
 sprout/cstring/memmove.hpp    | 9 ++++++++-
 sprout/string/char_traits.hpp | 4 ++--
 sprout/string/string.hpp      | 9 +++------
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..30e8117 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,7 +20,13 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			for (std::size_t i = 1; i < n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 21bb77a..587e6ea 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -21,6 +21,7 @@
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 #include <sprout/algorithm/cxx14/fill.hpp>
 #include <sprout/iterator/operation.hpp>
+#include <sprout/cstring/memmove.hpp>
 #include <sprout/cstring/strlen.hpp>
 
 namespace sprout {
@@ -114,8 +115,7 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
-			return s1;
+			return static_cast<char_type*>(sprout::detail::memmove(s1, s2, n));
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
 			sprout::copy(s2, s2 + n, s1);
diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 3c3dda1..42261ec 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -661,12 +661,12 @@ namespace sprout {
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
 				;
-			return assign(str.begin() + pos, rlen);
+			return assign(str.data() + pos, rlen);
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(value_type const* s, size_type n) {
 			lengthcheck(n);
-			traits_type::move(begin(), s, n);
+			traits_type::move(data(), s, n);
 			put_terminator(n);
 			return *this;
 		}
@@ -929,10 +929,7 @@ namespace sprout {
 			basic_string&
 		>::type
 		assign(StringConstIterator s, size_type n) {
-			lengthcheck(n);
-			traits_type::move(begin(), s, n);
-			put_terminator(n);
-			return *this;
+			return assign(s, sprout::next(s, n));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CXX14_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 986d2f70a647aad6e57efa40c769e4dd877c88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 099/140] fix: strings that are not const can be iterated in
 reverse

rbegin() and rend() did not compile; without index iterators, nth() of a
const string did not exist.
---
 sprout/string/string.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 42261ec..84c548a 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -485,7 +485,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -493,7 +493,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
@@ -1106,13 +1106,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From af2d217a49652bab670a7806331a07e25a1b375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 100/140] fix: strcat() appends where the string ends

It wrote behind the terminator and left it, so that the string itself
never got longer.
---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From baf5e7052965320d61b6cffe1d5158e10f6254ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 101/140] fix: strncat() writes one terminator

A source shorter than the limit was terminated twice; the second
terminator lay behind the space that the string needs.
---
 sprout/cstring/strncat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..4bdf336 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			while (n) {
 				--n;
 				if (!(*s1++ = *s2++)) {
-					break;
+					return result;
 				}
 			}
 			*s1 = value_type();
-- 
2.43.0


From 9ecbe14d338dc0153ec421baabf9bcc3519a87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 102/140] fix: strcmp(), strncmp() and strcoll() compare char
 as unsigned char

Characters outside of ASCII came before all others, unlike with
memcmp(), char_traits<char> and the functions of the C library.
---
 sprout/cstring/detail/str_less.hpp | 34 ++++++++++++++++++++++++++++++
 sprout/cstring/strcmp.hpp          |  5 +++--
 sprout/cstring/strncmp.hpp         |  7 ++++--
 3 files changed, 42 insertions(+), 4 deletions(-)
 create mode 100644 sprout/cstring/detail/str_less.hpp

diff --git a/sprout/cstring/detail/str_less.hpp b/sprout/cstring/detail/str_less.hpp
new file mode 100644
index 0000000..32d18e9
--- /dev/null
+++ b/sprout/cstring/detail/str_less.hpp
@@ -0,0 +1,34 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_CSTRING_DETAIL_STR_LESS_HPP
+#define SPROUT_CSTRING_DETAIL_STR_LESS_HPP
+
+#include <sprout/config.hpp>
+
+namespace sprout {
+	namespace detail {
+		//
+		// str_less
+		//	the order of the comparison functions: char is compared as unsigned char
+		//
+		struct str_less {
+		public:
+			typedef bool result_type;
+		public:
+			SPROUT_CONSTEXPR bool operator()(char x, char y) const SPROUT_NOEXCEPT {
+				return static_cast<unsigned char>(x) < static_cast<unsigned char>(y);
+			}
+			template<typename T>
+			SPROUT_CONSTEXPR bool operator()(T const& x, T const& y) const {
+				return x < y;
+			}
+		};
+	}	// namespace detail
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_CSTRING_DETAIL_STR_LESS_HPP
diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..19ad91b 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -16,6 +16,7 @@
 #include <sprout/tuple/tuple/tuple.hpp>
 #include <sprout/tuple/tuple/get.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/cstring/detail/str_less.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -36,8 +37,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..5c5ff04 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -14,6 +14,7 @@
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
+#include <sprout/cstring/detail/str_less.hpp>
 
 namespace sprout {
 
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
@@ -39,7 +41,8 @@ namespace sprout {
 		typedef typename std::decay<Elem>::type type;
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
+			sprout::detail::str_less()
 			);
 	}
 }	// namespace sprout
-- 
2.43.0


From f04b8adceee6f86ecc8dbe22ab389815de6ceeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:42 +0000
Subject: [PATCH 103/140] fix: strstr() finds an empty string in an empty
 string

---
 sprout/cstring/strstr.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..138f447 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,15 +135,15 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(sprout::detail::strstr(s1, s2))
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(sprout::detail::strstr(s1, s2))
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +152,9 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(sprout::detail::strstr(s1, s2))
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 98bc81d8d33110370acb102e859f85d9c31ee5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 104/140] fix: strncmp() takes any limit

The limit was used as a signed distance, so that a limit greater than
that, such as SIZE_MAX, made it recurse for ever.
---
 sprout/cstring/strncmp.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index 5c5ff04..e9bbdbb 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_CSTRING_STRNCMP_HPP
 #define SPROUT_CSTRING_STRNCMP_HPP
 
+#include <iterator>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -25,10 +26,11 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR int
 	strncmp(char const* s1, char const* s2, std::size_t n) {
-		return sprout::tristate_lexicographical_compare(
+		return sprout::detail::tristate_lexicographical_compare_2(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
 			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
-			sprout::detail::str_less()
+			sprout::detail::str_less(),
+			static_cast<std::input_iterator_tag*>(nullptr)
 			);
 	}
 
@@ -39,10 +41,11 @@ namespace sprout {
 	>::type
 	strncmp(Elem* s1, Elem* s2, std::size_t n) {
 		typedef typename std::decay<Elem>::type type;
-		return sprout::tristate_lexicographical_compare(
+		return sprout::detail::tristate_lexicographical_compare_2(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
 			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
-			sprout::detail::str_less()
+			sprout::detail::str_less(),
+			static_cast<std::input_iterator_tag*>(nullptr)
 			);
 	}
 }	// namespace sprout
-- 
2.43.0


From e7da7af7414a55c0fb33b9e942d878a6522f2dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:50 +0000
Subject: [PATCH 105/140] fix: char_traits::find() and move() treat pointers to
 non-const alike

They went to the functions for iterators, which give the end for what is
not found, and which only move overlapping characters to the right.
---
 sprout/string/char_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 587e6ea..e79bc7b 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -161,6 +161,12 @@ namespace sprout {
 		}
 #endif
 #if SPROUT_USE_INDEX_ITERATOR_IMPLEMENTATION
+		static SPROUT_CONSTEXPR char_type const* find(char_type* s, std::size_t n, char_type const& a) {
+			return find(static_cast<char_type const*>(s), n, a);
+		}
+		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type* s2, std::size_t n) {
+			return move(s1, static_cast<char_type const*>(s2), n);
+		}
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, ForwardIterator s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-- 
2.43.0


From 0fd87bd239998a7c51508809eaf4b6587e799a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:54 +0000
Subject: [PATCH 106/140] fix: strings are searched for characters given by a
 string's iterator

find_last_of() only looked at the first character, find_first_not_of()
and find_last_not_of() did not compile.
---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 84c548a..344e629 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1010,7 +1010,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1027,7 +1027,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1043,7 +1043,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 92a7377846bb988545d04fa41d61d7f2c93037f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:32 +0000
Subject: [PATCH 107/140] fix: appending more characters than can be counted is
 refused

size() + n wrapped round, so that append(npos, c) passed the check and
wrote behind the string.
---
 sprout/string/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 344e629..bd6f083 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -618,6 +618,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(value_type const* s, size_type n) {
+			lengthcheck(n);
 			lengthcheck(size() + n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
@@ -629,6 +630,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(size_type n, value_type c) {
+			lengthcheck(n);
 			lengthcheck(size() + n);
 			traits_type::assign(end(), n, c);
 			put_terminator(size() + n);
@@ -910,6 +912,7 @@ namespace sprout {
 			basic_string&
 		>::type
 		append(StringConstIterator s, size_type n) {
+			lengthcheck(n);
 			lengthcheck(size() + n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
-- 
2.43.0


From f3c9ff0bb23f286083b61a658347404979624633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:55 +0000
Subject: [PATCH 108/140] fix: a part of a string can be put in front of it

>>= moved the characters before it read those to put in front.
---
 sprout/string/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index bd6f083..8823991 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1144,9 +1144,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(T const& rhs) {
+			value_type c = rhs;
 			lengthcheck(size() + 1);
 			traits_type::move(begin() + 1, begin(), size());
-			traits_type::assign(begin(), 1, rhs);
+			traits_type::assign(begin(), 1, c);
 			put_terminator(size() + 1);
 			return *this;
 		}
@@ -1154,8 +1155,9 @@ namespace sprout {
 		operator>>=(value_type const* rhs) {
 			size_type rlen = traits_type::length(rhs);
 			lengthcheck(size() + rlen);
+			basic_string temp(rhs, rlen);
 			traits_type::move(begin() + rlen, begin(), size());
-			traits_type::move(begin(), rhs, rlen);
+			traits_type::move(begin(), temp.begin(), rlen);
 			put_terminator(size() + rlen);
 			return *this;
 		}
-- 
2.43.0


From b2ac88ecea119bafea443ff080ab7685f4d8f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 109/140] fix: iterator adaptors can be swapped and moved by +=

Inside of the member function swap, an unqualified swap names that member
function, so that swap() and operator+= of seven adaptors did not compile.
---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 7 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From 691454cc095475f4579f5463e848d7de4db6d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:39 +0000
Subject: [PATCH 110/140] fix: adjacent_filter_iterator starts at the first
 element

It started at the first element whose successor satisfies the predicate:
without such a pair the range was empty, so that uniqued gave nothing for
a range of one value, and otherwise gave the last of the first equal
elements instead of the first.
---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..51f88d8 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From 29625b20eee4f5a6cb84a62cd1300705f45dcad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:39 +0000
Subject: [PATCH 111/140] fix: alternate_iterator moves backwards by odd
 distances

Going back an odd distance rounded towards zero, and the distance from an
element of the right range back to one of the left was one too long.
---
 sprout/iterator/alternate_iterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..e2f522f 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -46,8 +46,11 @@ namespace sprout {
 		iterator2_type current2;
 		bool in_left;
 	private:
+		SPROUT_CONSTEXPR alternate_iterator advance_impl_2(difference_type n, bool in_left) const {
+			return alternate_iterator(sprout::next(current1, n), sprout::next(current2, n), in_left);
+		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+			return advance_impl_2(n / 2 - (n % 2 < 0 ? 1 : 0), !(n % 2));
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
 			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
@@ -250,7 +253,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 3069e727dfb4663f47a56ed17eb02be19470ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:39 +0000
Subject: [PATCH 112/140] fix: the distance from the right to the left part of
 a joint_iterator is negative

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From 8ae7d5b641d5b548707ac93add3ee4fbfc0cbdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 113/140] fix: while_iterator does not ask about the end of the
 range

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..c8834c1 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From 1e0247e77bc30df0c98f0d2626e8ca298bbeeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 114/140] fix: size_enum_iterator counts the separators when it
 jumps

With separators, going back by an odd distance, [] and the distance of two
iterators were wrong.
---
 sprout/iterator/size_enum_iterator.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..de6b03e 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -162,6 +162,10 @@ namespace sprout {
 		iterator_type current;
 		value_type sep_size;
 		bool is_sep;
+	private:
+		SPROUT_CONSTEXPR size_enum_iterator advance_impl(difference_type n) const {
+			return size_enum_iterator(current + (n / 2 - (n % 2 < 0 ? 1 : 0)), sep_size, n % 2 != 0);
+		}
 	public:
 		SPROUT_CONSTEXPR size_enum_iterator()
 			: current(), sep_size(), is_sep()
@@ -238,23 +242,23 @@ namespace sprout {
 			return temp;
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator+(difference_type n) const {
-			return size_enum_iterator(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			return advance_impl(n + (is_sep ? 1 : 0));
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator-(difference_type n) const {
-			return size_enum_iterator(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			return advance_impl((is_sep ? 1 : 0) - n);
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator+=(difference_type n) {
-			size_enum_iterator temp(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			size_enum_iterator temp(*this + n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator-=(difference_type n) {
-			size_enum_iterator temp(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			size_enum_iterator temp(*this - n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::size(current[(n + is_sep) / 2]);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator next() const {
 			return is_sep
@@ -367,10 +371,10 @@ namespace sprout {
 		sprout::size_enum_iterator<Iterator2, true> const& rhs
 		)
 	{
-		return lhs.base() - rhs.base() + (
+		return (lhs.base() - rhs.base()) * 2 + (
 			lhs.is_separator()
-				? rhs.is_separator() ? 0 : -1
-				: rhs.is_separator() ? 1 : 0
+				? rhs.is_separator() ? 0 : 1
+				: rhs.is_separator() ? -1 : 0
 				)
 		;
 	}
-- 
2.43.0


From c1a0362801dd3c86c621e791594eceb84a86bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 115/140] fix: step_iterator reaches its end and comes back

The position behind the last step never became equal to the end of the
range and could not be left backwards; n steps, [] and the distance were
wrong there, and iterators that are not random access did not compile.
---
 sprout/iterator/step_iterator.hpp | 56 ++++++++++++++++---------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..8279ea8 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -36,12 +36,19 @@ namespace sprout {
 		typedef typename base_type::reference reference;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? last
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
+		}
+		// an iterator that walked to the end stays on the last element; one made there is at the end of the range
+		static SPROUT_CONSTEXPR bool is_passed(step_iterator const& it, difference_type n) {
+			return it.is_last ? n >= 0
+				: n > 0 && sprout::distance(it.current, it.back) / it.wid < n
+				;
 		}
 		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+			return is_passed(it, n) ? (it.is_last ? 0 : sprout::distance(it.current, it.back))
+				: (it.is_last && it.current != it.last ? n + 1 : n) * it.wid
 				;
 		}
 	protected:
@@ -54,7 +61,7 @@ namespace sprout {
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
 			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			, back(other.current == other.last && n < 0 ? sprout::prev(other.last, other.wid) : other.back), is_last(is_passed(other, n))
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
@@ -99,34 +106,24 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			step_iterator temp(*this, 1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			++*this;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			step_iterator temp(*this, -1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
-			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
-			return temp;
+			step_iterator result(*this);
+			--*this;
+			return result;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
 			return step_iterator(*this, n);
@@ -145,7 +142,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -174,7 +171,9 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.is_end() && rhs.is_end() ? lhs.end() == rhs.end()
+			: lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end()
+			;
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +183,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return !lhs.is_end() && (rhs.is_end() || lhs.base() < rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +203,10 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return lhs.is_end() ? (rhs.is_end() ? 0 : (lhs.end() - rhs.base() + lhs.width() - 1) / lhs.width())
+			: rhs.is_end() ? -((rhs.end() - lhs.base() + rhs.width() - 1) / rhs.width())
+			: (lhs.base() - rhs.base()) / lhs.width()
+			;
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
-- 
2.43.0


From 179db8c3c8c57ad708573244133591abd265be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 116/140] fix: reverse_iterator is ordered as it walks

rbegin() < rend() was false.
---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 sprout/iterator/step_iterator.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8279ea8..f68f73f 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -61,7 +61,7 @@ namespace sprout {
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
 			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.current == other.last && n < 0 ? sprout::prev(other.last, other.wid) : other.back), is_last(is_passed(other, n))
+			, back(other.current == other.last && n < 0 ? sprout::next(other.last, -other.wid) : other.back), is_last(is_passed(other, n))
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
-- 
2.43.0


From 8f27c398b187192948a6fb347a3ce691a8b27a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:28 +0000
Subject: [PATCH 117/140] fix: a limited product with -1 does not divide the
 least number by -1

This overflow ended the program, for example when the distance of two
iterators of an alternated range was -1 pairs.
---
 sprout/utility/limited.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..186be98 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -36,13 +36,13 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR typename sprout::arithmetic_promote<T, U>::type
 		multiplies(T const& lhs, U const& rhs) {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
-			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
+			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / lhs > rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / rhs > lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::max() / rhs > lhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From 4ab4e29e2d92842ac607aff2b0a40c59eb828d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 118/140] fix: sprout::empty compiles for containers

---
 sprout/container/container_range_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..5027219 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -142,7 +142,7 @@ namespace sprout {
 	template<typename Container>
 	struct container_range_empty_default {
 	public:
-		static SPROUT_CONSTEXPR typename sprout::container_traits<Container const>::size_type
+		static SPROUT_CONSTEXPR bool
 		range_empty(Container const& cont) {
 			using sprout_container_range_detail::range_empty;
 			using sprout_adl::range_empty;
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From ea3ce9077a10f715cdee9be45e6bec7bf8cf2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 119/140] fix: adaptors::removed and removed_if compile

---
 sprout/range/adaptor/removed.hpp    | 4 ++--
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From f4735652e8ff3daa687f8a501a3119c5fb15d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 120/140] fix: adaptors::steps compiles with an offset and can
 be walked from its end

---
 sprout/range/adaptor/steps.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..8621679 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -40,6 +40,19 @@ namespace sprout {
 			typedef typename base_type::range_type range_type;
 			typedef typename base_type::iterator iterator;
 			typedef typename base_type::difference_type difference_type;
+		private:
+			static SPROUT_CONSTEXPR difference_type get_init(difference_type init, range_type& range) {
+				return NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range));
+			}
+			static SPROUT_CONSTEXPR iterator make_first(difference_type width, difference_type init, range_type& range) {
+				return iterator(sprout::next(sprout::begin(range), get_init(init, range)), width, sprout::end(range));
+			}
+			static SPROUT_CONSTEXPR iterator make_last(difference_type width, difference_type init, range_type& range) {
+				return sprout::next(
+					make_first(width, init, range),
+					(static_cast<difference_type>(sprout::size(range)) - get_init(init, range) + width - 1) / width
+					);
+			}
 		public:
 			SPROUT_CONSTEXPR steps_range() SPROUT_DEFAULTED_DEFAULT_CONSTRUCTOR_DECL
 			steps_range(steps_range const&) = default;
@@ -51,14 +64,14 @@ namespace sprout {
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
-					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					make_first(width, 0, range),
+					make_last(width, 0, range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					make_first(width, init, range),
+					make_last(width, init, range)
 					)
 			{}
 		};
-- 
2.43.0


From 7938ff554395b4748bea66f86e1b777de6143bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 121/140] fix: clamp_iterator does not refer to the bounds in
 an iterator that is gone

---
 sprout/iterator/clamp_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..d4caedb 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -34,8 +34,8 @@ namespace sprout {
 		typedef typename base_type::iterator_category iterator_category;
 		typedef typename base_type::value_type value_type;
 		typedef typename base_type::difference_type difference_type;
-		typedef typename base_type::pointer pointer;
-		typedef typename base_type::reference reference;
+		typedef value_type const* pointer;
+		typedef value_type reference;
 	protected:
 		iterator_type current;
 		Compare comp;
-- 
2.43.0


From 802608e4ff86fd6d241b6ef7d59a9420b86ee871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:37 +0000
Subject: [PATCH 122/140] fix: iterator adaptors of one base iterator convert
 to those of another

---
 sprout/iterator/adjacent_filter_iterator.hpp |  6 +++---
 sprout/iterator/clamp_iterator.hpp           |  2 +-
 sprout/iterator/filter_iterator.hpp          |  6 +++---
 sprout/iterator/size_enum_iterator.hpp       |  8 ++++----
 sprout/iterator/transform_iterator.hpp       | 12 ++++++------
 sprout/iterator/while_iterator.hpp           |  6 +++---
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 51f88d8..f1a22df 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -82,9 +82,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR adjacent_filter_iterator(adjacent_filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR adjacent_filter_iterator& operator=(adjacent_filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index d4caedb..9c2ef8b 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -49,7 +49,7 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR clamp_iterator(clamp_iterator<U, V> const& it)
-			: current(it.current), comp(it.comp), low(it.low), up(it.up)
+			: current(it.base()), comp(it.compare()), low(it.lower()), up(it.upper())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR clamp_iterator& operator=(clamp_iterator<U, V> const& it) {
diff --git a/sprout/iterator/filter_iterator.hpp b/sprout/iterator/filter_iterator.hpp
index 2a8c9ac..01a28c7 100644
--- a/sprout/iterator/filter_iterator.hpp
+++ b/sprout/iterator/filter_iterator.hpp
@@ -88,9 +88,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR filter_iterator(filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR filter_iterator& operator=(filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index de6b03e..d110eec 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U> const& it)
-			: current(it.current)
+			: current(it.base())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U> const& it) {
@@ -178,9 +178,9 @@ namespace sprout {
 		{}
 		template<typename U, bool V>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U, V> const& it)
-			: current(it.current)
-			, sep_size(it.sep_size)
-			, is_sep(it.is_sep)
+			: current(it.base())
+			, sep_size(it.separator_size())
+			, is_sep(it.is_separator())
 		{}
 		template<typename U, bool V>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U, V> const& it) {
diff --git a/sprout/iterator/transform_iterator.hpp b/sprout/iterator/transform_iterator.hpp
index 5393cd6..81c0d87 100644
--- a/sprout/iterator/transform_iterator.hpp
+++ b/sprout/iterator/transform_iterator.hpp
@@ -87,9 +87,9 @@ namespace sprout {
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V, W> const& it)
-			: current(it.current)
-			, current2(it.current2)
-			, func(it.func)
+			: current(it.base())
+			, current2(it.base2())
+			, func(it.functor())
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V, W> const& it) {
@@ -100,7 +100,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR iterator_type base() const {
 			return current;
 		}
-		SPROUT_CONSTEXPR iterator_type base2() const {
+		SPROUT_CONSTEXPR iterator2_type base2() const {
 			return current2;
 		}
 		SPROUT_CONSTEXPR BinaryFunction functor() const {
@@ -222,8 +222,8 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V> const& it)
-			: current(it.current)
-			, func(it.func)
+			: current(it.base())
+			, func(it.functor())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V> const& it) {
diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index c8834c1..ce185b9 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -94,9 +94,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR while_iterator(while_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR while_iterator& operator=(while_iterator<Predicate, U> const& it) {
-- 
2.43.0


From 8494cfca25d9c3e0ff71fd7e45d4de3e2472e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:11 +0000
Subject: [PATCH 123/140] fix: valarrays can be assigned

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 951ba822b47d778b88dfc7f9b82fd0d8610e1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:11 +0000
Subject: [PATCH 124/140] fix: a valarray without elements is empty

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From a0d84354d8d021adf3d9aae2c0c8783cc16457eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:11 +0000
Subject: [PATCH 125/140] fix: a valarray is shifted by any distance, and zeros
 come in

---
 sprout/valarray/valarray.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..cad958e 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -171,6 +171,27 @@ namespace sprout {
 				throw std::length_error("valarray<>: length exceeded");
 			}
 		}
+		SPROUT_CONSTEXPR value_type
+		shift_value(difference_type i) const {
+			return i >= 0 && i < static_cast<difference_type>(size()) ? impl_.array_[i]
+				: value_type()
+				;
+		}
+		template<sprout::index_t... Indexes>
+		SPROUT_CONSTEXPR valarray
+		shift_impl(difference_type i, sprout::index_tuple<Indexes...>) const {
+			return valarray(
+				sprout::detail::valarray_raw_construct_t(), size(),
+				shift_value(static_cast<difference_type>(Indexes) + i)...
+				);
+		}
+		SPROUT_CONSTEXPR valarray
+		cshift_impl(difference_type i) const {
+			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
+				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
+				: *this
+				;
+		}
 	public:
 		// construct/destroy:
 		SPROUT_CONSTEXPR valarray() SPROUT_DEFAULTED_DEFAULT_CONSTRUCTOR_DECL
@@ -421,16 +442,12 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
-				: *this
-				;
+			return shift_impl(i, sprout::make_index_tuple<N>::make());
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
-				: *this
+			return size() == 0 ? *this
+				: cshift_impl(i % static_cast<difference_type>(size()))
 				;
 		}
 		SPROUT_CONSTEXPR valarray
-- 
2.43.0


From e9f3c0dc32c5dabe500196666659039b560cdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:25 +0000
Subject: [PATCH 126/140] fix: a subset of a valarray assigned to one takes its
 elements

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..c122d93 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array const&
+		operator=(gslice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..7263193 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array const&
+		operator=(indirect_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..d692135 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array const&
+		operator=(mask_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..a82bb60 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array const&
+		operator=(slice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From 533c4e724cd08482b361fd7bcbabddadebc06cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 127/140] fix: computed assignment of a value to a valarray
 compiles

---
 sprout/functional/bind2nd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..b3b563f 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -67,6 +67,11 @@ namespace sprout {
 			operator()(U const& x) const {
 				return op(x, value);
 			}
+			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U&>(), std::declval<value_type const&>()))
+			operator()(U& x) const {
+				return op(x, value);
+			}
 		};
 	}	// namespace detail
 	template<typename Fn, typename T = void>
-- 
2.43.0


From 8ee34a580ec6dfe7c3e1d8ee4d2f54687e4b7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 128/140] fix: a bitset can be constructed from a C string

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..5a086c3 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 0f882ceb073f31075f4acffe4b80905bbcdcd8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 129/140] fix: find_first and find_next of a bitset compile

---
 sprout/bitset/bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 5a086c3..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 3f78d055fa2b71d6a41b8d8e91b4dccfdbfde966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:17 +0000
Subject: [PATCH 130/140] fix: a long bitset constructed from a number does not
 shift it by its width

---
 sprout/bitset/bitset.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..2c7eeee 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,12 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{
+					word_type(val),
+					sprout::detail::sizeof_<unsigned long long>::value > sprout::detail::sizeof_<unsigned long>::value
+						? word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) % (CHAR_BIT * sprout::detail::sizeof_<unsigned long long>::value))
+						: word_type(0)
+					}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From 8c4ce16f49b409fc56323ab7526a626ccd05af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 131/140] fix: the trigonometric functions of valarrays are
 defined

---
 sprout/valarray/trigonometric.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..9ffde9c 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -204,12 +204,12 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
@@ -237,4 +237,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From 630f1ed8b978f711ab6e662cad9af9d7dc897774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 132/140] fix: functions of two valarrays read the second from
 its beginning

---
 sprout/valarray/power.hpp         | 6 +++---
 sprout/valarray/trigonometric.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..4eb89bf 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -173,7 +173,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +191,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +217,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 9ffde9c..5b417d8 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -199,7 +199,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-- 
2.43.0


From 040ef1532e8d9c5c9df0bd1e21487ba94ea257bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 133/140] fix: functions of a valarray and a value compile

---
 sprout/valarray/exponential.hpp   | 16 ++++++++--------
 sprout/valarray/hyperbolic.hpp    | 12 ++++++------
 sprout/valarray/power.hpp         | 12 ++++++------
 sprout/valarray/trigonometric.hpp | 14 +++++++-------
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/sprout/valarray/exponential.hpp b/sprout/valarray/exponential.hpp
index b7fa551..6ac2a41 100644
--- a/sprout/valarray/exponential.hpp
+++ b/sprout/valarray/exponential.hpp
@@ -100,7 +100,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp(SPROUT_FORWARD(T, x));
 			}
@@ -112,7 +112,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp10(SPROUT_FORWARD(T, x));
 			}
@@ -124,7 +124,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp2(SPROUT_FORWARD(T, x));
 			}
@@ -136,7 +136,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_expm1(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
 			{
 				return sprout_math_detail::call_expm1(SPROUT_FORWARD(T, x));
 			}
@@ -148,7 +148,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log(SPROUT_FORWARD(T, x));
 			}
@@ -160,7 +160,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log10(SPROUT_FORWARD(T, x));
 			}
@@ -172,7 +172,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log1p(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log1p(SPROUT_FORWARD(T, x));
 			}
@@ -184,7 +184,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log2(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/hyperbolic.hpp b/sprout/valarray/hyperbolic.hpp
index c7dba6b..3eda7b7 100644
--- a/sprout/valarray/hyperbolic.hpp
+++ b/sprout/valarray/hyperbolic.hpp
@@ -82,7 +82,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acosh(SPROUT_FORWARD(T, x));
 			}
@@ -94,7 +94,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asinh(SPROUT_FORWARD(T, x));
 			}
@@ -106,7 +106,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atanh(SPROUT_FORWARD(T, x));
 			}
@@ -118,7 +118,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cosh(SPROUT_FORWARD(T, x));
 			}
@@ -130,7 +130,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sinh(SPROUT_FORWARD(T, x));
 			}
@@ -142,7 +142,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tanh(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 4eb89bf..03a67ba 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -84,7 +84,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cbrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cbrt(SPROUT_FORWARD(T, x));
 			}
@@ -96,7 +96,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_abs(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
 			{
 				return sprout_math_detail::call_abs(SPROUT_FORWARD(T, x));
 			}
@@ -108,7 +108,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -120,7 +120,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -132,7 +132,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sqrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sqrt(SPROUT_FORWARD(T, x));
 			}
@@ -144,7 +144,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 5b417d8..d792d89 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -90,7 +90,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acos(SPROUT_FORWARD(T, x));
 			}
@@ -102,7 +102,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asin(SPROUT_FORWARD(T, x));
 			}
@@ -114,7 +114,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atan(SPROUT_FORWARD(T, x));
 			}
@@ -126,7 +126,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -138,7 +138,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cos(SPROUT_FORWARD(T, x));
 			}
@@ -150,7 +150,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sin(SPROUT_FORWARD(T, x));
 			}
@@ -162,7 +162,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tan(SPROUT_FORWARD(T, x));
 			}
-- 
2.43.0


From a7b1ac9860f5b0693f9e69e5c506e823633bfb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 134/140] fix: atan2 of valarrays compiles

---
 sprout/valarray/power.hpp         | 2 ++
 sprout/valarray/trigonometric.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 03a67ba..e4e2715 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -13,6 +13,8 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/valarray/valarray.hpp>
 #include <sprout/algorithm/fixed/transform.hpp>
+#include <sprout/functional/bind2nd.hpp>
+#include <sprout/functional/bind1st.hpp>
 #include <sprout/math/cbrt.hpp>
 #include <sprout/math/abs.hpp>
 #include <sprout/math/hypot.hpp>
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index d792d89..0ae9d0c 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -12,6 +12,8 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/valarray/valarray.hpp>
 #include <sprout/algorithm/fixed/transform.hpp>
+#include <sprout/functional/bind2nd.hpp>
+#include <sprout/functional/bind1st.hpp>
 #include <sprout/math/acos.hpp>
 #include <sprout/math/asin.hpp>
 #include <sprout/math/atan.hpp>
@@ -56,7 +58,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -203,7 +205,7 @@ namespace sprout {
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
 		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
-- 
2.43.0


From 85ba05293f7dc428ef76e32e09a47779600f2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 135/140] fix: forward_clist takes ranges of items

---
 sprout/forward_clist.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 5a8347a..d3ab368 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
@@ -399,7 +399,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			*p = nxt;
 		}
@@ -419,13 +419,12 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR iterator insert_after(const_iterator position, InputIterator first, InputIterator last) {
 			item_holder_type nxt(position.item->next);
 			item_holder_type pos(position.item);
-			item_holder_type* p = sprout::addressof(pos);
 			for (; first != last; ++first) {
-				(*p)->next = *first;
-				p = sprout::addressof(*p)->next;
+				pos->next = *first;
+				pos = pos->next;
 			}
-			(*p)->next = nxt;
-			return iterator(*p);
+			pos->next = nxt;
+			return iterator(pos);
 		}
 
 		SPROUT_CXX14_CONSTEXPR iterator erase_after(const_iterator position) {
-- 
2.43.0


From 7dc673e9776fac5e267e916e9e8795d0c5c2ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 136/140] fix: a forward_clist can be moved and swapped

---
 sprout/forward_clist.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index d3ab368..5e6740a 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -333,10 +333,13 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
-			: fst(sprout::move(x.fst))
-		{}
+			: fst()
+		{
+			swap(x);
+		}
 		SPROUT_CXX14_CONSTEXPR forward_clist& operator=(forward_clist&& x) {
-			fst = sprout::move(x.fst);
+			forward_clist temp(sprout::move(x));
+			temp.swap(*this);
 			return *this;
 		}
 		template<typename InputIterator>
@@ -445,7 +448,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void swap(forward_clist& other) {
-			sprout::swap(fst, other.fst);
+			sprout::swap(fst.next, other.fst.next);
 		}
 		SPROUT_CXX14_CONSTEXPR void clear() SPROUT_NOEXCEPT {
 			fst.unlink_all();
-- 
2.43.0


From 2319983290699b8f9b4e53461b241cf5ab2b7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 137/140] fix: a forward_clist without items is empty

---
 sprout/forward_clist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 5e6740a..2a12930 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -378,7 +378,7 @@ namespace sprout {
 		}
 		// capacity:
 		SPROUT_CONSTEXPR bool empty() const SPROUT_NOEXCEPT {
-			return !!fst.next;
+			return !fst.next;
 		}
 		SPROUT_CONSTEXPR size_type max_size() const SPROUT_NOEXCEPT {
 			return sprout::numeric_limits<size_type>::max();
-- 
2.43.0


From 950afda2c1de5a63ab7a301ffc5aab42c89e57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:16 +0000
Subject: [PATCH 138/140] fix: before_begin of a const forward_clist compiles,
 and cbefore_begin is before the first

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 2a12930..99e3c10 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -353,7 +353,7 @@ namespace sprout {
 			return iterator(item_holder_type(fst));
 		}
 		SPROUT_CONSTEXPR const_iterator before_begin() const SPROUT_NOEXCEPT {
-			return const_iterator(item_holder_type(fst));
+			return const_iterator(item_holder_type(const_cast<item&>(fst)));
 		}
 		SPROUT_CXX14_CONSTEXPR iterator begin() SPROUT_NOEXCEPT {
 			return iterator(fst.next);
@@ -371,7 +371,7 @@ namespace sprout {
 			return const_iterator(fst.next);
 		}
 		SPROUT_CONSTEXPR const_iterator cbefore_begin() const SPROUT_NOEXCEPT{
-			return const_iterator(fst.next);
+			return before_begin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator();
-- 
2.43.0


From a491cb85daa7f840c64400eed62d11b1701721d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:10 +0000
Subject: [PATCH 139/140] fix: a value can be assigned to an item of a
 forward_clist

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 99e3c10..25ffb17 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -278,12 +278,12 @@ namespace sprout {
 
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::argument_type p) {
 				item temp(p, next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::movable_argument_type p) {
 				item temp(sprout::move(p), next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 
-- 
2.43.0


From a2796eb0f5cb6711c8fe87a9ee6f5b1c3b552fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:08 +0000
Subject: [PATCH 140/140] fix: at() of a slice_array refuses what is behind the
 slice

---
 sprout/valarray/slice_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index a82bb60..9b85a4f 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -214,7 +214,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR reference
 		at(size_type i) const {
-			return arr_->at(slice_.start() + slice_.stride() * i);
+			return i < size() ? arr_->at(slice_.start() + slice_.stride() * i)
+				: (throw std::out_of_range("slice_array<>: index out of range"), (*this)[i])
+				;
 		}
 		SPROUT_CONSTEXPR reference
 		front() const {
-- 
2.43.0

