From 6a081e1f5c5f05570bd819ecbcb60ef10bc0ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 01/73] fix: casting a fixed number to a floating type dropped
 the fractional part

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..e14b188 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -295,7 +295,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(std::uint64_t(1) << fraction);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From 1edaba8a64e3077d5b84301252eee08553928706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 02/73] fix: rounding construction from a non-negative float
 halved the value instead of rounding it

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e14b188..d39dddf 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From cad0472741bf05507bfb44e7a279f6893845c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 03/73] fix: rounding multiplication and division returned
 twice the result

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d39dddf..9094118 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -337,7 +337,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -350,7 +350,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -371,7 +371,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -384,7 +384,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -617,7 +617,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -642,7 +642,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From c03690b9524875c75f14f8e2455a6b95a5d198ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 04/73] fix: converting to a format with more fractional bits
 overflowed the source type

---
 include/eirin/fixed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9094118..cfef5e4 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -497,7 +497,8 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        // scale in the intermediate type, the source type might be too narrow to hold the result.
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From d61d03f52e65264577077a891279f94ac3d8161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 05/73] fix: dividing a negative fixed number by an unsigned
 integer gave a huge positive value

---
 include/eirin/fixed.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index cfef5e4..3f8cb08 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,23 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // quotient of a raw value and an integer. An unsigned divisor would turn a negative raw
+    // value into a huge unsigned one, so divide the magnitude and restore the sign.
+    template <std::integral T>
+    EIRIN_ALWAYS_INLINE static constexpr Type divide_raw(Type value, T val) noexcept
+    {
+        if constexpr(std::is_signed_v<Type> && std::is_unsigned_v<T>)
+        {
+            using unsigned_type = std::make_unsigned_t<Type>;
+            if(value < 0)
+            {
+                const auto magnitude = static_cast<unsigned_type>(0u - static_cast<unsigned_type>(value));
+                return static_cast<Type>(0u - static_cast<unsigned_type>(magnitude / val));
+            }
+        }
+        return static_cast<Type>(value / val);
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -395,7 +412,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_raw(m_value, val);
         return *this;
     }
 
@@ -607,7 +624,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_raw(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -631,7 +648,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_raw(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From 4e198d7832ca634e599a31f5dab0896473317937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 06/73] fix: fixed % integral did not compile

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 3f8cb08..83dde69 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -890,7 +890,7 @@ constexpr inline fixed_num<T, I, f, r> operator/(const std::integral auto& val,
 template <typename T, typename I, unsigned int f, bool r>
 constexpr inline fixed_num<T, I, f, r> operator%(const fixed_num<T, I, f, r>& fp, const std::integral auto& val) noexcept
 {
-    return fixed_num<T, I, f, r>(fp) %= val;
+    return fixed_num<T, I, f, r>(fp) %= fixed_num<T, I, f, r>(val);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 5725080b82dcaedb72faff506c3cc1d15158d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 07/73] fix: the smallest value modulo the negative least step
 trapped instead of giving 0

---
 include/eirin/fixed.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 83dde69..dea6a16 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -418,11 +418,20 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
-        return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
+        return fixed_num(*this) %= other;
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
+        if constexpr(std::is_signed_v<Type>)
+        {
+            // min % -1 traps on some platforms although the remainder is 0.
+            if(other.m_value == -1) [[unlikely]]
+            {
+                m_value = 0;
+                return *this;
+            }
+        }
         m_value %= other.m_value;
         return *this;
     }
-- 
2.43.0


From a4fa1466a66c27d05e1196aa63999985c2b049a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 08/73] fix: nearly comparisons overflowed for distant values
 and never matched unsigned values

---
 include/eirin/fixed.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index dea6a16..89b31d2 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -478,26 +478,23 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
+        return !nearly_ne(other);
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
+        return nearly_lt(other) || nearly_gt(other);
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div > nearly_compare_epsilon().m_value;
+        // the difference might not fit into the store type.
+        return m_value > other.m_value && static_cast<IntermediateType>(m_value) - other.m_value > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value;
+        return other.nearly_gt(*this);
     }
 
     constexpr inline bool nearly_gt_eq(const fixed_num& other) const noexcept
-- 
2.43.0


From 327b51ed0805243c053e1b014c6b1f6c00c11dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 09/73] fix: the integral part of a negative non-integer was
 one too large

---
 include/eirin/fixed.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 89b31d2..2e3d29f 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -281,15 +281,13 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        // Absolute value, in the unsigned type because the smallest value cannot be negated.
+        auto result = static_cast<std::make_unsigned_t<Type>>(m_value);
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
+            result = 0u - result;
         result >>= fraction; // Drop fractional part
 
-        return result;
+        return static_cast<Type>(result);
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From 0e52b8ddfe9a67d6a5d2e3db41b6cd0ee2a67a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 10/73] fix: ceil was wrong for every negative value and
 overflowed next to the maximum

---
 include/eirin/math.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..0f0531a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -32,14 +32,15 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
+    const T value = fp.internal_value();
+    const T floored = static_cast<T>((value >> f) << f);
+    if(floored == value)
+        return fp;
+    const I result = static_cast<I>(floored) + (I(1) << f);
     // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    if(result > static_cast<I>(std::numeric_limits<T>::max()))
+        return max_value<fixed>();
+    return fixed::from_internal_value(static_cast<T>(result));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 84fdd8587217ee347ef670831a6d9fb816cf6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 11/73] fix: floor overflowed and was not an integer next to
 the minimum

---
 include/eirin/math.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 0f0531a..395248e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -47,15 +47,8 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    // the arithmetic shift rounds towards negative infinity.
+    return fixed::from_internal_value(static_cast<T>((fp.internal_value() >> f) << f));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 475a803f88ceb51b6a7d4b346361355565faad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 12/73] fix: sqrt of a 32-bit number without exactly 16
 fraction bits was off by a power of two

---
 include/eirin/math.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 395248e..23c5c4a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -96,21 +96,11 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // test if T is int32_t, if so, we can use the fast sqrt algorithm.
+    // test if T is int32_t with 16 fraction bits, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
-- 
2.43.0


From 014fbf1aca9d40ea397163c8c375a8acb530b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 13/73] fix: sin had the wrong sign for tiny negative angles
 and returned the minimum unchanged

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 23c5c4a..b401beb 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -206,8 +206,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+    if(fp < fixed(0.00015) && fp > fixed(-0.00015))
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From ff00316e24a4126314a94adbfab285c8fd26c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 14/73] fix: atan was wrong outside of [-1, 1], and so were
 asin and acos beyond sqrt(2)/2

---
 include/eirin/math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index b401beb..f13b2a8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -276,10 +276,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
-    auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    // the polynomial only fits [0, 1], so use atan(x) = pi/2 - atan(1/x) outside.
+    const bool reciprocal = fp > fixed(1) || fp < fixed(-1);
+    auto x = abs(reciprocal ? fixed(1) / fp : fp);
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(reciprocal)
+        result = pi / 2 - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
-- 
2.43.0


From 6723c5cff8c520587fee77f86a659cdc563930e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 15/73] fix: cbrt divided by zero around -2 and overflowed for
 large values

---
 include/eirin/fixed.hpp |  4 ++--
 include/eirin/math.hpp  | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2e3d29f..ec4297b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -68,8 +68,8 @@ namespace detail
         if constexpr(std::is_signed_v<T>)
         {
             using U = std::make_unsigned_t<T>;
-            auto abs_v = value < 0 ? -value : value;
-            return find_msb(static_cast<U>(abs_v));
+            auto abs_v = static_cast<U>(value);
+            return find_msb(value < 0 ? static_cast<U>(0u - abs_v) : abs_v);
         }
         else
         {
diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f13b2a8..6cb5be8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -354,14 +354,22 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
     using fixed = fixed_num<T, I, f, r>;
     if(abs(fp) < fixed::epsilon())
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
-    auto iter_count = 0;
-    constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
-
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    // start from the smallest power of two that is not closer to zero than the root,
+    // then every step moves towards zero, and x * x neither overflows nor vanishes.
+    constexpr int frac = static_cast<int>(f);
+    const int exponent = detail::find_msb(fp.internal_value()) + 1 - frac;
+    const T init_value = T(1) << (frac + (exponent > 0 ? (exponent + 2) / 3 : exponent / 3));
+    auto x = fixed::from_internal_value(fp < fixed(0) ? -init_value : init_value);
+
+    for(int iter_count = 0; iter_count <= iter_max; ++iter_count)
     {
-        x = (fp / (x * x) + x * 2) / 3;
-        ++iter_count;
+        const auto x2 = x * x;
+        if(x2 == fixed(0))
+            break;
+        const auto next = (fp / x2 + x * 2) / 3;
+        if(abs(next) >= abs(x))
+            break;
+        x = next;
     }
     return x;
 }
-- 
2.43.0


From 1c200e896576b06d02082667828783072d1876fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 16/73] fix: log2 lost its fractional part for formats with
 more than 33 fraction bits

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 6cb5be8..b708fcd 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -411,7 +411,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1u) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-- 
2.43.0


From 43c43cf8cfb86899c60ec8063d00c4bbefee6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 17/73] fix: pow with a negative integral exponent divided by
 an overflowed power, possibly by zero

---
 include/eirin/math.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index b708fcd..72f8271 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -490,10 +490,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     auto res = fixed(1);
     if(e < 0)
     {
-        for(auto i = b; e != 0; e /= 2, i *= i)
+        // powers of the reciprocal vanish where the powers of b would overflow.
+        for(auto i = fixed(1) / b; e != 0; e /= 2, i *= i)
         {
             if(e % 2 != 0)
-                res /= i;
+                res *= i;
         }
     }
     else
-- 
2.43.0


From 8814335102222e39833bb13a7051b394d6a84115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 18/73] fix: pow of a negative base terminated the program,
 even for integral exponents

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 72f8271..4e32584 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -543,7 +543,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -556,6 +556,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From 8b9939f2ec4db69ad0f3b0e0571dabc5d1a3798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 19/73] fix: exp of a large negative number overflowed, and
 could divide by zero

---
 include/eirin/math.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4e32584..4847785 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -536,7 +536,17 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
     if(fp == fixed(0))
         return fixed(1);
     if(fp < fixed(0))
-        return fixed(1) / detail::exp_expand(-fp);
+    {
+        // exp(-fp) must not overflow, so halve the exponent until it fits, and square the result.
+        constexpr auto limit = numbers::ln2_v<fixed>() * (sizeof(T) * 8 - 2 - f);
+        int squares = 0;
+        for(; fp < -limit; fp /= 2)
+            ++squares;
+        auto res = fixed(1) / detail::exp_expand(-fp);
+        for(; squares > 0; --squares)
+            res *= res;
+        return res;
+    }
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 9c564f1579079929e0ec885166ef130d543f2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 20/73] fix: fmod was wrong when the quotient overflowed or was
 rounded

---
 include/eirin/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4847785..e948a38 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -575,7 +575,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
 template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> fmod(fixed_num<T, I, f, r> a, fixed_num<T, I, f, r> b) noexcept
 {
-    return a - b * floor(a / b);
+    // a / b might not be representable, but the remainder always is.
+    auto res = a % b;
+    if(res != fixed_num<T, I, f, r>(0) && signbit(res) != signbit(b))
+        res += b;
+    return res;
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 0e17e9fa14fd589f172b2c2c76b08d375d1c2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 21/73] fix: an unsigned fixed number with only its top bit set
 was printed as negative

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ec4297b..a874e5b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -555,7 +555,7 @@ public:
 
         auto value = val.m_value;
         Type int_part;
-        if(value == val.signbit_mask())
+        if(std::is_signed_v<Type> && value == val.signbit_mask())
         {
             put_char('-');
             int_part = ~(value >> fraction) + 1;
-- 
2.43.0


From 3100a2655a2da7ce5118c0e1872ea3cc5906e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 22/73] fix: printing a number with few integer bits overflowed
 and read outside of the digit table

---
 include/eirin/fixed.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index a874e5b..2859238 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -546,14 +546,15 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = static_cast<IntermediateType>(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
+        // the fractional part is multiplied by the base below, which might not fit into the store type.
+        auto value = static_cast<IntermediateType>(val.m_value);
         Type int_part;
         if(std::is_signed_v<Type> && value == val.signbit_mask())
         {
@@ -614,7 +615,7 @@ public:
                     value *= base;
                 }
 
-                auto digit = (value / divisor) % base;
+                auto digit = static_cast<int>((value / divisor) % base);
                 put_char(digits[digit]);
                 value %= divisor;
             }
-- 
2.43.0


From b51319a191c771e386467ba2357729dd68351704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 23/73] fix: string parsing accepted huge numbers because its
 range check itself overflowed

---
 include/eirin/fixed.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2859238..e90689d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -733,6 +733,9 @@ namespace detail
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            // the magnitude of the minimum is one step above the maximum.
+            if(int_part > (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1)
+                return false;
         }
 
         I fixed_value;
@@ -941,6 +944,11 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        // the magnitude of the minimum is one step above the maximum.
+        if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+        {
+            return false;
+        }
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -1019,6 +1027,9 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        // the magnitude of the minimum is one step above the maximum.
+        if(int_part > (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1)
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
-- 
2.43.0


From 6edb79da42e17d21a8391d4326ac372edfa8ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 24/73] fix: string parsing rejected the smallest value, and
 accepted negative unsigned values

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e90689d..56cb498 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -764,6 +764,8 @@ namespace detail
             fixed_value = int_part << fixed::precision;
         }
 
+        if(negative)
+            fixed_value = -fixed_value;
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
         {
@@ -771,8 +773,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -978,6 +978,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         fixed_value = int_part << fixed32::precision;
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
@@ -985,8 +987,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -1053,6 +1053,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         fixed_value = (int_part << f);
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
@@ -1060,8 +1062,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From 858fe6428a5c5d631e07f7c8e6027b7ef8c1b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 25/73] fix: string parsing accepted garbage after the digits
 it does not need

---
 include/eirin/fixed.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 56cb498..c2ac494 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -749,11 +749,10 @@ namespace detail
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
                 auto digit = next() - '0';
+                // the remaining digits are below the precision, but have to be digits.
+                if(dec_part > max_fraction / 10)
+                    continue;
                 dec_part = dec_part * 10 + digit;
                 divisor *= 10;
             }
@@ -963,11 +962,10 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
             auto digit = next() - '0';
+            // the remaining digits are below the precision, but have to be digits.
+            if(dec_part > max_fraction / 10)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-- 
2.43.0


From 4bedcda11da80f2b92184b33160fdb2366064799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 26/73] fix: string parsing overflowed its divisor, possibly to
 zero, for many leading zeros after the point

---
 include/eirin/fixed.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index c2ac494..e5aa7a6 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -744,6 +744,7 @@ namespace detail
         {
             ++pos;
             constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
+            constexpr I max_divisor = (I(1) << (sizeof(I) * 8 - 2)) / 10;
             I divisor = I(1);
             while(pos < len)
             {
@@ -751,7 +752,7 @@ namespace detail
                     return false;
                 auto digit = next() - '0';
                 // the remaining digits are below the precision, but have to be digits.
-                if(dec_part > max_fraction / 10)
+                if(dec_part > max_fraction / 10 || divisor > max_divisor)
                     continue;
                 dec_part = dec_part * 10 + digit;
                 divisor *= 10;
@@ -955,6 +956,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     {
         ++pos;
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
+        constexpr int64_t max_divisor = (int64_t(1) << 62) / 10;
         int64_t divisor = 1;
         while(has_next())
         {
@@ -964,7 +966,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             }
             auto digit = next() - '0';
             // the remaining digits are below the precision, but have to be digits.
-            if(dec_part > max_fraction / 10)
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
                 continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
@@ -1034,11 +1036,12 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
+        constexpr auto max_fraction = (I(1) << f) - I(1);
+        constexpr I max_divisor = (I(1) << (sizeof(I) * 8 - 2)) / 10;
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(dec_part > max_fraction / 10 || divisor > max_divisor || !check_ch(peek()))
                 break;
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
-- 
2.43.0


From 3bdb709323c29dedf1eb7056f34d71055a5ae0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:42 +0000
Subject: [PATCH 27/73] fix: reading a fixed number from a stream did not skip
 whitespace, overflowed and never failed

---
 include/eirin/fixed.hpp | 77 +++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 29 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e5aa7a6..9799238 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1067,63 +1067,82 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    bool negative = false;
+    // skips the leading whitespace, and sets the failbit at the end of the stream.
+    typename std::basic_istream<CharT, Traits>::sentry guard(is);
+    if(!guard)
+        return is;
+
+    bool negative = false, valid = false;
+    auto has_next = [&]() -> bool
+    {
+        // peeking again after the end would set the failbit.
+        return is.good() && !Traits::eq_int_type(is.peek(), Traits::eof());
+    };
     auto peek = [&]() -> CharT
     {
-        return is.peek();
+        return Traits::to_char_type(is.peek());
     };
     auto next = [&]() -> CharT
     {
-        return is.get();
+        return Traits::to_char_type(is.get());
     };
-    auto has_next = [&]() -> bool
+    auto check_ch = [](CharT ch) -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        return CharT('0') <= ch && ch <= CharT('9');
     };
-    if(!has_next())
-    {
-        return is;
-    }
-    else if(peek() == '-')
+
+    if(has_next() && peek() == CharT('-'))
     {
         negative = true;
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    // the magnitude of the minimum is one step above the maximum.
+    constexpr I max_integral = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
+    I int_part = I(0), dec_part = I(0);
     // parse the integer part.
-    while(has_next() && peek() != '.')
+    while(has_next() && check_ch(peek()))
     {
-        if(!isdigit(peek()))
-            break;
-        int_part = int_part * 10 + (next() - '0');
+        valid = true;
+        auto digit = next() - CharT('0');
+        // the remaining digits of an unrepresentable number are still part of it.
+        if(int_part <= max_integral)
+            int_part = int_part * 10 + digit;
     }
+    const bool in_range = int_part <= max_integral;
+    I fixed_value = in_range ? (int_part << f) : I(0);
     // parse the decimal part.
-    if(has_next() && peek() == '.')
+    if(has_next() && peek() == CharT('.'))
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
-        while(has_next())
+        constexpr auto max_fraction = (I(1) << f) - I(1);
+        constexpr I max_divisor = (I(1) << (sizeof(I) * 8 - 2)) / 10;
+        I divisor = I(1);
+        while(has_next() && check_ch(peek()))
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
-                break;
-            auto digit = next() - '0';
+            valid = true;
+            auto digit = next() - CharT('0');
+            // the remaining digits are below the precision, but part of the number.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
+        fixed_value += (dec_part << f) / divisor;
     }
-    else
+
+    if(negative)
+        fixed_value = -fixed_value;
+    if(!valid || !in_range || fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
-        fp = fixed::from_internal_value(int_part << f);
+        is.setstate(std::ios_base::failbit);
+        return is;
     }
-    if(negative)
-        fp = -fp;
+
+    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     return is;
 }
 
-- 
2.43.0


From 28a22fe8df2d432ffb18f14018ec8a4881ee64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:28 +0000
Subject: [PATCH 28/73] fix: io::parse overflowed, and stopped before the
 digits it does not need

---
 include/eirin/io/parse.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..5ccf1bd 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -45,7 +45,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    int64_t int_part = 0, dec_part = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -54,35 +54,44 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
             return start -= pos;
         }
         int_part = int_part * 10 + (next() - '0');
+        // the magnitude of the minimum is one step above the maximum.
+        if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+        {
+            return start -= pos;
+        }
     }
+    int64_t fixed_value = int_part << fixed32::precision;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        constexpr int64_t max_divisor = (int64_t(1) << 62) / 10;
+        int64_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
             auto digit = next() - '0';
+            // the remaining digits are below the precision, but part of the number.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        fixed_value += (dec_part << fixed32::precision) / divisor;
     }
-    else
+    if(negative)
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        return start -= pos;
     }
-    if(negative)
-        out = -out;
+
+    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
     return start;
 }
 
-- 
2.43.0


From 2335e3e0ba86a48221830eea5545d45ee01e0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 29/73] fix: io::parse of a string_view read past its end and
 stopped at any equal character

---
 include/eirin/io/parse.hpp | 158 +++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 76 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 5ccf1bd..74ab7a3 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,100 +8,106 @@
 
 namespace eirin::io
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+namespace detail
 {
-    size_t pos = 0;
-    bool negative = false;
-    auto peek = [&]() -> char
-    {
-        return *start;
-    };
-    auto next = [&]() -> char
-    {
-        ++pos;
-        return *(start++);
-    };
-    auto has_next = [&]() -> bool
-    {
-        return *start != *stop;
-    };
-
-    if(has_next() && peek() == '-')
+    template <typename AtEnd>
+    inline const char* parse_until(const char* start, AtEnd at_end, fixed32& out)
     {
-        negative = true;
-        next();
-    }
-
-    auto is_digit = [](char ch) -> bool
-    {
-        return '0' <= ch && ch <= '9';
-    };
+        size_t pos = 0;
+        bool negative = false;
+        auto peek = [&]() -> char
+        {
+            return *start;
+        };
+        auto next = [&]() -> char
+        {
+            ++pos;
+            return *(start++);
+        };
+        auto has_next = [&]() -> bool
+        {
+            return !at_end(start);
+        };
 
-    int64_t int_part = 0, dec_part = 0;
-    // parse the integer part.
-    while(has_next() && peek() != '.')
-    {
-        if(!is_digit(peek()))
+        if(has_next() && peek() == '-')
         {
-            return start -= pos;
+            negative = true;
+            next();
         }
-        int_part = int_part * 10 + (next() - '0');
-        // the magnitude of the minimum is one step above the maximum.
-        if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+
+        auto is_digit = [](char ch) -> bool
         {
-            return start -= pos;
-        }
-    }
-    int64_t fixed_value = int_part << fixed32::precision;
-    // parse the decimal part.
-    if(has_next() && peek() == '.')
-    {
-        next();
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        constexpr int64_t max_divisor = (int64_t(1) << 62) / 10;
-        int64_t divisor = 1;
-        while(has_next())
+            return '0' <= ch && ch <= '9';
+        };
+
+        int64_t int_part = 0, dec_part = 0;
+        // parse the integer part.
+        while(has_next() && peek() != '.')
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            auto digit = next() - '0';
-            // the remaining digits are below the precision, but part of the number.
-            if(dec_part > max_fraction / 10 || divisor > max_divisor)
-                continue;
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            int_part = int_part * 10 + (next() - '0');
+            // the magnitude of the minimum is one step above the maximum.
+            if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+            {
+                return start -= pos;
+            }
         }
-        fixed_value += (dec_part << fixed32::precision) / divisor;
-    }
-    if(negative)
-        fixed_value = -fixed_value;
-    // check overflow
-    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
-    {
-        return start -= pos;
+        int64_t fixed_value = int_part << fixed32::precision;
+        // parse the decimal part.
+        if(has_next() && peek() == '.')
+        {
+            next();
+            constexpr auto max_fraction = (1 << fixed32::precision) - 1;
+            constexpr int64_t max_divisor = (int64_t(1) << 62) / 10;
+            int64_t divisor = 1;
+            while(has_next())
+            {
+                if(!is_digit(peek()))
+                {
+                    return start -= pos;
+                }
+                auto digit = next() - '0';
+                // the remaining digits are below the precision, but part of the number.
+                if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                    continue;
+                dec_part = dec_part * 10 + digit;
+                divisor *= 10;
+            }
+            fixed_value += (dec_part << fixed32::precision) / divisor;
+        }
+        if(negative)
+            fixed_value = -fixed_value;
+        // check overflow
+        if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
+        {
+            return start -= pos;
+        }
+
+        out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
+        return start;
     }
+} // namespace detail
 
-    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    return start;
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(start, [stop](const char* pos) { return *pos == *stop; }, out);
 }
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    const char* const stop = str.data() + str.size();
+    return detail::parse_until(str.data(), [stop](const char* pos) { return pos == stop; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From fc42a7664e35dd2d6414a43e77c4caef72edcecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 30/73] fix: std::format took the text after the closing brace
 as fill and alignment

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..3c20392 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -407,7 +407,8 @@ public:
         {
             auto nxt = it;
             ++nxt;
-            if(nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
+            // the closing brace ends the specification, whatever follows it.
+            if(*it != '}' && nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
             {
                 st.fill_ch = *it;
                 st.align_mode = *nxt;
-- 
2.43.0


From 437f52a53769a57d919a5f91645a5cf85c875350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 31/73] fix: std::format of a number with few integer bits
 overflowed and read outside of the digit table

---
 include/eirin/io/format.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 3c20392..ba5e89f 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -150,14 +150,14 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From 528c425b522b8d4ccfa697d3ffb7f7e69ba74ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 32/73] fix: std::format with a precision of 0 left a trailing
 point

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index ba5e89f..9504bec 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -137,7 +137,8 @@ public:
                     frac_val = -frac_val;
             }
 
-            bool has_frac = (frac_val != 0);
+            // without any digit to print there is no point either.
+            bool has_frac = (frac_val != 0) && m_state.precision != 0;
             int used_prec = 0;
 
             if(has_frac)
-- 
2.43.0


From 63dad2af784589a85b3bbee00289983cf9777e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 33/73] fix: std::format put padding zeros before the sign or
 after the number

---
 include/eirin/io/format.hpp | 38 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 9504bec..7bac1e9 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -107,24 +107,8 @@ public:
 
         if(int_only)
         {
-            if(m_state.zero_pad && m_state.width_val > 0)
-            {
-                std::size_t total = prefix.size() + digit_str.size();
-                if(static_cast<int>(total) < m_state.width_val)
-                {
-                    std::size_t zeros = static_cast<std::size_t>(m_state.width_val) - total;
-                    body = prefix + std::basic_string<CharT>(zeros, static_cast<CharT>('0')) + digit_str;
-                }
-                else
-                {
-                    body = prefix + digit_str;
-                }
-            }
-            else
-            {
-                body = prefix + digit_str;
-            }
-            return output_aligned(out, body);
+            body = prefix + digit_str;
+            return output_aligned(out, body, prefix.size());
         }
 
         body = prefix + digit_str;
@@ -179,7 +163,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix.size());
     }
 
 private:
@@ -220,6 +204,7 @@ private:
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
 
+        const auto prefix_size = body.size();
         const auto& digits = detail::digit_map_lower;
 
         if(uval == 0)
@@ -238,7 +223,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix_size);
     }
 
     // Convert an integer to a string in the given base
@@ -325,14 +310,23 @@ private:
     }
 
     template <typename OutputIt>
-    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
+    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body, std::size_t prefix_size) const
     {
         auto sz = body.size();
         if(m_state.width_val <= 0 || static_cast<std::size_t>(m_state.width_val) <= sz)
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
+
+        // zeros go after the sign and the prefix, and only if no alignment was given.
+        if(m_state.zero_pad && m_state.align_mode == '\0')
+        {
+            const auto digits_begin = body.begin() + static_cast<std::ptrdiff_t>(prefix_size);
+            out = std::copy(body.begin(), digits_begin, out);
+            out = std::fill_n(out, pad_cnt, static_cast<CharT>('0'));
+            return std::copy(digits_begin, body.end(), out);
+        }
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
-- 
2.43.0


From 7fca77f93ebd37a705abb1e7754d6f4d1a08180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:57 +0000
Subject: [PATCH 34/73] fix: the pcg engines shifted by more than the width of
 their type

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..7da6b5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From df4b258293c3b24061d4428628c3e2f5122bfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:57 +0000
Subject: [PATCH 35/73] fix: seeding a pcg engine kept its position in the
 sequence

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 7da6b5e..d5fe8c5 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 96f92c8e2647cbe78716db3236157071a03bcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:57 +0000
Subject: [PATCH 36/73] fix: writing a pcg engine to a stream kept its base and
 left its flags changed

---
 include/eirin/random.hpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index d5fe8c5..20d3214 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -141,29 +141,16 @@ public:
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
         // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
+        const auto flags = os.flags(std::ios_base::dec | std::ios_base::left);
+        const auto fill = os.fill(os.widen(' '));
         // write the current state into the stream.
-        os << obj.m_seed << ' ' << obj.m_state;
+        os << obj.m_seed << os.widen(' ') << obj.m_state;
+        os.flags(flags);
+        os.fill(fill);
         return os;
     }
 };
 
-template <typename U, U s, U m, U i, U mm, U xm, typename charT, typename charTraits>
-inline std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine<U, s, m, i, mm, xm>& obj)
-{
-    // set fmtflags to dec and left, padding with space.
-    using _ios_base = typename std::basic_ostream<charT, charTraits>::ios_base;
-    const typename _ios_base::fmtflags flags = os.flags();
-    const charT fill = os.fill(), space = os.widen(' ');
-    os.flags(_ios_base::dec | _ios_base::fixed | _ios_base::left);
-    os.fill(space);
-    // write the current state into the stream.
-    os << obj.m_seed << space << obj.m_state;
-    os.flags(flags);
-    os.fill(fill);
-    return os;
-}
-
 /**
  * @brief A adapter for standard random engines to support fixed point types, which fits RandomNumberEngine requirements.
  * 
-- 
2.43.0


From 9d3754a96aa544442da60566310b3062638cbd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:57 +0000
Subject: [PATCH 37/73] fix: the distribution adapters ignored the parameters
 passed to a call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From 970d0ccb2f7edec1ca2bdfb36b067177357f4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 38/73] fix: the pcg engines claimed a larger range than they
 can produce

---
 include/eirin/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 20d3214..b21be5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -124,7 +124,8 @@ public:
 
     static constexpr result_type max() noexcept
     {
-        return std::numeric_limits<result_type>::max();
+        // the bits that generate() keeps.
+        return static_cast<result_type>(0x7FFFFFFE) | (std::numeric_limits<result_type>::max() >> 8);
     }
 
     friend bool operator==(const permuted_congruential_engine& lhs, const permuted_congruential_engine& rhs)
-- 
2.43.0


From c908ca9ed4928900ef0877d6421965ab9c5e54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 39/73] fix: cordic_sine of a negative angle was wrong

---
 include/eirin/ext/cordic.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..b849e0c 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,14 +81,13 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
-
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
-        
+
+        // abs Q, which is no longer the minimum.
+        if(Q < const_0)
+            Q = -Q;
+
         const bool in_second_half = (Q > pi);
         Q = in_second_half ? (Q - pi) : Q;
 
-- 
2.43.0


From ed8ffb9628fc3da5b7e1a1781e2e466b2cc169e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:18 +0000
Subject: [PATCH 40/73] fix: bbp_calc_pi weighted the terms of the formula by a
 wrong power of 16

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f4da867..f155f47 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -178,7 +178,7 @@ namespace pi_calc
         for(int k = 0; k < N; ++k)
         {
             intermediate_t factor = frac_mult;
-            for(int i = 0; i < 4 * k; ++i)
+            for(int i = 0; i < k; ++i)
                 factor /= 16;
 
             intermediate_t term1 = (4 * factor) / (8 * k + 1);
-- 
2.43.0


From cbcf3b95547b05a8960f698de24aeab537ad9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:18 +0000
Subject: [PATCH 41/73] fix: bbp_calc_pi did not compile for types of 32 bits
 or less

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f155f47..626fe7c 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -163,7 +163,7 @@ namespace pi_calc
     {
 // BBP formula: pi = sum(k=0~inf){1/16^k * (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6))}
 #ifdef EIRIN_MATH_HAS_INT128
-        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
+        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional_t<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
 #else
         if constexpr(sizeof(T) <= 2)
             using intermediate_t = int32_t;
-- 
2.43.0


From cc1a1a06b28fc6315b2e30c15c4187e072c1cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:18 +0000
Subject: [PATCH 42/73] fix: lut_calc_sin was wrong for negative angles and off
 by one table step

---
 include/eirin/detail/util.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index 626fe7c..de8105d 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -230,20 +230,28 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * (x / two_pi).integral_part();
+        auto x_mod = x % two_pi;
         bool negate = false;
+        if(x_mod < 0_f64)
+        {
+            // sin is odd.
+            x_mod = -x_mod;
+            negate = true;
+        }
         if(x_mod >= eirin::numbers::pi_f64)
         {
             x_mod -= eirin::numbers::pi_f64;
-            negate = true;
+            negate = !negate;
         }
 
         // 3. Linear interpolation
-        auto pos = x_mod / (eirin::numbers::pi_f64 / fixed64(N - 1));
-        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(N - 2));
+        auto pos = x_mod / (eirin::numbers::pi_f64 / fixed64(N));
+        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(N - 1));
         auto frac = pos - fixed64(idx);
+        // sin(pi) is not in the table.
+        auto next = idx + 1 < static_cast<int64_t>(N) ? lut[idx + 1] : 0_f64;
 
-        fixed64 result = lut[idx] * (1 - frac) + lut[idx + 1] * frac;
+        fixed64 result = lut[idx] * (1 - frac) + next * frac;
         return negate ? -result : result;
     }
 } // namespace lut
-- 
2.43.0


From 70438314c82db2cc6987a7e6292bef59116110b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 43/73] fix: simd_reduce_angle dropped the high bits of its
 products with AVX-512

---
 include/eirin/ext/simd_math.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..fdd6324 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,8 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // (a * b) >> 32 needs the high bits of the 128 bit product, and not even AVX-512 has
+        // an instruction for them.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +144,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From 47b77d53badc34f4ec09d0d9dc750902ef3f63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 44/73] fix: simd_reduce_angle_2 multiplied the wrong bits and
 swapped its results

---
 include/eirin/ext/simd_math.hpp | 41 ++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index fdd6324..3b37c69 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -197,6 +197,41 @@ namespace detail
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
 
+    // 64-bit lane-wise fixed point multiplication, the same as avx_mm256_mullo_epi64.
+    EIRIN_ALWAYS_INLINE __m128i sse_mm_mullo_epi64(__m128i __A, __m128i __B)
+    {
+        __m128i sign_mask_a = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__A, 63));
+        __m128i sign_mask_b = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__B, 63));
+
+        __m128i abs_a = _mm_sub_epi64(_mm_xor_si128(__A, sign_mask_a), sign_mask_a);
+        __m128i abs_b = _mm_sub_epi64(_mm_xor_si128(__B, sign_mask_b), sign_mask_b);
+
+        // _mm_mul_epu32 only uses the low 32 bits of each lane.
+        __m128i a_hi = _mm_srli_epi64(abs_a, 32);
+        __m128i b_hi = _mm_srli_epi64(abs_b, 32);
+
+        __m128i lo_lo = _mm_mul_epu32(abs_a, abs_b);
+        __m128i hi_hi = _mm_mul_epu32(a_hi, b_hi);
+        __m128i hi_lo = _mm_mul_epu32(a_hi, abs_b);
+        __m128i lo_hi = _mm_mul_epu32(abs_a, b_hi);
+
+        __m128i mid = _mm_add_epi64(hi_lo, lo_hi);
+        __m128i result = _mm_add_epi64(_mm_add_epi64(mid, _mm_slli_epi64(hi_hi, 32)), _mm_srli_epi64(lo_lo, 32));
+
+        // restore sign
+        __m128i sign = _mm_xor_si128(sign_mask_a, sign_mask_b);
+        return _mm_sub_epi64(_mm_xor_si128(result, sign), sign);
+    }
+
+    // drop the fractional bits, the same as _mm256_fpint_epi64.
+    EIRIN_ALWAYS_INLINE __m128i _mm_fpint_epi64(__m128i __X)
+    {
+        __m128i sign_mask = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__X, 63));
+        __m128i abs_val = _mm_sub_epi64(_mm_xor_si128(__X, sign_mask), sign_mask);
+        __m128i integer_part = _mm_slli_epi64(_mm_srli_epi64(abs_val, 32), 32);
+        return _mm_sub_epi64(_mm_xor_si128(integer_part, sign_mask), sign_mask);
+    }
+
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
         // these [2 * i64] vector stores the fixed point internal represent.
@@ -205,9 +240,9 @@ namespace detail
         static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
         static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
         // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
+        __m128i n = _mm_fpint_epi64(sse_mm_mullo_epi64(x, inv_two_pi));
         // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        return _mm_sub_epi64(x, sse_mm_mullo_epi64(n, two_pi));
     }
 } // namespace detail
 
@@ -225,7 +260,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0), r2 = _mm_extract_epi64(rv, 1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From b3f14ab3c056228923828c05aa81fa1c43147178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 45/73] fix: a thread could see no CPU features while another
 thread was detecting them

---
 include/eirin/ext/simd_math.hpp | 40 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 3b37c69..13e8589 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -27,17 +27,11 @@ namespace eirin::simd
 {
 class platform_support
 {
-    static inline bool features_detected = false;
-
     // we only consider to support x86 for now.
     // a bit set for storeage.
-    static inline std::bitset<8> features_flag = 0x00;
-
-    EIRIN_ALWAYS_INLINE static void detect_features()
+    static std::bitset<8> detect_features()
     {
-        if(features_detected) [[likely]]
-            return;
-        features_detected = true;
+        std::bitset<8> features_flag = 0x00;
 #ifdef EIRIN_ARCH_X86
 #    if defined(__GNUC__) || defined(__clang__)
         u_int32_t eax, ebx, ecx, edx;
@@ -62,49 +56,47 @@ class platform_support
         features_flag.set(3, (ebx & (1 << 5)) != 0);
         features_flag.set(4, (ebx & (1 << 16)) != 0);
         features_flag.set(5, (ebx & (1 << 17)) != 0);
-#    else
-        return;
 #    endif
-#else
-        return;
 #endif
+        return features_flag;
+    }
+
+    static const std::bitset<8>& features()
+    {
+        // detected once, and only visible to any thread after that.
+        static const std::bitset<8> features_flag = detect_features();
+        return features_flag;
     }
 
 public:
     inline static bool supports_sse2()
     {
-        detect_features();
-        return features_flag.test(0);
+        return features().test(0);
     }
 
     inline static bool supports_sse4_2()
     {
-        detect_features();
-        return features_flag.test(1);
+        return features().test(1);
     }
 
     inline static bool supports_avx()
     {
-        detect_features();
-        return features_flag.test(2);
+        return features().test(2);
     }
 
     inline static bool supports_avx2()
     {
-        detect_features();
-        return features_flag.test(3);
+        return features().test(3);
     }
 
     inline static bool supports_avx512_f()
     {
-        detect_features();
-        return features_flag.test(4);
+        return features().test(4);
     }
 
     inline static bool supports_avx512_dq()
     {
-        detect_features();
-        return features_flag.test(5);
+        return features().test(5);
     }
 };
 
-- 
2.43.0


From e613057fca49b7436a2a02d5edc47438c19ae25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 46/73] fix: ext::int128 of a negative number was a huge
 positive number

---
 include/eirin/ext/builtin_ints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index d259d4a..07a5e81 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -21,12 +21,12 @@ public:
     template <std::integral T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(val){};
+        : high(val < T(0) ? -1 : 0), low(static_cast<int64_t>(val)){};
 
     template <std::floating_point T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(static_cast<int64_t>(val)){};
+        : int128(static_cast<int64_t>(val)){};
 
     template <std::integral T>
     requires(sizeof(T) <= 8)
-- 
2.43.0


From 7c45cd839cae7e66b3be492ff0f4e53caced53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 47/73] fix: casting ext::int128 to int64_t saturated values
 that fit and wrapped values that do not

---
 include/eirin/ext/builtin_ints.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index 07a5e81..fb8605b 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -46,9 +46,10 @@ public:
     EIRIN_ALWAYS_INLINE constexpr explicit operator int64_t() const noexcept
     {
         // when casting, we should consider about overflow.
-        if(high > 0)
+        // the value fits if the high bits are just the sign of the low bits.
+        if(high > 0 || (high == 0 && low < 0))
             return std::numeric_limits<int64_t>::max();
-        else if(high < 0)
+        else if(high < -1 || (high == -1 && low >= 0))
             return std::numeric_limits<int64_t>::min();
         else
             return low;
-- 
2.43.0


From efc800dca7ce72dd09d98c42c2523efcfc21d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 48/73] fix: adding ext::int128 dropped the carry

---
 include/eirin/ext/builtin_ints.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index fb8605b..64da21c 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -57,9 +57,10 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
     {
-        auto h = high + rhs.high;
-        auto l = low + rhs.low;
-        return int128(h, l);
+        const auto l = static_cast<uint64_t>(low) + static_cast<uint64_t>(rhs.low);
+        const uint64_t carry = l < static_cast<uint64_t>(low);
+        const auto h = static_cast<uint64_t>(high) + static_cast<uint64_t>(rhs.high) + carry;
+        return int128(static_cast<int64_t>(h), static_cast<int64_t>(l));
     }
 
 private:
-- 
2.43.0


From f7e846f9bbe6c7442ac7c26473bdc94072b58f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 49/73] fix: asin and acos accepted the smallest value

---
 include/eirin/math.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e948a38..3c36aae 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -311,7 +311,8 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    // the magnitude of the minimum is not representable, so do not use abs.
+    if(fp > fixed(1) || (std::is_signed_v<T> && fp < fixed(-1)))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -324,7 +325,8 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    // the magnitude of the minimum is not representable, so do not use abs.
+    if(fp > fixed(1) || (std::is_signed_v<T> && fp < fixed(-1)))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From 1fab3ae05d4b5d7ebba33f0133e9c0480f83eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 50/73] fix: sqrt of a negative fixed32 was an arbitrary number
 instead of -1

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 3c36aae..db52837 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -96,6 +96,8 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
+    if(fp < fixed(0))
+        return fixed(-1);
     // test if T is int32_t with 16 fraction bits, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
     if constexpr(std::is_same_v<T, int32_t> && f == 16)
@@ -151,8 +153,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     }
     else
     {
-        if(fp < fixed(0))
-            return fixed(-1);
         if(fp == fixed(0))
             return fixed(0);
         const T val = fp.internal_value();
-- 
2.43.0


From 611b3ef9ad3769c9717272cb6f943f3bfc84c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 51/73] fix: exp used half of its linear coefficient

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index db52837..31e67b5 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -524,7 +524,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From a75f44008399fc2f3acb0f6a06b8db1bd174636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 52/73] fix: cbrt of the smallest value was 0

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 31e67b5..7d792f8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -354,7 +354,8 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    // the magnitude of the minimum is not representable, so do not use abs.
+    if(fp < fixed::epsilon() && (std::is_unsigned_v<T> || fp > -fixed::epsilon()))
         return fixed(0);
     // start from the smallest power of two that is not closer to zero than the root,
     // then every step moves towards zero, and x * x neither overflows nor vanishes.
-- 
2.43.0


From d682293f1ff3b683e714f1500dc69f49e7747f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 53/73] fix: numeric_limits claimed that unsigned fixed numbers
 are signed

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9799238..14b23f6 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1170,7 +1170,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     using fixed_type = eirin::fixed_num<T, I, f, r>;
 
     static constexpr bool is_specialized = true;
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = std::numeric_limits<T>::is_signed;
     static constexpr bool is_integer = false;
     static constexpr bool is_exact = true;
     static constexpr bool has_infinity = false;
-- 
2.43.0


From 1d27b5cccba9d2bc43747feb44ca075d4db6751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:36 +0000
Subject: [PATCH 54/73] fix: rounding construction from a large float could be
 off by one step

---
 include/eirin/fixed.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 14b23f6..d3f0b25 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -193,9 +193,17 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // adding 0.5 before the cast would itself be rounded for large values.
+                const T rest = scaled - static_cast<T>(m_value);
+                if(rest >= T{0.5})
+                    ++m_value;
+                else if(rest <= T{-0.5})
+                    --m_value;
+            }
         }
     };
 
-- 
2.43.0


From a071e9aab97228e2dda8bf3dd6b03197e50ca524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 55/73] fix: reading from a source that fails in the middle of
 a number stored the part read so far

---
 include/eirin/fixed.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d3f0b25..49d83cd 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1142,6 +1142,9 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         fixed_value += (dec_part << f) / divisor;
     }
 
+    // the source failed in the middle of the number.
+    if(is.bad())
+        return is;
     if(negative)
         fixed_value = -fixed_value;
     if(!valid || !in_range || fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
-- 
2.43.0


From a5c30b6b246a02684d873f882e4f962643da10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:08 +0000
Subject: [PATCH 56/73] fix: std::format dropped a colon used as fill character

---
 include/eirin/io/format.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 7bac1e9..ffbfd4a 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -384,20 +384,6 @@ public:
             return it;
         }
 
-        {
-            auto p = it;
-            while(p != end && *p >= '0' && *p <= '9')
-                ++p;
-            if(p != end && *p == ':')
-                it = p + 1;
-        }
-
-        if(it == end)
-        {
-            m_fmt.set_state(st);
-            return it;
-        }
-
         // [[fill]align]
         {
             auto nxt = it;
-- 
2.43.0


From e9a160e676a6ca47589a47de5945e1e59a4ee2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:45 +0000
Subject: [PATCH 57/73] fix: sqrt of other formats than fixed32 stopped at a
 coarse tolerance

---
 include/eirin/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 7d792f8..f68cb13 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -161,12 +161,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         const auto init_value = fixed::get_sqrt_init_value(exponent);
         auto x = fixed::from_internal_value(init_value);
 
-        auto eps = fixed::epsilon();
         for(int i = 0; i < 5; ++i)
         {
-            x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            const auto next = (x + fp / x) / 2;
+            // the epsilon is far too coarse to decide here, especially for small values.
+            if(next == x)
                 break;
+            x = next;
         }
         return x;
     }
-- 
2.43.0


From 53c0302ddfdf6404f699e49f26b2bf4a4be20ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 58/73] fix: cbrt of a small value was 0, and cbrt of 0 was not
 0 in formats with few fraction bits

---
 include/eirin/math.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f68cb13..9477fe5 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -355,8 +355,7 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // the magnitude of the minimum is not representable, so do not use abs.
-    if(fp < fixed::epsilon() && (std::is_unsigned_v<T> || fp > -fixed::epsilon()))
+    if(fp == fixed(0))
         return fixed(0);
     // start from the smallest power of two that is not closer to zero than the root,
     // then every step moves towards zero, and x * x neither overflows nor vanishes.
-- 
2.43.0


From e182dce9531b40964fa01597087e862603f75c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 59/73] fix: cbrt of the smallest value overflowed in formats
 with few integer bits

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9477fe5..34d3b82 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -360,7 +360,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
     // start from the smallest power of two that is not closer to zero than the root,
     // then every step moves towards zero, and x * x neither overflows nor vanishes.
     constexpr int frac = static_cast<int>(f);
-    const int exponent = detail::find_msb(fp.internal_value()) + 1 - frac;
+    // ~value is the magnitude of a negative value minus 1, so a power of two is its own bound.
+    const T value = fp.internal_value();
+    const int exponent = detail::find_msb(static_cast<T>(value < 0 ? ~value : value - 1)) + 1 - frac;
     const T init_value = T(1) << (frac + (exponent > 0 ? (exponent + 2) / 3 : exponent / 3));
     auto x = fixed::from_internal_value(fp < fixed(0) ? -init_value : init_value);
 
-- 
2.43.0


From d1076cbf58efd792032d358f098e4b136c876c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:36 +0000
Subject: [PATCH 60/73] fix: asin and acos next to 1 and -1 were wrong in
 formats with few integer bits

---
 include/eirin/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 34d3b82..922379d 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -319,7 +319,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> f
         return pi / fixed(2);
     else if(fp == fixed(-1))
         return -pi / fixed(2);
-    return atan(fp / sqrt(fixed(1) - fp * fp));
+    const auto root = sqrt(fixed(1) - fp * fp);
+    // next to 1 and -1 the quotient might not be representable, but its reciprocal is.
+    if(root < abs(fp))
+        return (fp > fixed(0) ? pi / 2 : -pi / 2) - atan(root / fp);
+    return atan(fp / root);
 }
 
 template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r> pi = numbers::pi_v<fixed_num<T, I, f, r>>()>
-- 
2.43.0


From 90a89e98e293f2d7d83ec663f2770f4c0b326c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:47 +0000
Subject: [PATCH 61/73] fix: atan of an unsigned number divided by zero

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 922379d..4bbd80a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -278,7 +278,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
     // the polynomial only fits [0, 1], so use atan(x) = pi/2 - atan(1/x) outside.
-    const bool reciprocal = fp > fixed(1) || fp < fixed(-1);
+    const bool reciprocal = fp > fixed(1) || (std::is_signed_v<T> && fp < fixed(-1));
     auto x = abs(reciprocal ? fixed(1) / fp : fp);
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
-- 
2.43.0


From ed12ecb58d85bcee3d47b289f811b5e3b3a85372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:34 +0000
Subject: [PATCH 62/73] fix: logarithms did not terminate in formats with one
 integer bit

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4bbd80a..440e382 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -430,7 +430,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
         y -= (static_cast<T>(1u) << f);
     }
 
-    while(x >= (static_cast<T>(2u) << f))
+    while(x >= (static_cast<I>(2u) << f))
     {
         x >>= 1;
         y += (static_cast<T>(1u) << f);
@@ -440,7 +440,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     for(size_t i = 0; i < f; ++i)
     {
         z = (z * z) >> f;
-        if(z >= (static_cast<T>(2u) << f))
+        if(z >= (static_cast<I>(2u) << f))
         {
             z >>= 1;
             y += b;
-- 
2.43.0


From 2499a66da50ef4fd7192359b5f84b83c8df8dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:53 +0000
Subject: [PATCH 63/73] fix: the headers did not compile without exceptions

---
 include/eirin/error.hpp | 2 ++
 include/eirin/macro.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/error.hpp b/include/eirin/error.hpp
index e3d3bda..00860d0 100644
--- a/include/eirin/error.hpp
+++ b/include/eirin/error.hpp
@@ -1,7 +1,9 @@
 #ifndef EIRIN_MATH_ERROR_HPP
 #define EIRIN_MATH_ERROR_HPP
 
+#include <exception>
 #include <stdexcept>
+#include "macro.hpp"
 
 namespace eirin
 {
diff --git a/include/eirin/macro.hpp b/include/eirin/macro.hpp
index b6e52ac..5282f3a 100644
--- a/include/eirin/macro.hpp
+++ b/include/eirin/macro.hpp
@@ -15,7 +15,8 @@
 #    define EIRIN_ALWAYS_INLINE inline
 #endif
 
-#if defined(__EXCEPTIONS) && __EXCEPTIONS != 1
+// GCC and clang define __EXCEPTIONS only if exceptions are enabled.
+#if defined(__GNUC__) && !defined(__EXCEPTIONS)
 #    define EIRIN_NO_EXCEPTIONS
 #endif
 
-- 
2.43.0


From 30bef16b891173eca0d5ccf0b9255c3f29729fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:14 +0000
Subject: [PATCH 64/73] fix: cpuid leaf 7 was read even on processors that do
 not have it

---
 include/eirin/ext/simd_math.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 13e8589..1a25bde 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -39,10 +39,13 @@ class platform_support
         features_flag.set(0, (edx & (1 << 26)) != 0);
         features_flag.set(1, (ecx & (1 << 20)) != 0);
         features_flag.set(2, (ecx & (1 << 28)) != 0);
-        __cpuid_count(7, 0, eax, ebx, ecx, edx);
-        features_flag.set(3, (ebx & (1 << 5)) != 0);
-        features_flag.set(4, (ebx & (1 << 16)) != 0);
-        features_flag.set(5, (ebx & (1 << 17)) != 0);
+        // a processor without leaf 7 would return the data of another leaf.
+        if(__get_cpuid_count(7, 0, &eax, &ebx, &ecx, &edx))
+        {
+            features_flag.set(3, (ebx & (1 << 5)) != 0);
+            features_flag.set(4, (ebx & (1 << 16)) != 0);
+            features_flag.set(5, (ebx & (1 << 17)) != 0);
+        }
 #    elif defined(_MSC_VER)
         int cpu_info[4];
         __cpuid(cpu_info, 1);
@@ -51,8 +54,10 @@ class platform_support
         features_flag.set(0, (edx & (1 << 26)) != 0);
         features_flag.set(1, (ecx & (1 << 20)) != 0);
         features_flag.set(2, (ecx & (1 << 28)) != 0);
+        __cpuid(cpu_info, 0);
+        const bool has_leaf_7 = cpu_info[0] >= 7;
         __cpuidex(cpu_info, 7, 0);
-        uint32_t ebx = cpu_info[1];
+        uint32_t ebx = has_leaf_7 ? cpu_info[1] : 0;
         features_flag.set(3, (ebx & (1 << 5)) != 0);
         features_flag.set(4, (ebx & (1 << 16)) != 0);
         features_flag.set(5, (ebx & (1 << 17)) != 0);
-- 
2.43.0


From 1ba5fd998f97308d7605a41469e58acb28d03de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:35 +0000
Subject: [PATCH 65/73] fix: print_constants printed 61 fraction bits whatever
 number was requested

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index de8105d..7c230c3 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -126,7 +126,7 @@ inline void print_constants(int fraction = 61)
         auto val = eval_value<T>(cst_lst[i], fraction);
         auto name = csl_nme_lst[i];
         printf("\n// %s\ntemplate <typename T>\nEIRIN_ALWAYS_INLINE constexpr enable_if_fixed<T> %s_v()\n", name, name);
-        printf("{\n\treturn T::template from_fixed_num_value<61>(0x%lxll);\n}\n", val);
+        printf("{\n\treturn T::template from_fixed_num_value<%d>(0x%llxll);\n}\n", fraction, static_cast<unsigned long long>(val));
     }
 }
 
-- 
2.43.0


From 7e9cf1de329a263fe22f9d77262bb3a8061b0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:35 +0000
Subject: [PATCH 66/73] fix: sqrt of a large value overflowed in formats with
 at most 2 integer bits

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 440e382..ee2c538 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -163,7 +163,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
 
         for(int i = 0; i < 5; ++i)
         {
-            const auto next = (x + fp / x) / 2;
+            // the sum of the two might not be representable, if there are only few integer bits.
+            const auto quotient = fp / x;
+            const auto next = x < quotient ? x + (quotient - x) / 2 : quotient + (x - quotient) / 2;
             // the epsilon is far too coarse to decide here, especially for small values.
             if(next == x)
                 break;
-- 
2.43.0


From dd0d050088b7b53ac4d742239f8d58ec1de958b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 67/73] fix: operator<< padded the first character instead of
 the number when a width was set

---
 include/eirin/fixed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 49d83cd..b3d6494 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -20,6 +20,7 @@
 #include <ios>
 #include <limits>
 #include <istream>
+#include <string>
 #include <type_traits>
 #include <concepts>
 #include <iostream>
@@ -684,11 +685,13 @@ public:
 
     friend std::ostream& operator<<(std::ostream& os, const fixed_num& fp)
     {
-        auto iter = std::ostream_iterator<char>(os);
+        std::string text;
         auto flags = os.flags();
         int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));
         bool uppercase = (flags & std::ios_base::uppercase) != 0;
-        fixed_num::copy_as_chars_to(fp, iter, base, uppercase);
+        fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase);
+        // written as a whole, the width of the stream would pad the first character otherwise.
+        os << text;
         os.flush();
         return os;
     }
-- 
2.43.0


From 025e1f50539481ed043e7196ae4e556db7c539c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 68/73] fix: a width or precision beyond the range of int
 overflowed in format specifications

---
 include/eirin/io/format.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index ffbfd4a..945bf6b 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -6,6 +6,7 @@
 #include <version>
 #include <string>
 #include <algorithm>
+#include <limits>
 #include "../fixed.hpp"
 #ifdef __cpp_lib_format
 #    define EIRIN_HAS_LIB_FORMAT __cpp_lib_format
@@ -429,7 +430,10 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.width_val > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "width is too large");
+                st.width_val = st.width_val * 10 + digit;
                 ++it;
             }
         }
@@ -441,7 +445,10 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.precision = st.precision * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.precision > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "precision is too large");
+                st.precision = st.precision * 10 + digit;
                 ++it;
             }
         }
-- 
2.43.0


From 8da6df33a7d06022c2456b39032c9c810a529247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 69/73] fix: literals of text that is no number returned an
 uninitialized value

---
 include/eirin/fixed.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index b3d6494..7c9c537 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -824,7 +824,8 @@ inline namespace literals
     constexpr inline fixed32 operator""_f32(const char* str, size_t len)
     {
         fixed32 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid literal");
         return fp;
     }
 
@@ -834,7 +835,8 @@ inline namespace literals
         auto len = sizeof...(chars);
         const char str[] = {chars...};
         fixed32 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid literal");
         return fp;
     }
 
@@ -842,7 +844,8 @@ inline namespace literals
     constexpr inline fixed64 operator""_f64(const char* str, size_t len)
     {
         fixed64 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid literal");
         return fp;
     }
 
@@ -852,7 +855,8 @@ inline namespace literals
         auto len = sizeof...(chars);
         const char str[] = {chars...};
         fixed64 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid literal");
         return fp;
     }
 #endif
-- 
2.43.0


From d1d7d40b75bc0131c897722e90701c4face4a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 70/73] fix: copy_as_chars_to decremented an iterator past the
 beginning, so it was no constant expression

---
 include/eirin/fixed.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 7c9c537..33e7746 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -597,14 +597,13 @@ public:
                 int_part /= base;
                 if(iter == buffer.end())
                 {
-                    while(iter-- != buffer.begin())
-                        put_char(*iter);
-                    iter = buffer.begin();
+                    while(iter != buffer.begin())
+                        put_char(*--iter);
                 }
             }
         }
-        while(iter-- != buffer.begin())
-            put_char(*iter);
+        while(iter != buffer.begin())
+            put_char(*--iter);
 
         if(value != 0)
         {
-- 
2.43.0


From 3e608fb07557394e7879f8d7ffcccb788fb9cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 71/73] fix: reading a number at the end of a stream with
 exceptions for eofbit lost the number

---
 include/eirin/fixed.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 33e7746..ef90d41 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1089,6 +1089,11 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     if(!guard)
         return is;
 
+    // an exception for the end of the stream has to wait until the number is stored.
+    const std::ios_base::iostate exceptions = is.exceptions();
+    if(exceptions & std::ios_base::eofbit)
+        is.exceptions(std::ios_base::goodbit);
+
     bool negative = false, valid = false;
     auto has_next = [&]() -> bool
     {
@@ -1148,18 +1153,18 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         fixed_value += (dec_part << f) / divisor;
     }
 
-    // the source failed in the middle of the number.
-    if(is.bad())
-        return is;
     if(negative)
         fixed_value = -fixed_value;
-    if(!valid || !in_range || fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
+    // the source may have failed in the middle of the number.
+    if(!is.bad())
     {
-        is.setstate(std::ios_base::failbit);
-        return is;
+        if(!valid || !in_range || fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
+            is.setstate(std::ios_base::failbit);
+        else
+            fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     }
-
-    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
+    if(exceptions & std::ios_base::eofbit)
+        is.exceptions(exceptions);
     return is;
 }
 
-- 
2.43.0


From 16b4afdffff58beb0adfa3fe09c62499fd8aba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 72/73] fix: dividing the smallest number by the integer -1
 ended the program

---
 include/eirin/fixed.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ef90d41..67015a0 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -150,6 +150,12 @@ class fixed_num
                 return static_cast<Type>(0u - static_cast<unsigned_type>(magnitude / val));
             }
         }
+        if constexpr(std::is_signed_v<Type> && std::is_signed_v<T>)
+        {
+            // min / -1 traps on some platforms, where dividing by the number -1 wraps around.
+            if(val == -1) [[unlikely]]
+                return static_cast<Type>(std::make_unsigned_t<Type>(0) - static_cast<std::make_unsigned_t<Type>>(value));
+        }
         return static_cast<Type>(value / val);
     }
 
-- 
2.43.0


From 17135ced822d6d8368a10a6781c2b0daee4eb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 73/73] fix: cordic_sine was declared constexpr but could not
 be used in constant expressions

---
 include/eirin/ext/cordic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index b849e0c..8477932 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -19,7 +19,7 @@ namespace detail
     }
 
     template <fixed_point T>
-    const T K = cordic_k<T>();
+    constexpr T K = cordic_k<T>();
 
     template <typename T, typename I, unsigned int f, bool r>
     struct cordic_angels
-- 
2.43.0

