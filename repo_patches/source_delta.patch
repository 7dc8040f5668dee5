From 3776fbdbb253f1d30cb2f9b0e568071abec1a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 01/61] fix: exp() scales its linear coefficient by 2^62, not
 2^63

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..a15dc98 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -526,7 +526,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 575e51df1c2f9c9be07d3d18a4f5b16d1d38d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 02/61] fix: exp() of negative numbers whose reciprocal exceeds
 the range

---
 include/eirin/math.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index a15dc98..5c45f9b 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -518,8 +518,8 @@ namespace detail
     EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp_expand(fixed_num<T, I, f, r> fp) noexcept
     {
         using fixed = fixed_num<T, I, f, r>;
-        // the integer part of the input fixed point number.
-        const T x_int = fp.integral_part();
+        // the integer part of the input fixed point number, rounded down.
+        const T x_int = static_cast<T>(fp.internal_value() >> f);
         fp -= x_int;
 
         constexpr auto a = fixed::template from_fixed_num_value<63>(0x01C798ECC0CBC856ll); // 1.3903728105644451e-2
@@ -528,7 +528,9 @@ namespace detail
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
         constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
-        return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
+        constexpr auto inv_e = fixed::template from_fixed_num_value<63>(0x2F16AC6C59DE6F8Dll); // 3.6787944117144233e-1
+        const auto e_pow = x_int < 0 ? pow(inv_e, -x_int) : pow(numbers::e_v<fixed>(), x_int);
+        return e_pow * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
 } // namespace detail
 
@@ -539,8 +541,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 
     if(fp == fixed(0))
         return fixed(1);
-    if(fp < fixed(0))
-        return fixed(1) / detail::exp_expand(-fp);
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From d869fdce3d821322bdf0e4a5888436ddee5f684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 03/61] fix: ceil() and floor() of negative numbers and near
 the range limits

---
 include/eirin/math.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 5c45f9b..e32aded 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -32,29 +32,22 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
+    constexpr auto frac_mult = I(1) << f;
+    auto value = static_cast<I>(fp.internal_value() >> f) * frac_mult;
+    if(value != static_cast<I>(fp.internal_value()))
+        value += frac_mult;
     // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    if(value > static_cast<I>(std::numeric_limits<T>::max()))
+        return fixed::from_internal_value(std::numeric_limits<T>::max());
+    return fixed::from_internal_value(static_cast<T>(value));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    constexpr auto frac_mult = I(1) << f;
+    return fixed::from_internal_value(static_cast<T>((fp.internal_value() >> f) * frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 9bc722ac9eca2ec27ae44fdf4aa2d9f1559dfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 04/61] fix: integral_part() of a negative number with a
 fractional part

---
 include/eirin/fixed.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..cfcd465 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -265,12 +265,14 @@ public:
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
         Type result = m_value;
+        result >>= fraction; // Drop fractional part
         if(signbit(*this))
         {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
+            // the shift rounds down, the integral part rounds towards zero.
+            if(fractional_part() != 0)
+                ++result;
+            result = -result;
         }
-        result >>= fraction; // Drop fractional part
 
         return result;
     }
-- 
2.43.0


From 82f556315e3dbdc3d1baf713a08726c380ad8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 05/61] fix: conversion to floating point keeps the fractional
 part

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index cfcd465..81e5202 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -297,7 +297,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(static_cast<std::uint64_t>(1) << fraction);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From 29864d42a5493c615d84eeea3eeae213864826a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 06/61] fix: rounding multiplication and division returned
 twice the result

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 81e5202..107fd82 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -339,7 +339,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -352,7 +352,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -373,7 +373,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -386,7 +386,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -619,7 +619,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -644,7 +644,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From f919a26f27560f1e116614b278d85643ffeeff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 07/61] fix: rounding construction from a non-negative floating
 point number

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 107fd82..99a09b6 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From 660488542307df6c040f4526866e4440d854a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 08/61] fix: overflow when converting to a format with more
 fraction bits

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 99a09b6..bacfa5a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -499,7 +499,7 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From 98896ebc985770c2879974226193d74c2463c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 09/61] fix: log2() for formats with more than 32 fraction bits

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e32aded..f74e675 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -409,7 +409,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-- 
2.43.0


From 8013d3b67a0673f8eeabe66356f1105819d5f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 10/61] fix: sign of sin() for tiny negative angles

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f74e675..e262706 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -216,7 +216,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
     if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From c8c911d6b865ca106cf10a19c5e83e2439146c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 11/61] fix: atan() of numbers beyond one

---
 include/eirin/math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e262706..affb224 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -284,11 +284,14 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto a = -1 * fixed::template from_fixed_num_value<61>(0X17CE62CE264A340); // 0.0464964749
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
-    // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
     auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    // the polynomial only fits [0, 1], for larger x use atan(x) = pi / 2 - atan(1 / x).
+    const bool reciprocal = abs_fp > fixed(1);
+    auto x = reciprocal ? fixed(1) / abs_fp : abs_fp;
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(reciprocal)
+        result = pi / fixed(2) - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
-- 
2.43.0


From e398dc8786449e8c9c108811d92eedc3ff07c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 12/61] fix: division by zero in cbrt(), and cbrt() of negative
 numbers

---
 include/eirin/math.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index affb224..9e94c58 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -361,18 +361,26 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    if(fp == fixed(0) || abs(fp) < fixed::epsilon())
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
+    // cbrt(-x) = -cbrt(x)
+    const bool negative = fp < fixed(0);
+    if(negative)
+        fp = -fp;
+    // start from the least power of two above the root, the newton method then only goes down.
+    const auto exponent = (detail::find_msb(fp.internal_value()) + 2 * static_cast<int>(f) + 3) / 3;
+    auto x = fixed::from_internal_value(static_cast<T>(1) << exponent);
     auto iter_count = 0;
-    constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
 
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    while(iter_count <= iter_max)
     {
-        x = (fp / (x * x) + x * 2) / 3;
+        const auto next = (fp / (x * x) + x * 2) / 3;
+        if(next >= x)
+            break;
+        x = next;
         ++iter_count;
     }
-    return x;
+    return negative ? -x : x;
 }
 
 /**
-- 
2.43.0


From e9efc4e9bfc7c809a207eb953b7b774c5624f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 13/61] fix: pow() of a negative base terminated the program

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9e94c58..0b881c6 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -551,7 +551,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -564,6 +564,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From 5a49e861ffe37ac31f8f226052c1bfac30428149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 14/61] fix: division by zero in pow() with a negative exponent

---
 include/eirin/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 0b881c6..4d4de7f 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -497,7 +497,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     }
 
     auto res = fixed(1);
-    if(e < 0)
+    if(e < 0 && abs(b) >= fixed(1))
     {
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
@@ -507,6 +507,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     }
     else
     {
+        // the powers of a base below one may underflow to zero, so invert the base instead.
+        if(e < 0)
+            b = fixed(1) / b;
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
             if(e % 2 != 0)
-- 
2.43.0


From a4070df2785a3ed310c6cb0ff1ff782cc243b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 15/61] fix: nearly comparisons overflowed, and were always
 false for unsigned store types

---
 include/eirin/fixed.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index bacfa5a..3fbaa07 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -454,26 +454,22 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
+        return !nearly_gt(other) && !nearly_lt(other);
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
+        return nearly_gt(other) || nearly_lt(other);
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div > nearly_compare_epsilon().m_value;
+        return m_value > static_cast<IntermediateType>(other.m_value) + nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value;
+        return other.nearly_gt(*this);
     }
 
     constexpr inline bool nearly_gt_eq(const fixed_num& other) const noexcept
-- 
2.43.0


From bcc15c80538eeca08cd050b7735b1037c143d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 16/61] fix: division of a negative number by an unsigned
 integral

---
 include/eirin/fixed.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 3fbaa07..aeae64f 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,18 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    template <std::integral T>
+    static constexpr Type divide_integral(Type value, T val) noexcept
+    {
+        if constexpr(std::is_signed_v<Type> && std::is_unsigned_v<T>)
+        {
+            // the usual arithmetic conversions would turn a negative value into a huge unsigned one.
+            if(value < 0)
+                return static_cast<Type>(-static_cast<Type>((static_cast<std::make_unsigned_t<Type>>(0) - static_cast<std::make_unsigned_t<Type>>(value)) / val));
+        }
+        return static_cast<Type>(value / val);
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -397,7 +409,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_integral(m_value, val);
         return *this;
     }
 
@@ -604,7 +616,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_integral(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -628,7 +640,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_integral(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From 731b22bf09b790105f2d498aab6513ad376a7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 17/61] fix: modulo of a fixed number by an integral did not
 compile

---
 include/eirin/fixed.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index aeae64f..4821bc9 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -424,6 +424,11 @@ public:
         return *this;
     }
 
+    constexpr inline fixed_num& operator%=(const std::integral auto& val) noexcept
+    {
+        return *this %= fixed_num(val);
+    }
+
     constexpr inline fixed_num operator-() const noexcept
     {
         return fixed_num(-m_value, raw_value_construct_tag{});
-- 
2.43.0


From 15448a42c98942ae4cebf0dc422d2b859f7a4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 18/61] fix: sqrt() of 32 bit formats whose fraction is not 16
 bits, and of negative numbers

---
 include/eirin/math.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4d4de7f..702aca6 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -95,21 +95,13 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // test if T is int32_t, if so, we can use the fast sqrt algorithm.
+    if(fp < fixed(0))
+        return fixed(-1);
+    // test if T is int32_t with 16 fraction bits, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
@@ -160,8 +152,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     }
     else
     {
-        if(fp < fixed(0))
-            return fixed(-1);
         if(fp == fixed(0))
             return fixed(0);
         const T val = fp.internal_value();
-- 
2.43.0


From dcf04410d7a26a912fe461cdbbbea759543dd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 19/61] fix: stream insertion of formats with many fraction
 bits and of unsigned formats

---
 include/eirin/fixed.hpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4821bc9..e6f2160 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -539,30 +539,20 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = IntermediateType(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        IntermediateType value = val.m_value;
+        if(value < 0)
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
-            value = 0;
-        }
-        else
-        {
-            if(value < 0)
-            {
-                put_char('-');
-                value = -value;
-            }
-            int_part = value >> fraction;
+            value = -value;
         }
+        IntermediateType int_part = value >> fraction;
         value %= divisor;
         std::array<char, 514> buffer;
         auto iter = buffer.begin();
@@ -575,7 +565,7 @@ public:
         {
             while(int_part > 0)
             {
-                auto digit = int_part % base;
+                auto digit = static_cast<int>(int_part % base);
                 *iter++ = digits[digit];
                 int_part /= base;
                 if(iter == buffer.end())
@@ -607,7 +597,7 @@ public:
                     value *= base;
                 }
 
-                auto digit = (value / divisor) % base;
+                auto digit = static_cast<int>((value / divisor) % base);
                 put_char(digits[digit]);
                 value %= divisor;
             }
-- 
2.43.0


From c9363be8b9686329e29dc9c149bacffdd37f8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 20/61] fix: integer overflow, range checks and trailing
 garbage in the string parsers

---
 include/eirin/fixed.hpp | 50 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e6f2160..a255860 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -684,6 +684,20 @@ namespace detail
     struct is_fixed_point<fixed_num<T, I, f, r>> : public std::true_type
     {};
 
+    // the largest magnitude of the integral part, reached by the minimum value only.
+    template <typename T, typename I, unsigned int f>
+    constexpr I max_integral() noexcept
+    {
+        return static_cast<I>(std::numeric_limits<T>::max() >> f) + 1;
+    }
+
+    // the largest power of ten in use as divisor has room for one more digit.
+    template <typename I>
+    constexpr I max_divisor() noexcept
+    {
+        return (static_cast<I>(1) << (sizeof(I) * 8 - 2)) / 10;
+    }
+
     template <typename CharT, typename T, typename I, unsigned int f, bool r>
     constexpr bool parse(const CharT* str, size_t len, fixed_num<T, I, f, r>& fp) noexcept
     {
@@ -715,6 +729,8 @@ namespace detail
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            if(int_part > max_integral<T, I, f>())
+                return false;
         }
 
         I fixed_value;
@@ -728,11 +744,10 @@ namespace detail
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
                 auto digit = next() - '0';
+                // the remaining digits are beyond the precision, they only have to be digits.
+                if(dec_part > max_fraction / 10 || divisor > max_divisor<I>())
+                    continue;
                 dec_part = dec_part * 10 + digit;
                 divisor *= 10;
             }
@@ -743,6 +758,8 @@ namespace detail
             fixed_value = int_part << fixed::precision;
         }
 
+        if(negative)
+            fixed_value = -fixed_value;
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
         {
@@ -750,8 +767,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -923,6 +938,10 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > detail::max_integral<int32_t, int64_t, fixed32::precision>())
+        {
+            return false;
+        }
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -937,11 +956,12 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
+            auto digit = next() - '0';
+            // the remaining digits are beyond the precision, they only have to be digits.
+            if(dec_part > max_fraction / 10 || divisor > detail::max_divisor<int64_t>())
             {
-                break;
+                continue;
             }
-            auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
@@ -952,6 +972,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         fixed_value = int_part << fixed32::precision;
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
@@ -959,8 +981,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -1001,6 +1021,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > detail::max_integral<T, I, f>())
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
@@ -1011,7 +1033,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(dec_part > max_fraction / 10 || divisor > detail::max_divisor<I>() || !check_ch(peek()))
                 break;
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
@@ -1024,6 +1046,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         fixed_value = (int_part << f);
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
@@ -1031,8 +1055,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From 83f1ff77bf3ac8efabb47bcb8f49eaa5b1f22c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 21/61] fix: stream extraction: whitespace, overflow, precision
 and error reporting

---
 include/eirin/fixed.hpp | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index a255860..9ac93ec 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1059,10 +1059,14 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    bool negative = false;
+    // skips the leading whitespaces, and fails at the end of the stream.
+    const typename std::basic_istream<CharT, Traits>::sentry ready(is);
+    if(!ready)
+        return is;
+    bool negative = false, has_digits = false;
     auto peek = [&]() -> CharT
     {
         return is.peek();
@@ -1073,49 +1077,61 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        return is.good() && !Traits::eq_int_type(is.peek(), Traits::eof());
     };
-    if(!has_next())
+    auto check_ch = [](CharT ch) -> bool
     {
-        return is;
-    }
-    else if(peek() == '-')
+        return '0' <= ch && ch <= '9';
+    };
+    if(has_next() && peek() == '-')
     {
         negative = true;
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    I int_part = I(0), dec_part = I(0), divisor = I(1);
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
-        if(!isdigit(peek()))
+        if(!check_ch(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        auto digit = next() - '0';
+        has_digits = true;
+        // an integer part out of range stays out of range.
+        if(int_part <= detail::max_integral<T, I, f>())
+            int_part = int_part * 10 + digit;
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
+        constexpr auto max_fraction = (I(1) << f) - I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
+            if(!check_ch(peek()))
                 break;
             auto digit = next() - '0';
+            has_digits = true;
+            // the remaining digits are beyond the precision, just consume them.
+            if(dec_part > max_fraction / 10 || divisor > detail::max_divisor<I>())
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
     }
-    else
+
+    bool valid = has_digits && int_part <= detail::max_integral<T, I, f>();
+    if(valid)
     {
-        fp = fixed::from_internal_value(int_part << f);
+        I fixed_value = (int_part << f) + (dec_part << f) / divisor;
+        if(negative)
+            fixed_value = -fixed_value;
+        valid = fixed_value <= static_cast<I>(std::numeric_limits<T>::max()) && fixed_value >= static_cast<I>(std::numeric_limits<T>::min());
+        if(valid)
+            fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     }
-    if(negative)
-        fp = -fp;
+    if(!valid)
+        is.setstate(std::ios_base::failbit);
     return is;
 }
 
-- 
2.43.0


From 3e9efac67edced19f1327e3f49f3c8f124c8fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 22/61] fix: io::parse() overflow, and reading past the end of
 a string_view

---
 include/eirin/io/parse.hpp | 139 +++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 69 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..e2319f8 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,91 +8,92 @@
 
 namespace eirin::io
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+namespace detail
 {
-    size_t pos = 0;
-    bool negative = false;
-    auto peek = [&]() -> char
-    {
-        return *start;
-    };
-    auto next = [&]() -> char
+    template <typename HasNext>
+    inline const char* parse_until(const char* start, HasNext has_next_at, fixed32& out)
     {
-        ++pos;
-        return *(start++);
-    };
-    auto has_next = [&]() -> bool
-    {
-        return *start != *stop;
-    };
+        const char* const begin = start;
+        bool negative = false;
+        auto peek = [&]() -> char
+        {
+            return *start;
+        };
+        auto next = [&]() -> char
+        {
+            return *(start++);
+        };
+        auto has_next = [&]() -> bool
+        {
+            return has_next_at(start);
+        };
 
-    if(has_next() && peek() == '-')
-    {
-        negative = true;
-        next();
-    }
+        if(has_next() && peek() == '-')
+        {
+            negative = true;
+            next();
+        }
 
-    auto is_digit = [](char ch) -> bool
-    {
-        return '0' <= ch && ch <= '9';
-    };
+        auto is_digit = [](char ch) -> bool
+        {
+            return '0' <= ch && ch <= '9';
+        };
 
-    int32_t int_part = 0, dec_part = 0;
-    // parse the integer part.
-    while(has_next() && peek() != '.')
-    {
-        if(!is_digit(peek()))
+        int64_t int_part = 0, dec_part = 0, divisor = 1;
+        // parse the integer part.
+        while(has_next() && peek() != '.')
         {
-            return start -= pos;
+            if(!is_digit(peek()))
+                return begin;
+            int_part = int_part * 10 + (next() - '0');
+            if(int_part > eirin::detail::max_integral<int32_t, int64_t, fixed32::precision>())
+                return begin;
         }
-        int_part = int_part * 10 + (next() - '0');
-    }
-    // parse the decimal part.
-    if(has_next() && peek() == '.')
-    {
-        next();
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
-        while(has_next())
+        // parse the decimal part.
+        if(has_next() && peek() == '.')
         {
-            if(!is_digit(peek()))
+            next();
+            constexpr auto max_fraction = (1 << fixed32::precision) - 1;
+            while(has_next())
             {
-                return start -= pos;
+                if(!is_digit(peek()))
+                    return begin;
+                auto digit = next() - '0';
+                // the remaining digits are beyond the precision, they only have to be digits.
+                if(dec_part > max_fraction / 10 || divisor > eirin::detail::max_divisor<int64_t>())
+                    continue;
+                dec_part = dec_part * 10 + digit;
+                divisor *= 10;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        int64_t fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
+        if(negative)
+            fixed_value = -fixed_value;
+        // check overflow
+        if(fixed_value > std::numeric_limits<int32_t>::max() || fixed_value < std::numeric_limits<int32_t>::min())
+            return begin;
+        out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
+        return start;
     }
-    else
-    {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
-    }
-    if(negative)
-        out = -out;
-    return start;
+} // namespace detail
+
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(start, [stop](const char* pos) { return *pos != *stop; }, out);
 }
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    const char* const stop = str.data() + str.size();
+    return detail::parse_until(str.data(), [stop](const char* pos) { return pos != stop; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From 25f7e779e736c5433910837854d4d7171e63ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 23/61] fix: undefined shift in the permuted congruential
 engine

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..60806ce 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & (std::numeric_limits<UIntType>::digits - 1);
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & (std::numeric_limits<UIntType>::digits - 1);
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From 8480ed575667ee9538cead288c85512045459099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 24/61] fix: seeding the permuted congruential engine did not
 reset its state

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 60806ce..c297e00 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 955082ae0f661fba9028c6c66a49135ccd4a4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 25/61] fix: writing the permuted congruential engine left the
 stream flags modified

---
 include/eirin/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index c297e00..67e2231 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -141,9 +141,10 @@ public:
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
         // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
+        const auto flags = os.flags(std::ios_base::dec | std::ios_base::left);
         // write the current state into the stream.
-        os << obj.m_seed << ' ' << obj.m_state;
+        os << obj.m_seed << os.widen(' ') << obj.m_state;
+        os.flags(flags);
         return os;
     }
 };
-- 
2.43.0


From 054be6f36820af5899333306c776243768e00282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 26/61] fix: the distribution adapters ignored the parameters
 of a single call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From f4519327f2cb0c188e215299cee18a6f207e77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 27/61] fix: cordic_sine() of negative angles

---
 include/eirin/ext/cordic.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..d39c872 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,10 +81,7 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
+        Q = abs(Q);
 
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
-- 
2.43.0


From 4ec2cb58b6e73f399966dab2b84fd7ddd4e62e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 28/61] fix: simd_reduce_angle() lost the high half of the
 products with AVX-512

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..5af9344 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise 64-bit fixed point multiplication, (a * b) >> 32 of the 128-bit product.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +143,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From 6aa3568e95d0515228c808671caae3ba344765a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 29/61] fix: numeric_limits::is_signed of unsigned formats

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9ac93ec..8eaa78b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1159,7 +1159,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     using fixed_type = eirin::fixed_num<T, I, f, r>;
 
     static constexpr bool is_specialized = true;
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = std::is_signed_v<T>;
     static constexpr bool is_integer = false;
     static constexpr bool is_exact = true;
     static constexpr bool has_infinity = false;
-- 
2.43.0


From 1a26b8519b8da84eb06faa2a5d7ce17e57f5daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 30/61] fix: std::format of formats with many fraction bits

---
 include/eirin/io/format.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..d6eee47 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -150,14 +150,14 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From 7324aefc60641986c50adc76bee393945d4cfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 31/61] fix: std::format with precision zero printed a trailing
 decimal point

---
 include/eirin/io/format.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index d6eee47..2e4036a 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -140,7 +140,9 @@ public:
             bool has_frac = (frac_val != 0);
             int used_prec = 0;
 
-            if(has_frac)
+            int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
+
+            if(has_frac && eff_prec > 0)
             {
                 body.push_back(static_cast<CharT>('.'));
 
@@ -148,8 +150,6 @@ public:
                                          detail::digit_map_upper :
                                          detail::digit_map_lower;
 
-                int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
-
                 I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
@@ -167,7 +167,6 @@ public:
             // trailing zeros for fixed-point types (f/F)
             if(m_state.type == 'f' || m_state.type == 'F')
             {
-                int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
                 while(used_prec < eff_prec)
                 {
                     if(used_prec == 0)
-- 
2.43.0


From 199c61a9ddb369486b87efe916f218b4c3559c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 32/61] fix: std::format zero padding before the sign and after
 the digits

---
 include/eirin/io/format.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 2e4036a..f3cd4f7 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -124,7 +124,7 @@ public:
             {
                 body = prefix + digit_str;
             }
-            return output_aligned(out, body);
+            return output_aligned(out, body, prefix.size());
         }
 
         body = prefix + digit_str;
@@ -177,7 +177,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix.size());
     }
 
 private:
@@ -217,6 +217,7 @@ private:
 
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
+        const auto prefix_size = body.size();
 
         const auto& digits = detail::digit_map_lower;
 
@@ -236,7 +237,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix_size);
     }
 
     // Convert an integer to a string in the given base
@@ -323,14 +324,21 @@ private:
     }
 
     template <typename OutputIt>
-    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
+    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body, std::size_t prefix_size) const
     {
         auto sz = body.size();
         if(m_state.width_val <= 0 || static_cast<std::size_t>(m_state.width_val) <= sz)
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
+        if(m_state.zero_pad)
+        {
+            // the zeros go between the sign, the radix prefix and the digits.
+            out = std::copy_n(body.begin(), prefix_size, out);
+            out = std::fill_n(out, pad_cnt, static_cast<CharT>('0'));
+            return std::copy(body.begin() + prefix_size, body.end(), out);
+        }
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
@@ -436,7 +444,8 @@ public:
         // [0]
         if(it != end && *it == '0')
         {
-            st.zero_pad = true;
+            // ignored when an alignment is present.
+            st.zero_pad = st.align_mode == '\0';
             ++it;
         }
 
-- 
2.43.0


From 004117ca050dd96fe0b0de7c7b927d1056a3302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 33/61] fix: division of a negative 8 or 16 bit number by an
 unsigned integral

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 8eaa78b..cf36dd6 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -142,7 +142,7 @@ class fixed_num
         {
             // the usual arithmetic conversions would turn a negative value into a huge unsigned one.
             if(value < 0)
-                return static_cast<Type>(-static_cast<Type>((static_cast<std::make_unsigned_t<Type>>(0) - static_cast<std::make_unsigned_t<Type>>(value)) / val));
+                return static_cast<Type>(-static_cast<Type>(static_cast<std::make_unsigned_t<Type>>(-static_cast<IntermediateType>(value)) / val));
         }
         return static_cast<Type>(value / val);
     }
-- 
2.43.0


From ff968b9b6b6bb7d4c9dc9d49bcdc5ac604721e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:24 +0000
Subject: [PATCH 34/61] fix: rounding construction from a floating point number
 changed representable values

---
 include/eirin/fixed.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index cf36dd6..391ef22 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -188,9 +188,17 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // the dropped fraction is exact, while adding one half to a large value is not.
+                const T dropped = scaled - static_cast<T>(m_value);
+                if(dropped >= T{0.5})
+                    ++m_value;
+                else if(dropped <= T{-0.5})
+                    --m_value;
+            }
         }
     };
 
-- 
2.43.0


From 5834135acaf3a6ee08dd823f075aa7dd87b31aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:40 +0000
Subject: [PATCH 35/61] fix: pow with a negative exponent divided by an
 overflowed square

---
 include/eirin/math.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 702aca6..e56f852 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -493,6 +493,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
         {
             if(e % 2 != 0)
                 res /= i;
+            // when the square of i is not representable, divide by i the remaining times instead.
+            if(static_cast<I>(i.internal_value()) * i.internal_value() >> f > std::numeric_limits<T>::max())
+            {
+                for(e = e / 2 * 2; e != 0 && res != fixed(0); e += 1)
+                    res /= i;
+                break;
+            }
         }
     }
     else
-- 
2.43.0


From ba74d6f23176943a29da40fbbce44d66feae0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:47 +0000
Subject: [PATCH 36/61] fix: asin and acos overflow near one in formats with
 few integer bits

---
 include/eirin/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e56f852..f273c49 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -316,7 +316,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> f
         return pi / fixed(2);
     else if(fp == fixed(-1))
         return -pi / fixed(2);
-    return atan(fp / sqrt(fixed(1) - fp * fp));
+    const auto cosine = sqrt(fixed(1) - fp * fp);
+    // fp / cosine may not be representable when fp is close to 1 or -1, use the complement there.
+    if(abs(fp) > cosine)
+        return (fp < fixed(0) ? -pi : pi) / fixed(2) - atan(cosine / fp);
+    return atan(fp / cosine);
 }
 
 template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r> pi = numbers::pi_v<fixed_num<T, I, f, r>>()>
-- 
2.43.0


From cbd6c5be80d4903442b1a566a66154fd234407ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 37/61] fix: sin of the lowest value returned its argument

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f273c49..bb4e510 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -205,7 +205,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
+    if(fp < fixed(0.00015) && fp > fixed(-0.00015))
         return fp;
 
     // reduce the range to [0, 1] due to sin is
-- 
2.43.0


From cf94be45070bbba4c06f19371f9ada85c5018d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 38/61] fix: asin and acos of the lowest value did not report
 the domain error

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index bb4e510..a0fa0f1 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -310,7 +310,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -327,7 +327,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From 7f6702846e2abdeb733b1589377fafb3a44d1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 39/61] fix: atan of the lowest value

---
 include/eirin/math.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index a0fa0f1..55c49c9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -274,10 +274,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto a = -1 * fixed::template from_fixed_num_value<61>(0X17CE62CE264A340); // 0.0464964749
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
-    auto abs_fp = abs(fp);
     // the polynomial only fits [0, 1], for larger x use atan(x) = pi / 2 - atan(1 / x).
-    const bool reciprocal = abs_fp > fixed(1);
-    auto x = reciprocal ? fixed(1) / abs_fp : abs_fp;
+    const bool reciprocal = fp > fixed(1) || fp < fixed(-1);
+    auto x = abs(reciprocal ? fixed(1) / fp : fp);
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
     if(reciprocal)
-- 
2.43.0


From 8375376c56dc9679ff9b4680907939b8169e372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 40/61] fix: cbrt of the lowest value

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 55c49c9..37f28e5 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -354,12 +354,12 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(fp == fixed(0) || abs(fp) < fixed::epsilon())
+    if(fp == fixed(0) || (fp < fixed::epsilon() && fp > -fixed::epsilon()))
         return fixed(0);
     // cbrt(-x) = -cbrt(x)
     const bool negative = fp < fixed(0);
     if(negative)
-        fp = -fp;
+        fp = fp == std::numeric_limits<fixed>::min() ? std::numeric_limits<fixed>::max() : -fp;
     // start from the least power of two above the root, the newton method then only goes down.
     const auto exponent = (detail::find_msb(fp.internal_value()) + 2 * static_cast<int>(f) + 3) / 3;
     auto x = fixed::from_internal_value(static_cast<T>(1) << exponent);
-- 
2.43.0


From f967846774f833c04c5af9f4481b739f8ee5a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:35 +0000
Subject: [PATCH 41/61] fix: sin and cos in formats that cannot represent pi
 squared

---
 include/eirin/math.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 37f28e5..a464d3c 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -215,11 +215,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
 
     // we use tyler series to calculate sin(x).
     // n = 4 has enough precision.
+    // (pi / 2)^2 is representable in more formats than pi^2.
     const auto x2 = x * x;
-    constexpr auto a = pi * pi / 24;
-    constexpr auto b = pi * pi / 80;
-    constexpr auto c = pi * pi / 168;
-    constexpr auto d = pi * pi / 288;
+    constexpr auto pi_2 = pi / fixed(2);
+    constexpr auto a = pi_2 * pi_2 / 6;
+    constexpr auto b = pi_2 * pi_2 / 20;
+    constexpr auto c = pi_2 * pi_2 / 42;
+    constexpr auto d = pi_2 * pi_2 / 72;
     auto res = fixed::pi() * x * (fp1 - a * x2 * (fp1 - b * x2 * (fp1 - c * x2 * (fp1 - d * x2)))) / 2;
     return negative ? -res : res;
 }
-- 
2.43.0


From 7fc6aee164254090e5e6b6217ee687031d5ca003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:17 +0000
Subject: [PATCH 42/61] fix: cordic_sine of the lowest value

---
 include/eirin/ext/cordic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index d39c872..7d7a53f 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,10 +81,10 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        Q = abs(Q);
-
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
+
+        Q = abs(Q);
         
         const bool in_second_half = (Q > pi);
         Q = in_second_half ? (Q - pi) : Q;
-- 
2.43.0


From e572816a11a8bbf80ac05a9f8a0036f4313504ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:24 +0000
Subject: [PATCH 43/61] fix: simd_reduce_angle_2 multiplied the low halves only
 and swapped its lanes

---
 include/eirin/ext/simd_math.hpp | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 5af9344..efdd5bc 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -196,6 +196,33 @@ namespace detail
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
 
+    // the 128-bit counterparts of avx_mm256_mullo_epi64 and _mm256_fpint_epi64.
+    EIRIN_ALWAYS_INLINE __m128i sse_mm_mullo_epi64(__m128i __A, __m128i __B)
+    {
+        __m128i sign_mask_a = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__A, 63));
+        __m128i sign_mask_b = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__B, 63));
+
+        __m128i abs_a = _mm_sub_epi64(_mm_xor_si128(__A, sign_mask_a), sign_mask_a);
+        __m128i abs_b = _mm_sub_epi64(_mm_xor_si128(__B, sign_mask_b), sign_mask_b);
+        __m128i a_hi = _mm_srli_epi64(abs_a, 32);
+        __m128i b_hi = _mm_srli_epi64(abs_b, 32);
+
+        // _mm_mul_epu32 only uses the low 32 bits of each lane.
+        __m128i mid = _mm_add_epi64(_mm_mul_epu32(a_hi, abs_b), _mm_mul_epu32(abs_a, b_hi));
+        __m128i result = _mm_add_epi64(_mm_add_epi64(mid, _mm_slli_epi64(_mm_mul_epu32(a_hi, b_hi), 32)), _mm_srli_epi64(_mm_mul_epu32(abs_a, abs_b), 32));
+
+        __m128i sign = _mm_xor_si128(sign_mask_a, sign_mask_b);
+        return _mm_sub_epi64(_mm_xor_si128(result, sign), sign);
+    }
+
+    EIRIN_ALWAYS_INLINE __m128i _mm_fpint_epi64(__m128i __X)
+    {
+        __m128i sign_mask = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(__X, 63));
+        __m128i abs_val = _mm_sub_epi64(_mm_xor_si128(__X, sign_mask), sign_mask);
+        __m128i integer_part = _mm_slli_epi64(_mm_srli_epi64(abs_val, 32), 32);
+        return _mm_sub_epi64(_mm_xor_si128(integer_part, sign_mask), sign_mask);
+    }
+
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
         // these [2 * i64] vector stores the fixed point internal represent.
@@ -203,10 +230,10 @@ namespace detail
         static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
         static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
         static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
+        // n = trunc(x / (2pi))
+        __m128i n = _mm_fpint_epi64(sse_mm_mullo_epi64(x, inv_two_pi));
         // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        return _mm_sub_epi64(x, sse_mm_mullo_epi64(n, two_pi));
     }
 } // namespace detail
 
@@ -224,7 +251,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0), r2 = _mm_extract_epi64(rv, 1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From 8c1849edeaa4a907814f2455bb6d556ace26835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 44/61] fix: sqrt overflowed near the upper limit of the range

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index a464d3c..486e54f 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -164,7 +164,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         for(int i = 0; i < 5; ++i)
         {
             x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            // the square of x may exceed the range of T.
+            const I diff = static_cast<I>(val) - (static_cast<I>(x.internal_value()) * x.internal_value() >> f);
+            if((diff < 0 ? -diff : diff) < static_cast<I>(eps.internal_value()))
                 break;
         }
         return x;
-- 
2.43.0


From c6b53dc43c2977a68a41a16491be964e919b2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:38 +0000
Subject: [PATCH 45/61] fix: fmod overflowed when the multiple of the divisor
 is not representable

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 486e54f..2e8b8aa 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -580,7 +580,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
 template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> fmod(fixed_num<T, I, f, r> a, fixed_num<T, I, f, r> b) noexcept
 {
-    return a - b * floor(a / b);
+    // b * floor(a / b) may exceed the range of T even if the remainder does not.
+    const I multiple = static_cast<I>(b.internal_value()) * floor(a / b).internal_value() >> f;
+    return fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(a.internal_value() - multiple));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From ce8a9487e7b3d67dccc7ec736e9b62ad0a758d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:20 +0000
Subject: [PATCH 46/61] fix: pow of the lowest value with a negative exponent
 overflowed

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 2e8b8aa..9b3259c 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -494,7 +494,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     }
 
     auto res = fixed(1);
-    if(e < 0 && abs(b) >= fixed(1))
+    if(e < 0 && (b >= fixed(1) || b <= fixed(-1)))
     {
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
-- 
2.43.0


From 78aa8bab6cebd3a9f8e2b01e8007665f4885c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 47/61] fix: platform_support published the feature flags
 before they were filled

---
 include/eirin/ext/simd_math.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index efdd5bc..35d3e49 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -27,17 +27,18 @@ namespace eirin::simd
 {
 class platform_support
 {
-    static inline bool features_detected = false;
-
     // we only consider to support x86 for now.
     // a bit set for storeage.
     static inline std::bitset<8> features_flag = 0x00;
 
     EIRIN_ALWAYS_INLINE static void detect_features()
     {
-        if(features_detected) [[likely]]
-            return;
-        features_detected = true;
+        // initialized once, other threads wait until the flags are complete.
+        [[maybe_unused]] static const bool features_detected = (query_features(), true);
+    }
+
+    inline static void query_features()
+    {
 #ifdef EIRIN_ARCH_X86
 #    if defined(__GNUC__) || defined(__clang__)
         u_int32_t eax, ebx, ecx, edx;
-- 
2.43.0


From 09c953e924a7b0772d70c2e8089fb88567326ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 48/61] fix: int128 lost the sign of its operand and the carry
 of a sum

---
 include/eirin/ext/builtin_ints.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index d259d4a..2b8b628 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -21,12 +21,12 @@ public:
     template <std::integral T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(val){};
+        : high(val < T(0) ? -1 : 0), low(static_cast<int64_t>(val)){};
 
     template <std::floating_point T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(static_cast<int64_t>(val)){};
+        : high(static_cast<int64_t>(val) < 0 ? -1 : 0), low(static_cast<int64_t>(val)){};
 
     template <std::integral T>
     requires(sizeof(T) <= 8)
@@ -46,9 +46,9 @@ public:
     EIRIN_ALWAYS_INLINE constexpr explicit operator int64_t() const noexcept
     {
         // when casting, we should consider about overflow.
-        if(high > 0)
+        if(high > 0 || (high == 0 && low < 0))
             return std::numeric_limits<int64_t>::max();
-        else if(high < 0)
+        else if(high < -1 || (high == -1 && low >= 0))
             return std::numeric_limits<int64_t>::min();
         else
             return low;
@@ -56,8 +56,9 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
     {
-        auto h = high + rhs.high;
-        auto l = low + rhs.low;
+        auto l = static_cast<uint64_t>(low) + static_cast<uint64_t>(rhs.low);
+        auto carry = static_cast<uint64_t>(l < static_cast<uint64_t>(low));
+        auto h = static_cast<uint64_t>(high) + static_cast<uint64_t>(rhs.high) + carry;
         return int128(h, l);
     }
 
-- 
2.43.0


From d05dd18c389618b26b1f1bf56c0fd434d9fa7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 49/61] fix: the terms of the BBP series were scaled by 16^(4k)
 instead of 16^k

---
 include/eirin/detail/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f4da867..fb1d768 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -163,7 +163,7 @@ namespace pi_calc
     {
 // BBP formula: pi = sum(k=0~inf){1/16^k * (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6))}
 #ifdef EIRIN_MATH_HAS_INT128
-        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
+        using intermediate_t = typename std::conditional<sizeof(T) <= 4, typename std::conditional<sizeof(T) <= 2, int32_t, int64_t>::type, detail::int128_t>::type;
 #else
         if constexpr(sizeof(T) <= 2)
             using intermediate_t = int32_t;
@@ -178,7 +178,7 @@ namespace pi_calc
         for(int k = 0; k < N; ++k)
         {
             intermediate_t factor = frac_mult;
-            for(int i = 0; i < 4 * k; ++i)
+            for(int i = 0; i < k; ++i)
                 factor /= 16;
 
             intermediate_t term1 = (4 * factor) / (8 * k + 1);
-- 
2.43.0


From 438b4182a4b8c263370736d99290893272f22ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 50/61] fix: lut_calc_sin read outside its table for negative
 angles and used another step than its table

---
 include/eirin/detail/util.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index fb1d768..c881fa6 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -230,7 +230,9 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * (x / two_pi).integral_part();
+        auto x_mod = x % two_pi;
+        if(x_mod < fixed64(0))
+            x_mod += two_pi;
         bool negate = false;
         if(x_mod >= eirin::numbers::pi_f64)
         {
@@ -239,11 +241,13 @@ namespace lut
         }
 
         // 3. Linear interpolation
-        auto pos = x_mod / (eirin::numbers::pi_f64 / fixed64(N - 1));
-        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(N - 2));
+        auto pos = x_mod / (eirin::numbers::pi_f64 / fixed64(N));
+        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(N - 1));
         auto frac = pos - fixed64(idx);
 
-        fixed64 result = lut[idx] * (1 - frac) + lut[idx + 1] * frac;
+        // the entry after the last one is sin(pi) = 0
+        fixed64 next = static_cast<size_t>(idx + 1) < N ? lut[idx + 1] : fixed64(0);
+        fixed64 result = lut[idx] * (1 - frac) + next * frac;
         return negate ? -result : result;
     }
 } // namespace lut
-- 
2.43.0


From 86ae8f501bb67e7f49c97b239f8db03e3d7ad290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:54 +0000
Subject: [PATCH 51/61] fix: measure_esp could not be instantiated for floating
 point types

---
 include/eirin/detail/perf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/detail/perf.hpp b/include/eirin/detail/perf.hpp
index bdd49cb..1ad446b 100644
--- a/include/eirin/detail/perf.hpp
+++ b/include/eirin/detail/perf.hpp
@@ -28,6 +28,7 @@ namespace perf
     template <typename T, typename Func, typename StdFunc>
     esp_ret<T> measure_esp(T start, T end, T step, Func func, StdFunc std_func, T (initializer)(int64_t))
     {
+        using std::abs;
         T max_esp = initializer(0), min_esp = initializer(0XFF), max_input = initializer(0), min_input = initializer(0);
         for(T x = start; x <= end; x += step)
         {
-- 
2.43.0


From 9cb57764b1ce4849ac1c65beb8b8260e86097201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:26 +0000
Subject: [PATCH 52/61] fix: the library did not compile with clang
 -fno-exceptions

---
 include/eirin/error.hpp | 3 +++
 include/eirin/macro.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/error.hpp b/include/eirin/error.hpp
index e3d3bda..0d2d928 100644
--- a/include/eirin/error.hpp
+++ b/include/eirin/error.hpp
@@ -1,7 +1,10 @@
 #ifndef EIRIN_MATH_ERROR_HPP
 #define EIRIN_MATH_ERROR_HPP
 
+#include <exception>
 #include <stdexcept>
+#include <utility>
+#include "macro.hpp"
 
 namespace eirin
 {
diff --git a/include/eirin/macro.hpp b/include/eirin/macro.hpp
index b6e52ac..179e2b0 100644
--- a/include/eirin/macro.hpp
+++ b/include/eirin/macro.hpp
@@ -15,7 +15,7 @@
 #    define EIRIN_ALWAYS_INLINE inline
 #endif
 
-#if defined(__EXCEPTIONS) && __EXCEPTIONS != 1
+#if defined(__GNUC__) && !defined(__EXCEPTIONS)
 #    define EIRIN_NO_EXCEPTIONS
 #endif
 
-- 
2.43.0


From 513e6ebcf9bb6d072e34351983408231537dbb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:03 +0000
Subject: [PATCH 53/61] fix: cbrt overflowed for numbers above 8 in formats
 with four integer bits

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9b3259c..0e698b3 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -371,7 +371,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
 
     while(iter_count <= iter_max)
     {
-        const auto next = (fp / (x * x) + x * 2) / 3;
+        // not fp / (x * x), the square may be out of range.
+        const auto next = (fp / x / x + x * 2) / 3;
         if(next >= x)
             break;
         x = next;
-- 
2.43.0


From b5dcedea8a7ffd7eeaac8c0cea5aafca2d328f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 54/61] fix: the remainder of the lowest value and minus one
 unit crashed

---
 include/eirin/fixed.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 391ef22..fefb410 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -423,12 +423,18 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
+        // the quotient of the lowest value and -1 overflows.
+        if(detail::is_signed<Type>::value && other.m_value == static_cast<Type>(-1))
+            return fixed_num(Type(0), raw_value_construct_tag{});
         return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        if(detail::is_signed<Type>::value && other.m_value == static_cast<Type>(-1))
+            m_value = 0;
+        else
+            m_value %= other.m_value;
         return *this;
     }
 
-- 
2.43.0


From b6e16e5c3bde82fb119f57431e07fb3db0fc3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:39 +0000
Subject: [PATCH 55/61] fix: the width of the stream padded the first character
 of a number instead of the number

---
 include/eirin/fixed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index fefb410..0adf40d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -20,6 +20,7 @@
 #include <ios>
 #include <limits>
 #include <istream>
+#include <string>
 #include <type_traits>
 #include <concepts>
 #include <iostream>
@@ -672,11 +673,13 @@ public:
 
     friend std::ostream& operator<<(std::ostream& os, const fixed_num& fp)
     {
-        auto iter = std::ostream_iterator<char>(os);
+        std::string text;
         auto flags = os.flags();
         int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));
         bool uppercase = (flags & std::ios_base::uppercase) != 0;
-        fixed_num::copy_as_chars_to(fp, iter, base, uppercase);
+        fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase);
+        // the width of the stream applies to the whole number, not to its first character.
+        os << text;
         os.flush();
         return os;
     }
-- 
2.43.0


From c665cfb6d4c78afc8db8c4c7adbb206447b76b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:40 +0000
Subject: [PATCH 56/61] fix: digits and digits10 of unsigned formats did not
 count the top bit

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 0adf40d..f0ffe2e 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1185,12 +1185,12 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
 
     static constexpr fixed_type radix = fixed_type(2);
     // 1 bit sign + fractions bits + integer bits
-    static constexpr fixed_type digits = fixed_type(sizeof(T) * 8 - 1);
+    static constexpr fixed_type digits = fixed_type(std::numeric_limits<T>::digits);
     // integer bits = sizeof(T) * 8 - 1 - f
     // fraction bits = f
     // digits10 = integer bits * log10(2) + fraction bits * log10(2)
     // we can use log10(2) = 643 / 2136
-    static constexpr fixed_type digits10 = fixed_type(static_cast<T>((sizeof(T) * 8 - 1) * 643L / 2136));
+    static constexpr fixed_type digits10 = fixed_type(static_cast<T>(std::numeric_limits<T>::digits * 643L / 2136));
     static constexpr fixed_type min_exponent = fixed_type(0);
     static constexpr fixed_type min_exponent10 = fixed_type(10);
 
-- 
2.43.0


From e5cf3de7ea08bc56bbe8c58d877a6cdb86749d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 57/61] fix: print_constants prints the fraction bits of the
 values it prints

The printed source said from_fixed_num_value<61> for any number of
fraction bits asked for, and passed narrower integers to %lx.
---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index c881fa6..f2f78d2 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -126,7 +126,7 @@ inline void print_constants(int fraction = 61)
         auto val = eval_value<T>(cst_lst[i], fraction);
         auto name = csl_nme_lst[i];
         printf("\n// %s\ntemplate <typename T>\nEIRIN_ALWAYS_INLINE constexpr enable_if_fixed<T> %s_v()\n", name, name);
-        printf("{\n\treturn T::template from_fixed_num_value<61>(0x%lxll);\n}\n", val);
+        printf("{\n\treturn T::template from_fixed_num_value<%d>(0x%llxll);\n}\n", fraction, static_cast<unsigned long long>(val));
     }
 }
 
-- 
2.43.0


From af1c4fdf186ec473ada67922dfffe871ab5dd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 58/61] fix: sqrt overflowed in formats with one or two integer
 bits

---
 include/eirin/math.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 0e698b3..e3d3268 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -158,18 +158,26 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         const auto exponent = detail::find_msb(val);
 
         const auto init_value = fixed::get_sqrt_init_value(exponent);
-        auto x = fixed::from_internal_value(init_value);
+        // with few integral bits the start value, the quotient and their sum exceed the range of T.
+        I x = static_cast<std::make_unsigned_t<T>>(init_value);
+        const I numerator = static_cast<I>(val) << f;
 
         auto eps = fixed::epsilon();
         for(int i = 0; i < 5; ++i)
         {
-            x = (x + fp / x) / 2;
+            I quotient = numerator / x;
+            if constexpr(r)
+            {
+                quotient = numerator * 2 / x;
+                quotient = quotient / 2 + quotient % 2;
+            }
+            x = (x + quotient) / 2;
             // the square of x may exceed the range of T.
-            const I diff = static_cast<I>(val) - (static_cast<I>(x.internal_value()) * x.internal_value() >> f);
+            const I diff = static_cast<I>(val) - (x * x >> f);
             if((diff < 0 ? -diff : diff) < static_cast<I>(eps.internal_value()))
                 break;
         }
-        return x;
+        return fixed::from_internal_value(static_cast<T>(x));
     }
 }
 
-- 
2.43.0


From d2961c6f5d3eea68a7c7a3bef50da47311fbf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:58 +0000
Subject: [PATCH 59/61] fix: pow divided by an underflowed power for a negative
 exponent in unsigned formats

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e3d3268..79b55b0 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -503,7 +503,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     }
 
     auto res = fixed(1);
-    if(e < 0 && (b >= fixed(1) || b <= fixed(-1)))
+    if(e < 0 && (b >= fixed(1) || (b < fixed(0) && b <= fixed(-1))))
     {
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
-- 
2.43.0


From babca02b84d843d6e6320776878179d985cf6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 60/61] fix: fmod returned a remainder beyond the divisor when
 the rounded quotient reached a whole number

---
 include/eirin/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 79b55b0..7d067ac 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -590,7 +590,10 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> fmod(fixed_num<T, I, f, r> a, fixed_num<T, I, f, r> b) noexcept
 {
     // b * floor(a / b) may exceed the range of T even if the remainder does not.
-    const I multiple = static_cast<I>(b.internal_value()) * floor(a / b).internal_value() >> f;
+    I multiple = static_cast<I>(b.internal_value()) * floor(a / b).internal_value() >> f;
+    // the rounded quotient may have reached the next whole number.
+    if(b.internal_value() > 0 ? multiple > a.internal_value() : multiple < a.internal_value())
+        multiple -= b.internal_value();
     return fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(a.internal_value() - multiple));
 }
 
-- 
2.43.0


From a6e69760aea63d9b0685c713eb6159e9eb4a0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 61/61] fix: the string parser did not compile for formats with
 one integer bit

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f0ffe2e..e5ccdc9 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1046,7 +1046,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
+        constexpr auto max_fraction = (I(1) << f) - I(1);
         I divisor = I(1);
         while(has_next())
         {
-- 
2.43.0

