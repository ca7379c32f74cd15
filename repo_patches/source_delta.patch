From 788186791701a817257701585ff017da16f298d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 01/13] fix: formatting of extreme values

With precision 0 the text of the longest numbers has one more character
than the buffer (written without bounds checks), `MIN.abs()` overflows with
precision 0, and `fractional + COEF` overflows for i128 with precision 38.
---
 src/string.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..9439588 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -108,14 +108,15 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                // Unsigned, because `MIN.abs()` and `fractional + COEF` can overflow the layout.
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
@@ -127,9 +128,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**bits)) + 2`,
+// where `2` is reserved for `.` after integral part and `0` if there is no fractional part.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 113460afcbb5810588b81bc4f5595bac368141ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 02/13] fix: parse numbers with a fractional part at precision
 0

`from_str` rejected everything with a point if the precision is 0, including
its own output (`5.0`), instead of rounding.
---
 src/string.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 9439588..b74ef56 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -52,6 +52,10 @@ macro_rules! impl_for {
                     ));
                 }
 
+                if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
+                }
+
                 let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };
                 let prec = Self::PRECISION as usize; // TODO: negative precision?
 
@@ -78,9 +82,14 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                let fractional: $layout = if fractional_str.is_empty() {
+                    // All digits have been rounded off.
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From 8b8d2de6816c43c20a90fa53ed910c71182969b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 03/13] fix: overflow in `rdiv(Nearest)` by large divisors

Doubling the loss overflows if the divisor is greater than MAX / 2, as does
taking the absolute value of MIN: a panic with overflow checks, a wrong
rounding without them.
---
 src/lib.rs     | 5 +++--
 src/ops/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..0ea305f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,8 +332,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `|loss| < |rhs|`, thus the subtraction cannot underflow.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..cebb9b3 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -459,8 +459,9 @@ macro_rules! impl_for_ints {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `|loss| < |rhs|`, thus the subtraction cannot underflow.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 68b8941f7bdf671a6de822e778a5b09fb73016e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 04/13] fix: return `Overflow` instead of panicking on
 `MIN.rdiv(-1)`

---
 src/ops/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index cebb9b3..6e5ed9a 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,7 +452,7 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
-- 
2.43.0


From a86ec89255b96fdabb9188830c3c779e156f0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 05/13] fix: overflow in `rmul(Nearest)` if `2 * COEF` doesn't
 fit the layout

E.g. for i128 with precision 38.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ea305f..6434ddc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -246,7 +246,6 @@ macro_rules! impl_fixed_point {
             pub const EPSILON: Self = Self::from_bits(1);
 
             const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
-            const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
 
@@ -289,8 +288,9 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `|loss| < COEF`, thus neither of operations can overflow.
+                    let loss_abs = loss.abs();
+                    loss_abs >= Self::COEF - loss_abs
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 1ed97bd807f90e6233eccca6314ed9b43d996ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 06/13] fix: overflow in `integral`

`MIN.abs()` overflows, as does `frac + frac` for i128 with precision 38: a panic
with overflow checks, a wrong rounding without them. `floor`, `ceil` and `round`
are based on it.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6434ddc..e3a52c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -501,10 +501,10 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From b5363482020870447d73aea3ce6ce8476e11356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 07/13] fix: overflow in `from_decimal` with large exponents

The multiplier itself can overflow: a panic with overflow checks, a wrong number
without them.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e3a52c9..42679ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -671,11 +671,14 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
+
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
 
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From 3fe016b6eeb576ff6d621d7bbdc405e1df106cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 08/13] fix: rounding of half-way cases in `half_sum(Nearest)`
 of negatives

They were rounded towards zero if both arguments are negative, but away from
zero in all other cases: `half_sum(-2, -1)` and `half_sum(-3, 0)` differed.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42679ae..d89682c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -469,10 +469,14 @@ macro_rules! impl_fixed_point {
                 if a.inner.signum() != b.inner.signum() {
                     Self::from_bits(a.inner + b.inner).rdiv(2, mode).unwrap()
                 } else {
-                    let min = a.inner.min(b.inner);
-                    let max = a.inner.max(b.inner);
-                    let half_diff = (max - min).rdiv(2, mode).unwrap();
-                    Self::from_bits(min + half_diff)
+                    // Start from the closest to zero in order to round half-way cases away from it.
+                    let (near, far) = if (a.inner < b.inner) == (a.inner >= 0) {
+                        (a.inner, b.inner)
+                    } else {
+                        (b.inner, a.inner)
+                    };
+                    let half_diff = (far - near).rdiv(2, mode).unwrap();
+                    Self::from_bits(near + half_diff)
                 }
             }
 
-- 
2.43.0


From 36aa30037b77c5e3a85811f6b3902134d710526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 09/13] fix: conversion of `MIN` from `f64`

It was rejected as a too big number.
---
 src/float.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index e833677..554c40a 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,17 +168,16 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
+                // The magnitude of `MIN` doesn't fit the layout.
+                if !positive && bits == $layout::MIN.unsigned_abs() as u128 {
+                    return Ok(Self::from_bits($layout::MIN));
+                }
+
                 let bits: $layout = bits
                     .try_into()
                     .map_err(|_| ConvertError::new("too big number"))?;
 
-                if positive {
-                    Ok(Self::from_bits(bits))
-                } else {
-                    bits.checked_neg()
-                        .map(Self::from_bits)
-                        .ok_or_else(|| ConvertError::new("too big number"))
-                }
+                Ok(Self::from_bits(if positive { bits } else { -bits }))
             }
         }
     };
-- 
2.43.0


From 6b2e0d37f0ca82c1831357eb0c14843a5e2162bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 10/13] fix: don't hide errors of the underlying deserializer
 in maps

With `quick-xml`, failures of the reader and unexpected ends of the document were
reported as `invalid type: map`.
---
 src/serde.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..5ae25a0 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -124,18 +124,14 @@ where
     {
         // We must use `String` here.
         // Otherwise, `invalid type: string \"$value\", expected a borrowed string`.
-        let key = map
-            .next_key::<String>()
-            .map_err(|_| A::Error::invalid_type(de::Unexpected::Map, &self))?;
+        let key = map.next_key::<String>()?;
 
         if key.as_deref() != Some("$value") {
             return Err(A::Error::invalid_type(de::Unexpected::Map, &self));
         }
 
         // We use `String` here to support `quick-xml v0.22`. In an actual one it's already fixed.
-        let value = map
-            .next_value::<String>()
-            .map_err(|_| A::Error::invalid_type(de::Unexpected::Map, &self))?;
+        let value = map.next_value::<String>()?;
 
         value
             .parse()
-- 
2.43.0


From a1acab613e41950637c77df081d90320b1e5cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 11/13] fix: deserialize strings that cannot be borrowed in
 `str` and `str_option`

They required a borrowed string, hence failed with readers, escaped strings and
intermediate documents.
---
 src/serde.rs | 62 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5ae25a0..ad9e429 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -224,13 +224,49 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        ViaStr::deserialize(deserializer).map(|fp| F::from(fp.0))
+    }
+
+    // Not `<&str>`, because not every deserializer is able to provide a borrowed string.
+    pub(super) struct ViaStr<I, P>(pub(super) FixedPoint<I, P>);
+
+    impl<'de, I, P> Deserialize<'de> for ViaStr<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where
+            D: Deserializer<'de>,
+        {
+            deserializer
+                .deserialize_str(StrVisitor(PhantomData))
+                .map(Self)
+        }
+    }
+
+    struct StrVisitor<I, P>(PhantomData<(I, P)>);
+
+    impl<'de, I, P> de::Visitor<'de> for StrVisitor<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = FixedPoint<I, P>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("string containing a fixed-point number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            s.parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+        }
+
+        fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(b) {
+                Ok(s) => self.visit_str(s),
+                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
+            }
+        }
     }
 }
 
@@ -261,16 +297,8 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        Option::<super::str::ViaStr<I, P>>::deserialize(deserializer)
+            .map(|fp| fp.map(|fp| F::from(fp.0)))
     }
 }
 
-- 
2.43.0


From 9ed381c9a3e61e57a72b09791b2104dd73e4b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 12/13] fix: rounding in the conversion from `f64`

---
 src/float.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 554c40a..5796497 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -143,9 +143,10 @@ macro_rules! impl_try_from_f64 {
                         divisor_exponent_10 = NEXT_EXPONENT_10[lz - 1] as i32;
                     }
                     let divisor_exponent_10 = divisor_exponent_10.min(-exponent10 as i32);
-                    let (divisor, remainder) = POWERS_OF_10[divisor_exponent_10 as usize];
+                    let (divisor, _) = POWERS_OF_10[divisor_exponent_10 as usize];
                     let res = bits / divisor;
-                    bits = if bits % divisor > remainder {
+                    // Round to the nearest: only so the decimal the float stands for is restored.
+                    bits = if bits % divisor * 2 >= divisor {
                         res + 1
                     } else {
                         res
-- 
2.43.0


From 34c91d330006df7b36e3ad9426f53cbc5210d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 13/13] fix: reject literals that the layout cannot represent

---
 src/macros.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..77b1d69 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,10 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        let bits = VALUE_INNER as _;
+        // The literal must be representable by the layout.
+        let _ = [()][(bits as Int != VALUE_INNER) as usize];
+        FixedPoint::from_bits(bits)
     }};
 }
 
-- 
2.43.0

