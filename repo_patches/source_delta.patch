From b98dbabe2757e1264cb11d4291e9e7e3c1e5bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 01/18] fix: trunc and fract for exponents of 23 and above and
 for NaN

The shift by the exponent wrapped around, e.g. trunc(6442450944.0) was 4294967296.0
and fract of large integers was not zero.
---
 src/float/fract.rs | 10 ++++++++++
 src/float/trunc.rs |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..a0e7cff 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,16 @@ impl F32 {
             return self;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
+        // all mantissa bits are whole number bits, there is no fraction. Shifting by
+        // such an exponent would wrap around.
+        if exponent >= MANTISSA_BITS as i32 {
+            return Self(0.0).copysign(self);
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..b41f1ca 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,12 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // all mantissa bits are whole number bits (or the value is infinite or NaN),
+        // this also keeps the shifts below in range
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From aa8193f98dcc83e77ce42a9d483dfb70277a1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 02/18] fix: floor and ceil saturated outside of the i32 range
 and turned NaN into 0

---
 src/float/floor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..dc21860 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -1,10 +1,15 @@
 //! Floating point floor approximation for a single-precision float.
 
-use super::F32;
+use super::{F32, MANTISSA_BITS};
 
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
+        // Already an integer, infinite or NaN, and potentially outside of the `i32` range
+        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let mut res = (self.0 as i32) as f32;
 
         if self.0 < res {
-- 
2.43.0


From a9bfeeed817dc33ebef90f3b2be26b031a755aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 03/18] fix: round was wrong for 0.49999997, odd integers above
 2^23 and outside of the i32 range

---
 src/float/round.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..7b7d738 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,14 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        let trunc = self.trunc();
+
+        // Note: the subtraction is exact, adding `0.5` to `self` would not be
+        if (self - trunc).abs() >= Self(0.5) {
+            trunc + Self(1.0).copysign(self)
+        } else {
+            trunc
+        }
     }
 }
 
-- 
2.43.0


From f7b42da3adbfb7fb6f61842742da26ef50f8f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 04/18] fix: invsqrt of negative numbers is NaN as documented

It panicked with overflow checks on, e.g. via asin(2.0).
---
 src/float/invsqrt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..742cc82 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,8 +6,14 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        if self >= Self::ZERO {
+            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
+        } else {
+            Self::NAN
+        }
     }
 }
 
-- 
2.43.0


From 5547db5a2841add0051b820a9f6bf32799a955e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 05/18] fix: sqrt(-0.0) returned 2.7e19

---
 src/float/sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..f22a4da 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -10,7 +10,7 @@ impl F32 {
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
         if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From d18d9b97136eee4e41d08580349281db5d2bbf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 06/18] fix: inv returned 0 for all negative numbers

---
 src/float/inv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..2ae079b 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,8 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
@@ -29,7 +29,7 @@ impl F32 {
                     Self(f32::NAN)
                 } else {
                     // Values larger than the threshold result in zero for 1/x
-                    Self(0.0)
+                    Self(0.0).copysign(self)
                 }
             }
         }
-- 
2.43.0


From 92e68ffb9fda043d32666f6a7d12886389023e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 07/18] fix: ln accuracy below 1.0, and NaN for negative
 numbers as documented

---
 src/float/ln.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..141da2e 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -5,34 +5,38 @@
 //! Modified to not be restricted to int range and only values of x above 1.0.
 //! Also got rid of most of the slow conversions. Should work for all positive values of x.
 
-use super::{EXPONENT_MASK, F32};
+use super::F32;
 use core::f32::consts::LN_2;
 
 impl F32 {
     /// Approximates the natural logarithm of the number.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     // Note: excessive precision ignored because it hides the origin of the numbers used for the
     // ln(1.0->2.0) polynomial
     #[allow(clippy::excessive_precision)]
     pub fn ln(self) -> Self {
+        // not defined for negative numbers
+        if self.is_nan() || self < Self::ZERO {
+            return Self::NAN;
+        }
+
+        if self.is_infinite() {
+            return self;
+        }
+
         // x may essentially be 1.0 but, as clippy notes, these kinds of
         // floating point comparisons can fail when the bit pattern is not the sames
         if (self - Self::ONE).abs() < f32::EPSILON {
             return Self::ZERO;
         }
 
-        let x_less_than_1 = self < 1.0;
-
-        // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
-        // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
-
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
-        // get exponent value
-        let base2_exponent = x_working.extract_exponent_value() as u32;
-        let divisor = f32::from_bits(x_working.to_bits() & EXPONENT_MASK);
+        // get exponent value, which is negative for values of x below 1.0
+        let base2_exponent = self.extract_exponent_value();
 
-        // supposedly normalizing between 1.0 and 2.0
-        let x_working = x_working / divisor;
+        // normalizing between 1.0 and 2.0
+        let x_working = self.without_sign().set_exponent(0);
 
         // approximate polynomial generated from maple in the post using Remez Algorithm:
         // https://en.wikipedia.org/wiki/Remez_algorithm
@@ -43,13 +47,7 @@ impl F32 {
                 * x_working;
 
         // ln(2) * n + ln(y)
-        let result = (base2_exponent as f32) * LN_2 + ln_1to2_polynomial;
-
-        if x_less_than_1 {
-            -result
-        } else {
-            result
-        }
+        (base2_exponent as f32) * LN_2 + ln_1to2_polynomial
     }
 }
 
-- 
2.43.0


From c4f4315c024e70ca91f60ed6235b45e0db29b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 08/18] fix: powi overflow panics and wrong early exits

i32::MIN and large exponents panicked with overflow checks on, 0.3^-64 was infinite,
0.499^75 was zero, and NaN became infinite.
---
 src/float/powi.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..8ea6ed5 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
@@ -23,6 +23,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         // 0.0 == 0.0 and -0.0 according to IEEE standards.
         if self == Self::ZERO && n > 0 {
             return self;
@@ -32,19 +36,21 @@ impl F32 {
         // going over exponent, i.e. 1.1 multiplied against itself will grow slowly.
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
-            // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            // then we end early. The magnitude of self is at least 2^exponent and less than
+            // 2^(exponent + 1), so the exponent of the result is between these two products.
+            let exponent = self.extract_exponent_value();
+            let exponent_bounds = (exponent.saturating_mul(n), (exponent + 1).saturating_mul(n));
+            let min_final_exponent = exponent_bounds.0.min(exponent_bounds.1);
+            let max_final_exponent = exponent_bounds.0.max(exponent_bounds.1);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
-            if approx_final_exponent > max_representable_exponent
-                || (self == Self::ZERO && approx_final_exponent < 0)
-            {
+            if min_final_exponent > max_representable_exponent || (self == Self::ZERO && n < 0) {
                 if self.is_sign_positive() || n & 1 == 0 {
                     return Self::INFINITY;
                 } else {
                     return Self::NEG_INFINITY;
                 }
-            } else if approx_final_exponent < min_representable_exponent {
+            } else if max_final_exponent < min_representable_exponent {
                 // We may want to copy the sign and do the same thing as above,
                 // but that seems like an awful amount of work when 99.99999% of people only care
                 // about bare zero
-- 
2.43.0


From 868902a161ffa74b7067f9d5f6ab546e15ba4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 09/18] fix: powf took fractions below one for integers

The integer test ignored negative exponents and wrapped the shift for exponents of 32
and above, so powf(-2.0, 0.5) was 1.41 instead of NaN.
---
 src/float.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..6176b6f 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -211,11 +211,18 @@ impl F32 {
         let exponent = self.extract_exponent_value();
         let self_bits = self.to_bits();
 
-        // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
-        let exponent_clamped = i32::max(exponent, 0) as u32;
+        // if exponent is negative the magnitude is below one, only zero is an integer there
+        if exponent < 0 {
+            return *self == Self::ZERO;
+        }
+
+        // no bits are left for a fraction, shifting by such an exponent would wrap around
+        if exponent >= MANTISSA_BITS as i32 {
+            return true;
+        }
 
         // find the part of the fraction that would be left over
-        let fractional_part = (self_bits).overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;
+        let fractional_part = (self_bits).overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
         // if fractional part contains anything, we know it *isn't* an integer.
         // if zero there will be nothing in the fractional part
-- 
2.43.0


From 7a8a43237b322b63aacd7559f07a80c56d96378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 10/18] fix: exp panicked or returned NaN between 88.73 and
 89.4 and lost NaN

---
 src/float/exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..2f2f64c 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -14,6 +14,10 @@ impl F32 {
 
     /// Exp approximation for `f32`.
     pub(crate) fn exp_ln2_approx(self, partial_iter: u32) -> Self {
+        if self.is_nan() {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::ONE;
         }
@@ -46,7 +50,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > (EXPONENT_BIAS as i32) {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From f90ec9896d72357acf6416cda5a771d8fe2ce340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 11/18] fix: atan was NaN for magnitudes above 1.8e19 and
 infinity

---
 src/float/atan.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..53d5edc 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -27,7 +27,12 @@ impl F32 {
         // Calculate the arctangent in the first quadrant
         let bx_a = (B * self).abs();
         let n = bx_a + self * self;
-        let atan_1q = n / (1.0 + bx_a + n);
+        let atan_1q = if n.is_infinite() {
+            // The quotient below approaches `1.0`, but would be `inf / inf`
+            Self::ONE
+        } else {
+            n / (1.0 + bx_a + n)
+        };
 
         // Restore the sign bit and convert to float
         Self::from_bits(ux_s | atan_1q.to_bits())
-- 
2.43.0


From d278bf66a45e2efeaba496e7e985b7c5593259c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 12/18] fix: atan2(0, 0) is 0 as documented, large and small
 magnitudes, range of atan2_norm

---
 src/float/atan2.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..cbe9a68 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -24,8 +24,19 @@ impl F32 {
         const SIGN_MASK: u32 = 0x8000_0000;
         const B: f32 = 0.596_227;
 
-        let y = self;
-        let x = rhs;
+        // Scale such that the products below neither overflow nor underflow,
+        // the ratio of the arguments is all that matters
+        let scale = if self.abs() > rhs.abs() {
+            self.abs()
+        } else {
+            rhs.abs()
+        };
+        if self == Self::ZERO && rhs == Self::ZERO {
+            return Self::ZERO;
+        }
+
+        let y = self / scale;
+        let x = rhs / scale;
 
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
@@ -41,7 +52,14 @@ impl F32 {
 
         // Translate it to the proper quadrant
         let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
-        Self(q) + Self::from_bits(uatan_2q)
+        let n = Self(q) + Self::from_bits(uatan_2q);
+
+        // A tiny negative angle rounds to a full turn, which is outside of the range
+        if n >= Self(4.0) {
+            Self::ZERO
+        } else {
+            n
+        }
     }
 }
 
-- 
2.43.0


From f9d8c3acbc4063077d0dcb2f77c2515907dd5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 13/18] fix: recip for infinities and magnitudes above 8.5e37

---
 src/float/recip.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/float/recip.rs b/src/float/recip.rs
index 3e14841..77eec1c 100644
--- a/src/float/recip.rs
+++ b/src/float/recip.rs
@@ -5,11 +5,23 @@ use super::F32;
 impl F32 {
     /// Returns the reciprocal (inverse) of a number, `1/x`.
     pub fn recip(self) -> Self {
+        /// `2^125`
+        const LARGE: f32 = 4.253_529_6e37;
+
         let mut x = self;
 
         let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
         x *= sx;
 
+        if x.is_infinite() {
+            return F32(0.0) * sx;
+        }
+
+        // The initial approximation isn't a normal number for the largest values, so these are
+        // scaled down, which scales the reciprocal up
+        let scale = if x >= LARGE { F32(0.25) } else { F32(1.0) };
+        x *= scale;
+
         let mut v = F32(f32::from_bits(0x7EF1_27EAu32.wrapping_sub(x.to_bits())));
         let w = x * v;
 
@@ -18,7 +30,7 @@ impl F32 {
         v.0 *=
             8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))));
 
-        v.0 * sx
+        v.0 * (scale * sx)
     }
 }
 
-- 
2.43.0


From 05a9e89cb4fa8ccfb397b98238bc6e50a77d20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 14/18] fix: cosh exceeded its documented maximum error

---
 src/float/cosh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/float/cosh.rs b/src/float/cosh.rs
index 4bcf7bc..649a433 100644
--- a/src/float/cosh.rs
+++ b/src/float/cosh.rs
@@ -9,8 +9,9 @@ impl F32 {
     /// ## Arguments
     /// * `self` - The angle in radians.
     pub fn cosh(self) -> Self {
-        let exp_x = self.exp();
-        let exp_neg_x = (-self).exp();
+        // one more term than `exp` uses, which is not accurate enough for the errors above
+        let exp_x = self.exp_ln2_approx(5);
+        let exp_neg_x = (-self).exp_ln2_approx(5);
         (exp_x + exp_neg_x) / 2.0
     }
 }
-- 
2.43.0


From d067895e4a87ac16937ed47cb5b73682ea354d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 15/18] fix: build with the quaternion feature but without
 vector

---
 src/quaternion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..177a499 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -135,6 +135,7 @@ impl Quaternion {
     }
 
     /// Compute a quaternion for the given axis vector and angle.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn axis_angle<C>(v: Vector3d<C>, theta: C) -> Self
     where
@@ -153,6 +154,7 @@ impl Quaternion {
     }
 
     /// Rotate a 3D vector using this quaternion, assumes the quaternion is of unit length.
+    #[cfg(feature = "vector")]
     #[cfg_attr(docsrs, doc(cfg(feature = "vector")))]
     pub fn rotate<C>(self, v: Vector3d<C>) -> F32x3
     where
-- 
2.43.0


From fe72da73b7e4d15ba2092dcfea020228178cc124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 16/18] fix: from_two_vectors of opposite vectors returned the
 identity

---
 src/quaternion.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 177a499..553a913 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,13 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
+        let n_uv_sq = u.dot(u).into() * v.dot(v).into();
+        let mut n_uv = F32(n_uv_sq).sqrt();
+        // The error of the square root approximation is far above the difference to `u.dot(v)`
+        // for (nearly) opposite vectors, so refine it
+        for _ in 0..3 {
+            n_uv = F32(0.5) * (n_uv + n_uv_sq / n_uv);
+        }
         let mut realpart = n_uv + u.dot(v).into();
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From 4e660af41be45bab2f335b2996c0b6693595240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 17/18] fix: to_euler pitch at the poles, where rounding leaves
 the domain of asin

---
 src/quaternion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 553a913..cdb6f4f 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -210,7 +210,16 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        // Rounding can exceed the domain of `asin` at the poles
+        let sin_p = 2. * (self.0 * self.2 - self.1 * self.3);
+        let sin_p = if sin_p > 1. {
+            1.
+        } else if sin_p < -1. {
+            -1.
+        } else {
+            sin_p
+        };
+        let p = F32(sin_p).asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0


From 8a534fa0e0956d6a56a85ef02288c2176d178e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:55 +0000
Subject: [PATCH 18/18] fix: mean counted its items in an i32, which overflowed
 beyond 2147483647 items

---
 src/statistics/mean.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/statistics/mean.rs b/src/statistics/mean.rs
index 9f07aca..320e71e 100644
--- a/src/statistics/mean.rs
+++ b/src/statistics/mean.rs
@@ -14,7 +14,8 @@ where
     type Result = f32;
 
     fn mean(self) -> f32 {
-        let mut num_items = 0;
+        // wide enough for iterators of any length
+        let mut num_items = 0u64;
         let mut sum = 0.0;
 
         for item in self {
-- 
2.43.0

