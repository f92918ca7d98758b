From 259838a1b48d3546080040d93b49a21b74bf2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 01/10] fix: use the value's sign when a NaN-only format
 overflows into its NaN slot

normalize() passed the unsigned rounding direction to overflow_result() on the
two paths that detect the NaN significand, so negative results overflowed in
the wrong direction under TowardPositive and TowardNegative.
---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From 716b8ad689ffd5e745e15609d6f1b1bd477182af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 02/10] fix: to_i128_r must not report negative zero as exact

The inner to_u128_r call on the negated (positive) zero overwrote is_exact.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 23d518b758f97d4342a5bdc01410f6911edff7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 03/10] fix: do not overflow a shift when converting to a 1-bit
 signed integer

to_i128_r(1, ..) converts non-negative values through a 0-bit unsigned width.
---
 src/ieee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..7dc89c8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1681,7 +1681,7 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             0
         } else {
             // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            u128::MAX.checked_shr(128 - width as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From 9ac5a70437da83e1769358c57921e2cfddd739d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 04/10] fix: DoubleFloat::is_denormal must look at both parts

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..131cb44 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -411,7 +411,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From 6185a89f1aa5fde418874e41b6b9cf0d99893ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 05/10] fix: print with the natural precision when the
 precision is 0

Limiting the significand to no digits at all printed a wrong number or
panicked ("no characters in buffer").
---
 src/ieee.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 7dc89c8..0397ca1 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,11 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        // A requested precision of 0 also means this natural precision.
+        let precision = f
+            .precision()
+            .filter(|&precision| precision != 0)
+            .unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 60c94883d7a39b2f34b1c2fa44c333ab73ac0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 06/10] fix: keep track of which operand a lost fraction came
 from

When the addend of a fused multiply-add is subnormal, it can be the
smaller operand even though it has the larger exponent. The lost fraction
then belongs to the minuend and must not be borrowed for or inverted.
---
 src/ieee.rs | 54 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 0397ca1..ac3bbf1 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1198,6 +1198,12 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             self = self.with_sign(sign);
 
             omsb = sig::omsb(&wide_sig);
+
+            // If only the lost fraction is left, it lies (far) below the least
+            // significant bit of the final result.
+            if omsb == 0 && loss != Loss::ExactlyZero {
+                loss = Loss::LessThanHalf;
+            }
         }
 
         // Convert the result having "2 * S::PRECISION" significant-bits back to the one
@@ -3026,23 +3032,45 @@ mod sig {
                 shift_left(b_sig, &mut 0, 1);
             }
 
-            let borrow = (loss != Loss::ExactlyZero) as Limb;
+            // The lost fraction belongs to whichever operand was shifted right.
+            // It only needs to be borrowed for (and inverted) when it belongs
+            // to the operand that ends up being subtracted.
+            let loss_is_from_b = bits > 0;
+            let invert_loss;
 
-            // Should we reverse the subtraction.
-            if cmp(a_sig, b_sig) == Ordering::Less {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(b_sig, a_sig, borrow), 0);
-                a_sig.copy_from_slice(b_sig);
-                *a_sign = !*a_sign;
-            } else {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(a_sig, b_sig, borrow), 0);
+            match cmp(a_sig, b_sig) {
+                // Reverse the subtraction.
+                Ordering::Less => {
+                    invert_loss = !loss_is_from_b;
+                    let borrow = (invert_loss && loss != Loss::ExactlyZero) as Limb;
+
+                    // The code above is intended to ensure that no borrow is necessary.
+                    assert_eq!(sub(b_sig, a_sig, borrow), 0);
+                    a_sig.copy_from_slice(b_sig);
+                    *a_sign = !*a_sign;
+                }
+                Ordering::Greater => {
+                    invert_loss = loss_is_from_b;
+                    let borrow = (invert_loss && loss != Loss::ExactlyZero) as Limb;
+
+                    // The code above is intended to ensure that no borrow is necessary.
+                    assert_eq!(sub(a_sig, b_sig, borrow), 0);
+                }
+                Ordering::Equal => {
+                    invert_loss = false;
+                    a_sig.fill(0);
+
+                    // All that is left is the lost fraction, so the operand it
+                    // belongs to is the (slightly) larger one.
+                    if loss_is_from_b && loss != Loss::ExactlyZero {
+                        *a_sign = !*a_sign;
+                    }
+                }
             }
 
-            // Invert the lost fraction - it was on the RHS and subtracted.
             match loss {
-                Loss::LessThanHalf => Loss::MoreThanHalf,
-                Loss::MoreThanHalf => Loss::LessThanHalf,
+                Loss::LessThanHalf if invert_loss => Loss::MoreThanHalf,
+                Loss::MoreThanHalf if invert_loss => Loss::LessThanHalf,
                 _ => loss,
             }
         } else {
-- 
2.43.0


From 77e2843c45f684ef0da5f283ab099435fd26841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 07/10] fix: handle signaling NaNs and overflow in
 double-double conversions

Any operation going through the fallback format hit an assertion for a
signaling NaN, and for results that only the fallback format can represent.
Likewise, next_up(-inf) has to be the largest finite negative value.
---
 src/ppc.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 131cb44..b8b7056 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -76,11 +76,16 @@ where
         let mut status;
         let mut loses_info = false;
 
+        // Signaling NaNs get quieted, which is reported as an invalid operation.
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!(status - Status::INVALID_OP, Status::OK);
+        assert!(!loses_info || x.is_nan());
 
+        // The largest finite values of the fallback format are past the midpoint
+        // between the largest finite value of F and the next power of two, so
+        // they overflow.
         let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - (Status::INEXACT | Status::OVERFLOW), Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
@@ -108,13 +113,16 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut loses_info = false;
 
         // Get the first F and convert to our format.
+        // Signaling NaNs get quieted, which is reported as an invalid operation.
         let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!(status - Status::INVALID_OP, Status::OK);
+        assert!(!loses_info || a.is_nan());
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!(status - Status::INVALID_OP, Status::OK);
+            assert!(!loses_info || b.is_nan());
 
             (a + b).value
         } else {
@@ -362,6 +370,11 @@ where
     }
 
     fn next_up(self) -> StatusAnd<Self> {
+        // The fallback format has larger finite values than we do.
+        if self.is_neg_infinity() {
+            return Status::OK.and(-Self::largest());
+        }
+
         Fallback::from(self).next_up().map(Self::from)
     }
 
-- 
2.43.0


From de327e0e5dcfcfa0a80274d803cebe52c0b28339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 08/10] fix: compare the signed second parts in
 DoubleFloat::cmp_abs_normal

It called IeeeFloat::cmp_abs_normal on zeros (hitting an assertion), and
returned Equal for second parts of the same magnitude on opposite sides.
---
 src/ppc.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b8b7056..646d360 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -400,18 +400,12 @@ where
     }
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
-        self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
-        })
+        // The second parts can have either sign (relative to the first parts),
+        // and can also be zero.
+        let (lhs_low, rhs_low) = (self.abs().1, rhs.abs().1);
+        self.0
+            .cmp_abs_normal(rhs.0)
+            .then_with(|| lhs_low.partial_cmp(&rhs_low).unwrap_or(Ordering::Equal))
     }
 
     fn bitwise_eq(self, rhs: Self) -> bool {
-- 
2.43.0


From c73e90a53e973b49f027cf0d312f7c7c70401ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 09/10] fix: retry decimal conversions that are too close to
 any representable value

With a rounding mode to nearest, only midpoints were considered, so a value
just beside a representable one could be reported as exact. With the
directed ones, a remainder just below the next representable value was
taken as being far from it.
---
 src/ieee.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index ac3bbf1..571ca02 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2657,32 +2657,32 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
+            // The distance to the closest value for which either the result or
+            // its status could change: any representable value and, when rounding
+            // to nearest, also any midpoint between representable values.
             let ulps_from_boundary = {
-                let bits = calc_precision - used_bits - 1;
-
-                let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
+                let bits = match round {
+                    Round::NearestTiesToEven | Round::NearestTiesToAway => truncated_bits.saturating_sub(1),
+                    _ => truncated_bits,
                 };
-                if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
-                    } else {
+
+                if bits == 0 {
+                    0
+                } else if bits > calc_precision {
+                    !0 // A lot.
+                } else {
+                    let i = (bits - 1) / LIMB_BITS;
+                    let mask = !0 >> (LIMB_BITS - 1 - (bits - 1) % LIMB_BITS);
+                    let limb = sig_calc[i] & mask;
+                    if i == 0 {
+                        cmp::min(limb, limb.wrapping_neg() & mask)
+                    } else if limb == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
                         sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
-                        !0 // A lot.
-                    } else {
+                    } else if limb == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
                         sig_calc[0].wrapping_neg()
+                    } else {
+                        !0 // A lot.
                     }
-                } else {
-                    !0 // A lot.
                 }
             };
 
-- 
2.43.0


From 71676da17406dd4a2258c1426f4f2bcfff9b0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 10/10] fix: compute the decimal exponent bounds of wide
 formats without overflow

---
 src/ieee.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 571ca02..4a00a71 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2419,13 +2419,13 @@ impl<S: Semantics> IeeeFloat<S> {
         //       42039/12655 < L < 28738/8651  [ numerator <= 65536 ]
 
         // Check for MAX_EXP.
-        if normalized_exp.saturating_sub(1).saturating_mul(42039) >= 12655 * S::MAX_EXP as i32 {
+        if (normalized_exp as i64 - 1) * 42039 >= 12655 * S::MAX_EXP as i64 {
             // Overflow and round.
             return Ok(Self::overflow_result(round));
         }
 
         // Check for MIN_EXP.
-        if normalized_exp.saturating_add(1).saturating_mul(28738) <= 8651 * (S::MIN_EXP as i32 - S::PRECISION as i32) {
+        if (normalized_exp as i64 + 1) * 28738 <= 8651 * (S::MIN_EXP as i64 - S::PRECISION as i64) {
             // Underflow to zero and round.
             let r = if round == Round::TowardPositive {
                 IeeeFloat::SMALLEST
-- 
2.43.0

