From 4ed52abc7ce3f828b2f49450c3d43dc318a37cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 01/20] fix: honor directed rounding of negative values in
 NaN-only overflow

---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From cba6edb97027c2ee7f53d715b0bc4e6431950397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 02/20] fix: normalize denormal addends in mul_add_r

---
 src/ieee.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..a2120bb 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1177,18 +1177,30 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // signicant bit; adjust the addend to be consistent with mul result.
             let mut ext_addend_sig = [addend.sig[0], 0];
 
+            let mut ext_addend_exp = addend.exp + 1;
+
             // Extend the addend significand to ext_precision - 1. This guarantees
             // that the high bit of the significand is zero (same as wide_sig),
             // so the addition will overflow (if it does overflow at all) into the top bit.
             sig::shift_left(&mut ext_addend_sig, &mut 0, ext_precision - 1 - S::PRECISION);
 
+            // A denormal addend also has to be normalized (same as wide_sig), as
+            // otherwise its (larger) exponent could cause low bits of the product
+            // to be lost, even though it's the product that is larger in magnitude.
+            let ext_addend_omsb = sig::omsb(&ext_addend_sig);
+            sig::shift_left(
+                &mut ext_addend_sig,
+                &mut ext_addend_exp,
+                (ext_precision - 1) - ext_addend_omsb,
+            );
+
             let mut sign = self.is_negative();
             loss = sig::add_or_sub(
                 &mut wide_sig,
                 &mut self.exp,
                 &mut sign,
                 &mut ext_addend_sig,
-                addend.exp + 1,
+                ext_addend_exp,
                 addend.is_negative(),
             );
             self = self.with_sign(sign);
-- 
2.43.0


From a99f2bb6bcd10f0b7e54203fd34e557b8419b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 03/20] fix: support converting positive values to 1-bit signed
 integers

---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index a2120bb..643474a 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1692,8 +1692,9 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // Negative numbers cannot be represented as unsigned.
             0
         } else {
-            // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // Largest unsigned integer of the given width (which may be 0 for
+            // `to_i128_r`, when it handles positive values of width 1).
+            (!0u128).checked_shr(128 - width as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From 9642e31ab76ea8f4ca856801eddc698981e0d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 04/20] fix: report conversions of negative zero to signed
 integers as inexact

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 99a1dea0157c819da19f66bad85a07e1c0d75193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 05/20] fix: account for every rounding boundary when parsing
 decimal strings

---
 src/ieee.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 643474a..fbfb48e 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2660,30 +2660,22 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
+            // Distance from the closest boundary, i.e. from either a representable
+            // value (which affects directed rounding, and whether the result is
+            // exact) or from the midpoint between two of them (which affects
+            // rounding to the nearest).
             let ulps_from_boundary = {
                 let bits = calc_precision - used_bits - 1;
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
+                let mask = (1 << (bits % LIMB_BITS)) - 1;
+                let limb = sig_calc[i] & mask;
                 if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0].wrapping_neg()
-                    }
+                    cmp::min(limb, limb.wrapping_neg() & mask)
+                } else if limb == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
+                    sig_calc[0]
+                } else if limb == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
+                    sig_calc[0].wrapping_neg()
                 } else {
                     !0 // A lot.
                 }
-- 
2.43.0


From 6104518e5e51d0c15f976dd3d2c0675321bcb5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 06/20] fix: treat a formatting precision of 0 as the natural
 precision

---
 src/ieee.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index fbfb48e..edd7218 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,13 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        //
+        // An explicit precision of 0 also stands for that (as it does in the C++
+        // code), since there would otherwise be no significant digits to print.
+        let precision = f
+            .precision()
+            .filter(|&precision| precision != 0)
+            .unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 299f21ef9c76ba7b1c4be64051d1c2e520b54719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 07/20] fix: keep the digit that rounding depends on when
 printing

---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index edd7218..5bcc912 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -638,9 +638,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         let mut buffer = smallvec::SmallVec::<[u8; 64]>::new();
 
         // Ignore digits from the significand until it is no more
-        // precise than is required for the desired precision.
+        // precise than is required for the desired precision,
+        // and the one extra digit that rounding to it depends on.
         // 196/59 is a very slight overestimate of lg_2(10).
-        let required = (precision * 196 + 58) / 59;
+        let required = ((precision + 1) * 196 + 58) / 59;
         let mut discard_digits = sig::omsb(&sig).saturating_sub(required) * 59 / 196;
         let mut in_trail = true;
         while !sig.is_empty() {
-- 
2.43.0


From 96373f37117227d746d3d3356329aee1cbf18282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:48 +0000
Subject: [PATCH 08/20] fix: combine the signs of special operands in
 DoubleDouble multiplication

---
 src/ppc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..760095e 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -295,9 +295,13 @@ where
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            (Category::Zero, _) | (Category::Infinity, _) => {
+                Status::OK.and(if rhs.is_negative() { -self } else { self })
+            }
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => {
+                Status::OK.and(if self.is_negative() { -rhs } else { rhs })
+            }
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 98b262b05d204a04003088b3a799369db3b6515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 09/20] fix: compare the lower halves in DoubleDouble
 cmp_abs_normal by relative value

---
 src/ppc.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 760095e..c12cc43 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -392,16 +392,11 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // The lower halves, relative to the sign of the upper halves
+            // (either of them may be zero).
+            let lo = if self.0.is_negative() { -self.1 } else { self.1 };
+            let rhs_lo = if rhs.0.is_negative() { -rhs.1 } else { rhs.1 };
+            lo.partial_cmp(&rhs_lo).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From c24ef75e6665f4ce07b2e77d4275272bffa57903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 10/20] fix: look at both halves in DoubleDouble is_denormal

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index c12cc43..6ff884f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -410,7 +410,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From 23993bc7b6090ee5a51903508a378b027e8bd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 11/20] fix: leave no lower half behind when DoubleDouble
 scalbn overflows

---
 src/ppc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 6ff884f..593ccf6 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -436,7 +436,13 @@ where
     }
 
     fn scalbn_r(self, exp: ExpInt, round: Round) -> Self {
-        DoubleFloat(self.0.scalbn_r(exp, round), self.1.scalbn_r(exp, round))
+        let a = self.0.scalbn_r(exp, round);
+        let b = if a.is_finite_non_zero() {
+            self.1.scalbn_r(exp, round)
+        } else {
+            F::ZERO
+        };
+        DoubleFloat(a, b)
     }
 
     fn frexp_r(self, exp: &mut ExpInt, round: Round) -> Self {
-- 
2.43.0


From 89bb68ca7807ce8078c1706aef48afde05e57ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:04 +0000
Subject: [PATCH 12/20] fix: accept signaling NaNs in DoubleDouble operations

---
 src/ppc.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 593ccf6..1233327 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -76,12 +76,17 @@ where
         let mut status;
         let mut loses_info = false;
 
+        // Only signaling NaNs (which conversions quiet) are invalid here.
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
-        let a = unpack!(status=, extended.convert(&mut loses_info));
+        let mut a: F = unpack!(status=, extended.convert(&mut loses_info));
         assert_eq!(status - Status::INEXACT, Status::OK);
 
+        if x.is_signaling() {
+            a = F::snan(Some(a.to_bits())).copy_sign(a);
+        }
+
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
         // the extended format and compute the difference. This now should
@@ -108,13 +113,14 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut loses_info = false;
 
         // Get the first F and convert to our format.
+        // Only signaling NaNs (which conversions quiet) are invalid here.
         let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
             (a + b).value
         } else {
-- 
2.43.0


From 537e80421bfe5c406e35c4c160d48cf181f9cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 13/20] fix: handle DoubleDouble results just past the largest
 value

Values that fit the 106-bit fallback, but not a pair of doubles, were
panicking on the OVERFLOW of the final conversion.
---
 src/ppc.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 1233327..aea5fbf 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -80,8 +80,10 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
+        // Magnitudes that round to the power of 2 past the largest `F` (which is
+        // below the largest `Fallback<F>`) become infinite.
         let mut a: F = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - Status::INEXACT - Status::OVERFLOW, Status::OK);
 
         if x.is_signaling() {
             a = F::snan(Some(a.to_bits())).copy_sign(a);
@@ -107,6 +109,30 @@ where
     }
 }
 
+/// Convert the result of an operation that was rounded to `Fallback<F>`, whose
+/// largest values don't fit `DoubleFloat<F>` (i.e. they still overflow).
+fn from_rounded<F: Float>(r: StatusAnd<Fallback<F>>, round: Round) -> StatusAnd<DoubleFloat<F>>
+where
+    DoubleFloat<F>: Float + From<Fallback<F>>,
+{
+    let value = DoubleFloat::from(r.value);
+    if !value.is_infinite() || r.value.is_infinite() {
+        return r.status.and(value);
+    }
+
+    let to_infinity = match round {
+        Round::NearestTiesToEven | Round::NearestTiesToAway => true,
+        Round::TowardPositive => !value.is_negative(),
+        Round::TowardNegative => value.is_negative(),
+        Round::TowardZero => false,
+    };
+    if to_infinity {
+        (Status::OVERFLOW | Status::INEXACT).and(value)
+    } else {
+        Status::INEXACT.and(DoubleFloat::largest().copy_sign(value))
+    }
+}
+
 impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
     fn from(DoubleFloat(a, b): DoubleFloat<F>) -> Self {
         let mut status;
@@ -350,13 +376,12 @@ where
     }
 
     fn mul_add_r(self, multiplicand: Self, addend: Self, round: Round) -> StatusAnd<Self> {
-        Fallback::from(self)
-            .mul_add_r(Fallback::from(multiplicand), Fallback::from(addend), round)
-            .map(Self::from)
+        let r = Fallback::from(self).mul_add_r(Fallback::from(multiplicand), Fallback::from(addend), round);
+        from_rounded(r, round)
     }
 
     fn div_r(self, rhs: Self, round: Round) -> StatusAnd<Self> {
-        Fallback::from(self).div_r(Fallback::from(rhs), round).map(Self::from)
+        from_rounded(Fallback::from(self).div_r(Fallback::from(rhs), round), round)
     }
 
     fn ieee_rem(self, rhs: Self) -> StatusAnd<Self> {
@@ -385,7 +410,7 @@ where
     }
 
     fn from_str_r(s: &str, round: Round) -> Result<StatusAnd<Self>, ParseError> {
-        Fallback::from_str_r(s, round).map(|r| r.map(Self::from))
+        Fallback::from_str_r(s, round).map(|r| from_rounded(r, round))
     }
 
     fn to_bits(self) -> u128 {
-- 
2.43.0


From d0ce9416b9ad39d1b733f558785989b683c2309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 14/20] fix: avoid overflow in the intermediate steps of
 DoubleDouble add_r

Adding e.g. 2^1022 and the negated largest value resulted in NaN.
---
 src/ppc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index aea5fbf..217b948 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -273,6 +273,13 @@ where
                         self.1 = unpack!(status|=, self.1.add_r(zz, round));
                     }
                 } else {
+                    // Either order works below, as long as `a - z` doesn't overflow.
+                    let (a, c) = if a.sub_r(z, round).value.is_finite() {
+                        (a, c)
+                    } else {
+                        (c, a)
+                    };
+
                     // q = a - z;
                     let mut q = a;
                     q = unpack!(status|=, q.sub_r(z, round));
-- 
2.43.0


From 23bc0f0f763fde8497a162ebcbaa39099e652901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 15/20] fix: ilogb of denormals when the precision exceeds the
 exponent range

The exponent of a denormal was found by scaling it up by 2^(p-1), which
overflows when MIN_EXP + p - 1 > MAX_EXP, e.g. in the 22-bit format behind
DoubleFloat<Half> (and with it, c_fmod and ieee_rem, which panicked or were
wrong there).
---
 src/ieee.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 5bcc912..e761de0 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1850,7 +1850,7 @@ impl<S: Semantics> Float for IeeeFloat<S> {
         Some(reciprocal)
     }
 
-    fn ilogb(mut self) -> ExpInt {
+    fn ilogb(self) -> ExpInt {
         if self.is_nan() {
             return IEK_NAN;
         }
@@ -1864,10 +1864,8 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             return self.exp;
         }
 
-        let sig_bits = (S::PRECISION - 1) as ExpInt;
-        self.exp += sig_bits;
-        self = self.normalize(Round::NearestTiesToEven, Loss::ExactlyZero).value;
-        self.exp - sig_bits
+        // The exponent is that of the integer bit, which denormals don't have set.
+        self.exp - (S::PRECISION - sig::omsb(&self.sig)) as ExpInt
     }
 
     fn scalbn_r(mut self, exp: ExpInt, round: Round) -> Self {
-- 
2.43.0


From bbea87ee06985bf9955629bc26756057b9840364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 16/20] fix: round_to_integral when the precision exceeds the
 exponent range

2^(p-1), which was added and subtracted to round, overflows when p - 1 >
MAX_EXP, e.g. in the 22-bit format behind DoubleFloat<Half>, and this
panicked.
---
 src/ieee.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index e761de0..1c687a1 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1452,28 +1452,22 @@ impl<S: Semantics> Float for IeeeFloat<S> {
                     return Status::OK.and(self);
                 }
 
-                // The algorithm here is quite simple: we add 2^(p-1), where p is the
-                // precision of our format, and then subtract it back off again. The choice
-                // of rounding modes for the addition/subtraction determines the rounding mode
-                // for our integral rounding as well.
-                // NOTE: When the input value is negative, we do subtraction followed by
-                // addition instead.
-                assert!(S::PRECISION <= 128);
-                let mut status;
-                let magic_const = unpack!(status=, Self::from_u128(1 << (S::PRECISION - 1)));
-                assert_eq!(status, Status::OK);
-                let magic_const = magic_const.copy_sign(self);
-
+                // Drop the fractional bits (by shifting the lowest integer bit all the
+                // way to the right), and round the resulting integer significand.
                 let mut r = self;
-                r = unpack!(status=, r.add_r(magic_const, round));
-
-                // Current value and 'MagicConstant' are both integers, so the result of the
-                // subtraction is always exact according to Sterbenz' lemma.
-                r = r.sub_r(magic_const, round).value;
+                let fract_bits = S::PRECISION as ExpInt - 1 - r.exp;
+                let loss = sig::shift_right(&mut r.sig, &mut r.exp, fract_bits as usize);
+                let mut status = Status::OK;
+                if loss != Loss::ExactlyZero {
+                    status = Status::INEXACT;
+                    if r.round_away_from_zero(round, loss, 0) {
+                        sig::increment(&mut r.sig);
+                    }
+                }
 
-                // Restore the input sign to handle the case of zero result
-                // correctly.
-                status.and(r.copy_sign(self))
+                // Everything was rounded already, but a carry may still overflow.
+                let r = unpack!(status|=, r.normalize(round, Loss::ExactlyZero));
+                status.and(r)
             }
         }
     }
-- 
2.43.0


From 1a91253312385e6c7bd1052d136bdff4671c9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 17/20] fix: overflow of round_to_integral and from_u128 of
 DoubleFloat

Results between the largest DoubleFloat<F> and the next power of 2 became
infinite without OVERFLOW, in any rounding mode (possible when the halves
have a small exponent range, e.g. DoubleFloat<Half>).
---
 src/ppc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 217b948..d595a89 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -400,7 +400,7 @@ where
     }
 
     fn round_to_integral(self, round: Round) -> StatusAnd<Self> {
-        Fallback::from(self).round_to_integral(round).map(Self::from)
+        from_rounded(Fallback::from(self).round_to_integral(round), round)
     }
 
     fn next_up(self) -> StatusAnd<Self> {
@@ -413,7 +413,7 @@ where
     }
 
     fn from_u128_r(input: u128, round: Round) -> StatusAnd<Self> {
-        Fallback::from_u128_r(input, round).map(Self::from)
+        from_rounded(Fallback::from_u128_r(input, round), round)
     }
 
     fn from_str_r(s: &str, round: Round) -> Result<StatusAnd<Self>, ParseError> {
-- 
2.43.0


From c7ecb76b304764d5cbaa8230924b0ce3b7a41b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 18/20] fix: sign of sums of DoubleFloat zeros

---
 src/ppc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index d595a89..d10372b 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -219,6 +219,9 @@ where
 
     fn add_r(mut self, rhs: Self, round: Round) -> StatusAnd<Self> {
         match (self.category(), rhs.category()) {
+            // The sign of a sum of zeros is decided as for `F`.
+            (Category::Zero, Category::Zero) => self.0.add_r(rhs.0, round).map(|z| DoubleFloat(z, F::ZERO)),
+
             (Category::Infinity, Category::Infinity) => {
                 if self.is_negative() != rhs.is_negative() {
                     Status::INVALID_OP.and(Self::NAN.copy_sign(self))
-- 
2.43.0


From 415f14843981e10fe60d3a209c429b80c518d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 19/20] fix: report DoubleFloat 0 * Inf as invalid

---
 src/ppc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index d10372b..c30e9a6 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -335,7 +335,9 @@ where
 
             (_, Category::NaN) => Status::OK.and(rhs),
 
-            (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
+            (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => {
+                Status::INVALID_OP.and(Self::NAN)
+            }
 
             (Category::Zero, _) | (Category::Infinity, _) => {
                 Status::OK.and(if rhs.is_negative() { -self } else { self })
-- 
2.43.0


From 8692a5be54673ead3785ef3319a425e0c5475a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 20/20] fix: report and quiet signaling NaN operands of
 DoubleFloat

---
 src/ppc.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index c30e9a6..d0ad593 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -134,15 +134,20 @@ where
 }
 
 impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
-    fn from(DoubleFloat(a, b): DoubleFloat<F>) -> Self {
+    fn from(DoubleFloat(hi, b): DoubleFloat<F>) -> Self {
         let mut status;
         let mut loses_info = false;
 
         // Get the first F and convert to our format.
         // Only signaling NaNs (which conversions quiet) are invalid here.
-        let a = unpack!(status=, a.convert(&mut loses_info));
+        let a: Self = unpack!(status=, hi.convert(&mut loses_info));
         assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
+        // Leave it to the operation to quiet (and report) them.
+        if hi.is_signaling() {
+            return Self::snan(Some(hi.to_bits() << F::PRECISION)).copy_sign(a);
+        }
+
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
@@ -219,8 +224,10 @@ where
 
     fn add_r(mut self, rhs: Self, round: Round) -> StatusAnd<Self> {
         match (self.category(), rhs.category()) {
-            // The sign of a sum of zeros is decided as for `F`.
-            (Category::Zero, Category::Zero) => self.0.add_r(rhs.0, round).map(|z| DoubleFloat(z, F::ZERO)),
+            // The sign of a sum of zeros, and the NaN to return, are decided as for `F`.
+            (Category::Zero, Category::Zero) | (Category::NaN, _) | (_, Category::NaN) => {
+                self.0.add_r(rhs.0, round).map(|z| DoubleFloat(z, F::ZERO))
+            }
 
             (Category::Infinity, Category::Infinity) => {
                 if self.is_negative() != rhs.is_negative() {
@@ -230,9 +237,9 @@ where
                 }
             }
 
-            (_, Category::Zero) | (Category::NaN, _) | (Category::Infinity, Category::Normal) => Status::OK.and(self),
+            (_, Category::Zero) | (Category::Infinity, Category::Normal) => Status::OK.and(self),
 
-            (Category::Zero, _) | (_, Category::NaN) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (Category::Zero, _) | (_, Category::Infinity) => Status::OK.and(rhs),
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
@@ -331,9 +338,7 @@ where
         //      Normal * Zero = Zero
         //      Normal * Inf = Inf
         match (self.category(), rhs.category()) {
-            (Category::NaN, _) => Status::OK.and(self),
-
-            (_, Category::NaN) => Status::OK.and(rhs),
+            (Category::NaN, _) | (_, Category::NaN) => self.0.mul_r(rhs.0, round).map(|z| DoubleFloat(z, F::ZERO)),
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => {
                 Status::INVALID_OP.and(Self::NAN)
-- 
2.43.0

