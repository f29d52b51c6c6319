From 7316ea8a50a3c2b7c6cad5c85c37f5e90f0931ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 01/20] fix: estimate the weight of an integer power from 16
 digits of the base

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..dd15a4d 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1664,7 +1664,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if i * DEC_DIGITS as usize >= 16 {
                 break;
             }
 
-- 
2.43.0


From dd543186cdd37619c0af9a8cc0084c865db9a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 02/20] fix: let a zero carry a scale that overflows until the
 result is checked

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index dd15a4d..623878f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,7 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From a98d57b2d429008f9d1bc6cdb4728e1094c65ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 03/20] fix: strip leading zeroes before checking the weight
 for overflow

---
 src/var.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 623878f..aff1668 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2324,10 +2324,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // leading zeroes must not count towards the weight
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
-- 
2.43.0


From 161132723eb6b308bfb39f02176f8366a0a80b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 04/20] fix: scientific notation of numbers below 1e-1000

---
 src/var.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index aff1668..f834c79 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2221,9 +2221,10 @@ impl<'a> NumericVar<'a> {
         // to rscale decimal digits in the process.
         let denom_scale = if exponent < 0 { -exponent } else { 0 };
 
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        let denom_digits = [10i16.pow(exponent.rem_euclid(DEC_DIGITS) as u32)];
+        let denom_weight = exponent.div_euclid(DEC_DIGITS);
+        let denominator =
+            NumericVar::borrowed(1, denom_weight, denom_scale, NUMERIC_POS, &denom_digits);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From 99dc55c603e5a5eea9a90ded8b45a574d78926d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 05/20] fix: keep the value when round_mut or apply_typmod
 overflows the format

---
 src/num.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..2bd4c6a 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // the value is still needed if the result overflows
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -139,7 +140,8 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
-        let mut var = self.as_var_owned();
+        // the value is still needed if the result overflows
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 127b5ea80acfba0ed9e9dd7cff8b1d3f194ef974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 06/20] fix: apply_typmod leaves NaN alone

---
 src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 2bd4c6a..f549b2b 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -140,6 +140,10 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            return false;
+        }
+
         // the value is still needed if the result overflows
         let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
-- 
2.43.0


From d6f81952b57ba0e78ff0937dd08639719d22e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 07/20] fix: raise to the power of i32::MIN

---
 src/var.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index f834c79..6e12c29 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1693,11 +1693,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = exp.unsigned_abs();
 
         let mut base_prod = self.clone();
 
@@ -1709,7 +1709,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From 18cba2d9f772c3b0bde0cf13abad685a66a30ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 08/20] fix: let the intermediate overflow of fast division
 wrap

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 6e12c29..2333f59 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1448,9 +1448,10 @@ impl<'a> NumericVar<'a> {
             // cause a canceling overflow so that the end result is correct.  We
             // could avoid the intermediate overflow by doing the multiplication
             // and addition in int64 arithmetic, but so far there appears no need.
+            // The overflow has to wrap, though, whatever the build settings.
             let div_qi = unsafe { *div.get_unchecked(qi) };
             let div_qi_1 = unsafe { div.get_unchecked_mut(qi + 1) };
-            *div_qi_1 += div_qi * NBASE;
+            *div_qi_1 = div_qi_1.wrapping_add(div_qi.wrapping_mul(NBASE));
 
             let div_qi = unsafe { div.get_unchecked_mut(qi) };
             *div_qi = qdigit;
-- 
2.43.0


From a453905c2b2f6341099c865bcf5a03a6e9e9d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 09/20] fix: raise a negative number to an integer beyond i32

---
 src/var.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 2333f59..40aa646 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2049,6 +2049,19 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // A negative base gets here only with an integer too large for power_int().
+        // The sign depends on whether that is odd, the rest on the absolute value.
+        if self.is_negative() {
+            let odd = exp.ndigits == exp.weight + 1 && exp.digits()[exp.weight as usize] % 2 != 0;
+            let mut base = self.clone();
+            base.negate();
+            let mut result = base.power_common(exp)?;
+            if odd {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From d3f4c13d6a1b252e6c8beb8da3a269fb0d7b0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 10/20] fix: a fractional power too small to show is zero, not
 an overflow

---
 src/var.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 40aa646..191cddb 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2090,6 +2090,10 @@ impl<'a> NumericVar<'a> {
 
         // initial overflow test with fuzz factor
         if val.abs() > NUMERIC_MAX_RESULT_SCALE as f64 * 3.01 {
+            if val < 0.0 {
+                // too small to show at any scale
+                return Some(Self::zero_scaled(NUMERIC_MAX_DISPLAY_SCALE));
+            }
             // value overflows numeric format
             return None;
         }
@@ -2103,6 +2107,11 @@ impl<'a> NumericVar<'a> {
             .max(NUMERIC_MIN_DISPLAY_SCALE)
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
+        // a result this small rounds to zero
+        if rscale + (val as i32) < -1 {
+            return Some(Self::zero_scaled(rscale));
+        }
+
         // set the scale for the real exp * ln(base) calculation
         let local_rscale = (rscale + val as i32 - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
 
-- 
2.43.0


From 17763d2b1fef5d555a29cbd25986df9e6fc49c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 11/20] fix: square root of numbers whose root rounds to zero

---
 src/var.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 191cddb..3411de3 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1576,6 +1576,12 @@ impl<'a> NumericVar<'a> {
             return Self::zero_scaled(rscale);
         }
 
+        // The root is below 10^((weight + 1) * DEC_DIGITS / 2). One that rounds to zero
+        // leaves Newton's iteration nothing to divide by.
+        if (self.weight + 1) * DEC_DIGITS / 2 < -rscale {
+            return Self::zero_scaled(rscale);
+        }
+
         // Initialize the result to the first guess
         let mut result = Self::with_ndigits(1);
         let data = result.digits.to_mut();
-- 
2.43.0


From 9230c0f3760effc982d6fdd5afee6229c29f3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 12/20] fix: do not require more alignment of a stored numeric
 than its buffer has

---
 src/binary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..7f00b91 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,10 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// The buffers it is read from are allocated as numeric digits, so it must not
+/// require more than their alignment.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From 1e0da9992c28493bb3d268d990658fad160205c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 13/20] fix: free the buffer of a NumericBuf with the layout it
 was allocated with

---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index f549b2b..0f5f65d 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -209,8 +209,13 @@ impl Drop for NumericBuf {
     #[inline]
     fn drop(&mut self) {
         if !self.buf.is_null() {
+            // the buffer was allocated as numeric digits
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 81db1dfb2709269771b96ff8aa30823bb23f487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 14/20] fix: serialize a numeric as bytes, which is what is
 deserialized

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 0f5f65d..6657ffb 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -325,7 +325,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1035,7 +1035,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From 86314dcf00dd1442a5d40cc2a88cfecf68a69248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 15/20] fix: validate the bytes a numeric is deserialized from

---
 src/binary.rs | 64 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    | 29 ++++++++++++++++++++++-
 2 files changed, 92 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index 7f00b91..7b2c2ba 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -43,6 +43,8 @@
 // The weight is arbitrary in that case, but we normally set it to zero.
 
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::{DEC_DIGITS, NBASE};
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::size_of;
@@ -310,6 +312,68 @@ impl NumericBinary {
             && weight >= NUMERIC_SHORT_WEIGHT_MIN
     }
 
+    /// Returns true if `bytes` is a well formed numeric.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        let len = bytes.len();
+        if len < NUMERIC_HEADER_SIZE_SHORT || len > 0x3FFF_FFFF || len % 2 != 0 {
+            return false;
+        }
+
+        let vl_len = u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if vl_len != NumericBinary::encode_len(len as u32) {
+            return false;
+        }
+
+        let word = |pos: usize| u16::from_ne_bytes([bytes[pos], bytes[pos + 1]]);
+        let header = word(VAR_HEADER_SIZE as usize);
+        let (sign, weight, dscale, header_size) = match header & NUMERIC_SIGN_MASK {
+            // there might be NaNs with a long header
+            NUMERIC_NAN => return len <= NUMERIC_HEADER_SIZE,
+            NUMERIC_SHORT => {
+                let sign = if header & NUMERIC_SHORT_SIGN_MASK != 0 {
+                    NUMERIC_NEG
+                } else {
+                    NUMERIC_POS
+                };
+                let weight = if header & NUMERIC_SHORT_WEIGHT_SIGN_MASK != 0 {
+                    (!NUMERIC_SHORT_WEIGHT_MASK | header) as i16
+                } else {
+                    (header & NUMERIC_SHORT_WEIGHT_MASK) as i16
+                };
+                let dscale = (header & NUMERIC_SHORT_DSCALE_MASK) >> NUMERIC_SHORT_DSCALE_SHIFT;
+                (sign, weight, dscale, NUMERIC_HEADER_SIZE_SHORT)
+            }
+            sign => {
+                if len < NUMERIC_HEADER_SIZE {
+                    return false;
+                }
+                let weight = word(NUMERIC_HEADER_SIZE_SHORT) as i16;
+                (sign, weight, header & NUMERIC_DSCALE_MASK, NUMERIC_HEADER_SIZE)
+            }
+        };
+
+        let ndigits = (len - header_size) / NUMERIC_DIGIT_SIZE as usize;
+        if ndigits == 0 {
+            return sign == NUMERIC_POS && weight == 0;
+        }
+
+        let digit = |i: usize| word(header_size + i * NUMERIC_DIGIT_SIZE as usize);
+        let last = digit(ndigits - 1);
+        if digit(0) == 0 || last == 0 || (0..ndigits).any(|i| digit(i) >= NBASE as u16) {
+            return false;
+        }
+
+        // no digits beyond the display scale
+        let mut scale = (ndigits as i32 - weight as i32 - 1) * DEC_DIGITS;
+        let mut last = last;
+        while last % 10 == 0 {
+            scale -= 1;
+            last /= 10;
+        }
+        scale <= dscale as i32
+    }
+
     #[inline]
     const fn encode_len(len: u32) -> u32 {
         cfg_if! {
diff --git a/src/num.rs b/src/num.rs
index 6657ffb..dc2cfba 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -360,7 +360,21 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::invalid_value(
+                        serde::de::Unexpected::Bytes(v),
+                        &self,
+                    ));
+                }
+
+                // `v` might not be aligned
+                let len = v.len() / NUMERIC_DIGIT_SIZE as usize;
+                let mut buf: Vec<NumericDigit> = Vec::with_capacity(len);
+                let n = unsafe {
+                    let ptr = buf.as_mut_ptr() as *mut u8;
+                    std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len());
+                    Numeric::from_bytes_unchecked(std::slice::from_raw_parts(ptr, v.len()))
+                };
                 Ok(n.to_owned())
             }
         }
@@ -1062,6 +1076,19 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::invalid_value(
+                        serde::de::Unexpected::Bytes(v),
+                        &self,
+                    ));
+                }
+
+                if v.as_ptr().align_offset(NUMERIC_DIGIT_SIZE as usize) != 0 {
+                    return Err(serde::de::Error::custom(
+                        "can't deserialize borrowed numeric from unaligned bytes",
+                    ));
+                }
+
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From 9afa94f678ab1b690784c5438d4f91cee0a3eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 16/20] fix: do not show uninitialized memory in Debug

---
 src/num.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index dc2cfba..0d87257 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -235,7 +235,8 @@ impl fmt::Debug for NumericBuf {
         let buf = if self.buf.is_null() {
             &[]
         } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
+            // the rest of the buffer may be uninitialized
+            self.as_bytes()
         };
 
         f.debug_struct("NumericBuf")
-- 
2.43.0


From 4ca914b6841d946abaeb6e39e8ca19c230f2cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 17/20] fix: convert floats whatever the decimal point of the
 locale

---
 src/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..01d1167 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -315,7 +315,9 @@ fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
             T::PRECISION,
             f.as_f64(),
         );
-        let s = CStr::from_ptr(buf.as_ptr() as *const i8).to_string_lossy();
+        let s = CStr::from_ptr(buf.as_ptr() as *const _).to_string_lossy();
+        // the decimal point is that of the process's locale
+        let s = s.replace(|c: char| !c.is_ascii_alphanumeric() && c != '+' && c != '-', ".");
         let n = s.parse::<NumericBuf>()?;
         Ok(n)
     }
-- 
2.43.0


From 6b78f3864eb3d07188f79f96b5945948c6b45d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 18/20] fix: square exactly before rounding to the scale of the
 power

---
 src/var.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 3411de3..36d467d 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1649,7 +1649,10 @@ impl<'a> NumericVar<'a> {
                 return Some(result);
             }
             2 => {
-                let result = self.mul_common(self, rscale);
+                // the guard digits of a product cut at rscale do not make up for
+                // all that is left out when there are many digits
+                let mut result = self.mul_common(self, self.dscale * 2);
+                result.round_common(rscale);
                 return Some(result);
             }
             _ => (),
-- 
2.43.0


From 9b9df6900d478493b7b486e17f36c47732d934c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:40 +0000
Subject: [PATCH 19/20] fix: logarithm of a number so close to one that it
 rounds to zero

---
 src/var.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 36d467d..607c0aa 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1914,6 +1914,9 @@ impl<'a> NumericVar<'a> {
             .max(NUMERIC_MIN_DISPLAY_SCALE)
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
+        // The result might be too small for any significant digit at that scale.
+        let result_dweight = result_dweight.max(-rscale);
+
         // Set the scales for ln(base) and ln(num) so that they each have more
         // significant digits than the final result.
         let ln_base_rscale =
-- 
2.43.0


From 847fe6c22fbb45703d526b6cc0807a97ecbc37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 20/20] fix: powers of bases that differ from one by less than
 1e-992

---
 src/var.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 607c0aa..c697014 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2091,9 +2091,8 @@ impl<'a> NumericVar<'a> {
         // overflow threshold so that it is consistent for all inputs.
         let ln_dweight = self.estimate_ln_dweight();
 
-        let local_rscale = (8 - ln_dweight)
-            .max(NUMERIC_MIN_DISPLAY_SCALE)
-            .min(NUMERIC_MAX_DISPLAY_SCALE);
+        // a base very close to one needs more than NUMERIC_MAX_DISPLAY_SCALE here
+        let local_rscale = (8 - ln_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         let mut ln_base = self.ln_common(local_rscale);
         let mut ln_num = ln_base.mul_common(exp, local_rscale);
-- 
2.43.0

