From 2604f0d2a177859b2b9e67245eb9d4c79699f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 01/26] fix: U256 division when leading remainder and divisor
 words are equal

div_3by2 required [n2 n1] < [d1 d0], but with divisors of three or more limbs
the two can be equal. The subtraction then wrapped and the quotient digit was
one too small, giving wrong quotients, remainders, gcds and modular inverses.
---
 algebra/u256/src/arch/generic/knuth_division.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/algebra/u256/src/arch/generic/knuth_division.rs b/algebra/u256/src/arch/generic/knuth_division.rs
index 00fbee2..909e6b1 100644
--- a/algebra/u256/src/arch/generic/knuth_division.rs
+++ b/algebra/u256/src/arch/generic/knuth_division.rs
@@ -52,10 +52,16 @@ fn div_3by2(n: &[u64; 3], d: &[u64; 2]) -> u64 {
     // The highest bit of d needs to be set
     debug_assert!(d[1] >> 63 == 1);
 
-    // The quotient needs to fit u64. For this we need [n2 n1] < [d1 d0]
-    debug_assert!(val_2(n[1], n[2]) < val_2(d[0], d[1]));
+    // In long division the running remainder is less than the divisor, so the
+    // leading words satisfy [n2 n1] <= [d1 d0].
+    debug_assert!(val_2(n[1], n[2]) <= val_2(d[0], d[1]));
 
-    if n[2] == d[1] {
+    if n[2] == d[1] && n[1] == d[0] {
+        // The quotient does not fit u64. The lower words of the divisor decide
+        // that the quotient digit is less than 2^64, and since the divisor is
+        // normalized the digit is the largest possible.
+        u64::max_value()
+    } else if n[2] == d[1] {
         // From [n2 n1] < [d1 d0] and n2 = d1 it follows that n[1] < d[0].
         debug_assert!(n[1] < d[0]);
         // We start by subtracting 2^64 times the divisor, resulting in a
-- 
2.43.0


From dc0a6ef7d03f73039918a5b5a1d4b1f4e7935ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 02/26] fix: Sum for U256 starts from zero

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From 986e9e095aaa9691044594510e6ae6fb92737d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:17 +0000
Subject: [PATCH 03/26] fix: GeometricIter skip past the end and step_by on
 partial groups

---
 algebra/primefield/src/geometric_series.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index cb785d1..0c54fe2 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -33,7 +33,7 @@ where
 
     pub fn skip(mut self, n: usize) -> Self {
         self.current *= self.step.pow(n);
-        self.length -= n;
+        self.length = self.length.saturating_sub(n);
         self
     }
 
@@ -46,7 +46,9 @@ where
     pub fn step_by(mut self, step: usize) -> Self {
         assert!(step > 0);
         self.step = self.step.pow(step);
-        self.length /= step;
+        // The first item of every (partial) group of `step` items remains.
+        let partial = self.length % step != 0;
+        self.length = self.length / step + usize::from(partial);
         self
     }
 }
-- 
2.43.0


From b48f576b0309df98dcc899c2623fbfaf0dd35541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:17 +0000
Subject: [PATCH 04/26] fix: field power with exponent isize::MIN

---
 algebra/primefield/src/prime_field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebra/primefield/src/prime_field.rs b/algebra/primefield/src/prime_field.rs
index 7167239..5f6fa17 100644
--- a/algebra/primefield/src/prime_field.rs
+++ b/algebra/primefield/src/prime_field.rs
@@ -302,7 +302,8 @@ impl<P: Parameters> Pow<isize> for &PrimeField<P> {
 
     fn pow(self, exponent: isize) -> Self::Output {
         let negative = exponent < 0;
-        let abs = exponent.abs() as usize;
+        // `wrapping_abs` because `isize::MIN` has no positive counterpart.
+        let abs = exponent.wrapping_abs() as usize;
         if negative {
             self.inv().map(|n| n.pow(&abs))
         } else {
-- 
2.43.0


From 79083f4e85ec4abb5bf6525e2a4165da2d63467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:56 +0000
Subject: [PATCH 05/26] fix: conversion of minimum signed integers to field
 elements

---
 algebra/primefield/src/convert.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 2d21ae7..85895f3 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -1,19 +1,20 @@
-use crate::{Parameters, PrimeField, UInt};
+use crate::{One, Parameters, PrimeField, UInt};
 use num_traits::ToPrimitive;
 use std::convert::From;
 use zkp_u256::U256;
 
 // TODO: Move upstream to `num_traits`
 pub trait MaybeSigned {
-    /// True if negative
-    fn as_sign_abs(self) -> (bool, Self);
+    /// Returns `(false, n)` for non-negative `n` and `(true, -n - 1)` for
+    /// negative `n`. (The absolute value of the minimum does not fit.)
+    fn as_sign_complement(self) -> (bool, Self);
 }
 
 macro_rules! maybe_unsigned {
     ($type:ident) => {
         impl MaybeSigned for $type {
             #[inline(always)]
-            fn as_sign_abs(self) -> (bool, Self) {
+            fn as_sign_complement(self) -> (bool, Self) {
                 (false, self)
             }
         }
@@ -24,11 +25,11 @@ macro_rules! maybe_signed {
     ($type:ident) => {
         impl MaybeSigned for $type {
             #[cfg_attr(feature = "inline", inline(always))]
-            fn as_sign_abs(self) -> (bool, Self) {
+            fn as_sign_complement(self) -> (bool, Self) {
                 if self >= 0 {
                     (false, self)
                 } else {
-                    (true, -self)
+                    (true, !self)
                 }
             }
         }
@@ -62,11 +63,12 @@ where
 {
     #[cfg_attr(feature = "inline", inline(always))]
     fn from(other: Other) -> Self {
-        let (sign, abs) = other.as_sign_abs();
-        if sign {
-            -Self::from_uint_reduce(&abs.into())
+        let (negative, value) = other.as_sign_complement();
+        let value = Self::from_uint_reduce(&value.into());
+        if negative {
+            -(value + Self::one())
         } else {
-            Self::from_uint_reduce(&abs.into())
+            value
         }
     }
 }
-- 
2.43.0


From 93e908f962e5c6ccd50a60f4beb3390aa3ac996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:35 +0000
Subject: [PATCH 06/26] fix: FieldElement::to_i128 for i128::MIN

---
 algebra/primefield/src/convert.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/convert.rs b/algebra/primefield/src/convert.rs
index 85895f3..2017efb 100644
--- a/algebra/primefield/src/convert.rs
+++ b/algebra/primefield/src/convert.rs
@@ -89,8 +89,9 @@ where
         } else {
             // UInt should not have interior mutability
             #[allow(clippy::borrow_interior_mutable_const)]
-            let val = P::MODULUS.sub(&val);
-            val.to_i128().and_then(i128::checked_neg)
+            // Compute -n - 1 first, the negation of `i128::MIN` does not fit.
+            let val = P::MODULUS.sub(&val).sub(&U::one());
+            val.to_i128().map(|n| -n - 1)
         }
     }
 
-- 
2.43.0


From 9d5279e5e926ce45ec0f1fa0222ef90dddb079e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 07/26] fix: U256::from_decimal_str overflow wrap-around and
 panic on non-ASCII input

---
 algebra/u256/src/encoding.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..3f44043 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -11,9 +11,9 @@ use std::format;
 
 impl U256 {
     pub fn from_decimal_str(s: &str) -> Result<Self, ParseError> {
-        // ceil(2^256 / 10)
+        // floor(2^256 / 10)
         let max10: Self = Self::from_limbs([
-            0x9999_9999_9999_999a_u64,
+            0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x9999_9999_9999_9999_u64,
             0x1999_9999_9999_9999_u64,
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
+        for c in s.chars() {
             if result > max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(c.encode_utf8(&mut [0; 4]), 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
-- 
2.43.0


From 09c348e94cf9c67b940464577374e54062e3ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 08/26] fix: deserializing malformed hex into U256 is an error,
 over-long hex is not truncated

---
 algebra/u256/src/conversion.rs | 4 ++++
 algebra/u256/src/encoding.rs   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/algebra/u256/src/conversion.rs b/algebra/u256/src/conversion.rs
index 8d04857..14dad9c 100644
--- a/algebra/u256/src/conversion.rs
+++ b/algebra/u256/src/conversion.rs
@@ -48,6 +48,10 @@ impl<'a> Deserialize<'a> for U256 {
     fn deserialize<D: Deserializer<'a>>(deserializer: D) -> Result<Self, D::Error> {
         if deserializer.is_human_readable() {
             let string = String::deserialize(deserializer)?;
+            let digits = string.trim_start_matches("0x");
+            if digits.len() > 64 || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+                return Err(serde::de::Error::custom("invalid hexadecimal U256"));
+            }
             Ok(U256::from_hex_str(&string))
         } else {
             <[u8; 32]>::deserialize(deserializer).map(|b| U256::from_bytes_be(&b))
diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index 3f44043..54e71d6 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -66,7 +66,7 @@ impl U256 {
         // TODO: error
         let bytes = hex::decode(byte_string).unwrap();
         let mut array = [0_u8; 32];
-        array.copy_from_slice(&bytes[..32]);
+        array.copy_from_slice(&bytes);
         Self::from_bytes_be(&array)
     }
 }
-- 
2.43.0


From 240827756e4c0a7acd177bbf7405152d64bf0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 09/26] fix: decoding a field element rejects values that
 exceed the modulus

---
 algebra/primefield/src/parity_codec.rs | 6 +++++-
 algebra/primefield/src/serde.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/parity_codec.rs b/algebra/primefield/src/parity_codec.rs
index 95beb6d..acb20cb 100644
--- a/algebra/primefield/src/parity_codec.rs
+++ b/algebra/primefield/src/parity_codec.rs
@@ -35,7 +35,11 @@ where
     P: Parameters<UInt = U>,
 {
     fn decode<I: Input>(value: &mut I) -> Result<Self, Error> {
-        Ok(Self::from_uint(&U::decode(value)?))
+        let u = U::decode(value)?;
+        if u >= P::MODULUS {
+            return Err("field element exceeds modulus".into());
+        }
+        Ok(Self::from_uint(&u))
     }
 }
 
diff --git a/algebra/primefield/src/serde.rs b/algebra/primefield/src/serde.rs
index 7ca23e3..b11f713 100644
--- a/algebra/primefield/src/serde.rs
+++ b/algebra/primefield/src/serde.rs
@@ -1,6 +1,6 @@
 use crate::{uint::UInt, Parameters, PrimeField};
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 
@@ -27,6 +27,9 @@ where
         D: Deserializer<'de>,
     {
         let u = U::deserialize(deserializer)?;
+        if u >= P::MODULUS {
+            return Err(D::Error::custom("field element exceeds modulus"));
+        }
         Ok(Self::from_uint(&u))
     }
 }
-- 
2.43.0


From ccc6af6e369c4f15a38193a0400cadd85fde447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 10/26] fix: mixed addition of equal points doubles instead of
 returning infinity

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From 4a05b5b1a08c0484e508be2793aa81db1f107d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 11/26] fix: double_mul handles negative digits of the first
 scalar

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 3e1caa9e05ffeab1e996f8998f3963c0c484faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 12/26] fix: double_base_mul with the point at infinity

---
 algebra/elliptic-curve/src/wnaf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index b451bd0..7cef11c 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::{curve::Affine, jacobian::Jacobian, ScalarFieldElement};
 use itertools::izip;
-use zkp_primefield::{FieldElement, Inv, One, SquareInline};
+use zkp_primefield::{FieldElement, Inv, One, SquareInline, Zero};
 use zkp_u256::{Binary, U256};
 
 pub(crate) fn window_table(p: &Affine, naf: &mut [Jacobian]) {
@@ -41,10 +41,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
     let mut acc = FieldElement::one();
     // OPT: Check if `izip!` has overhead
     for (jac, val) in izip!(jacobians.iter(), vals.iter_mut()) {
-        // TODO: Handle zeros
         // OPT: First mul is with one, can be removed
         *val = acc.clone();
-        acc *= &jac.z;
+        if !jac.z.is_zero() {
+            acc *= &jac.z;
+        }
     }
 
     // Invert accumulator
@@ -53,6 +54,11 @@ pub(crate) fn batch_convert(jacobians: &[Jacobian], affines: &mut [Affine]) {
 
     // Compute inverses and affine points
     for (jac, val, aff) in izip!(jacobians.iter(), vals.into_iter(), affines.iter_mut()).rev() {
+        if jac.z.is_zero() {
+            *aff = Affine::ZERO;
+            continue;
+        }
+
         // Compute zi
         // OPT: Last mul is with one, can be removed
         let zi = &acc * val;
-- 
2.43.0


From a46d81d3976d4233ccf500cdbbee6f9b72a312f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 13/26] fix: ECDSA verification rejects malformed signatures
 and keys instead of panicking

---
 crypto/elliptic-curve-crypto/src/public_key.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crypto/elliptic-curve-crypto/src/public_key.rs b/crypto/elliptic-curve-crypto/src/public_key.rs
index 79d7d8f..c2d6864 100644
--- a/crypto/elliptic-curve-crypto/src/public_key.rs
+++ b/crypto/elliptic-curve-crypto/src/public_key.rs
@@ -20,9 +20,13 @@ impl PublicKey {
     }
 
     pub fn verify(&self, digest: &ScalarFieldElement, signature: &Signature) -> bool {
-        assert!(!signature.r().is_zero());
-        assert!(!signature.w().is_zero());
-        assert!(self.0.is_on_curve());
+        if signature.r().is_zero()
+            || signature.w().is_zero()
+            || self.0 == Affine::ZERO
+            || !self.0.is_on_curve()
+        {
+            return false;
+        }
 
         let generator_factor = digest * signature.w();
         let pubkey_factor = signature.r() * signature.w();
-- 
2.43.0


From 9b0267e49d01c3a630b2eaff39485aff9d81df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:20 +0000
Subject: [PATCH 14/26] fix: MmapVec drops every element exactly once and never
 touches uninitialized slots

---
 utils/mmap-vec/src/mmap_vec.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..5a2b322 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
@@ -76,9 +79,15 @@ impl<T: Clone> MmapVec<T> {
         if self.length == self.capacity {
             panic!("MmapVec is at capacity")
         }
-        let end = self.length;
+        // The slot is uninitialized, so it must be written without dropping the
+        // previous contents. It is within the mapping because `length` is less
+        // than `capacity`.
+        unsafe {
+            (self.mmap.as_mut_ptr() as *mut T)
+                .add(self.length)
+                .write(next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -112,16 +121,14 @@ impl<T: Clone> MmapVec<T> {
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
+        self.truncate(size);
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
-        if self.length + slice.len() > self.capacity {
+        if slice.len() > self.capacity - self.length {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        self.extend(slice);
     }
 
     #[inline]
@@ -137,6 +144,12 @@ impl<T: Clone> MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone + PartialEq> PartialEq for MmapVec<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.len() != other.len() {
-- 
2.43.0


From 59308ae78ca48049f7cc383998ca80ef2dff2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:20 +0000
Subject: [PATCH 15/26] fix: LoggingAllocator peak includes the allocation that
 reaches it

---
 utils/logging-allocator/src/logging_allocator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..15870a0 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -111,7 +111,7 @@ unsafe impl GlobalAlloc for LoggingAllocator {
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-            let _ = fetch_max(&self.peak_allocated, allocated);
+            let _ = fetch_max(&self.peak_allocated, allocated + layout.size());
             let _ = fetch_max(&self.largest_allocated, layout.size());
         }
         result
-- 
2.43.0


From 1129f2d02bdf40a0477f545d4aeb09fa05bf1dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:20 +0000
Subject: [PATCH 16/26] fix: formatting of allocation sizes just below a unit
 boundary

---
 utils/logging-allocator/src/size_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logging-allocator/src/size_bytes.rs b/utils/logging-allocator/src/size_bytes.rs
index c5c4e26..ee46cb6 100644
--- a/utils/logging-allocator/src/size_bytes.rs
+++ b/utils/logging-allocator/src/size_bytes.rs
@@ -23,21 +23,21 @@ impl fmt::Display for SizeBytes {
                 f,
                 "{:.1$} kB",
                 size / 1.0e3,
-                5 - (size.log10().floor() as usize)
+                5_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e9 {
             write!(
                 f,
                 "{:.1$} MB",
                 size / 1.0e6,
-                8 - (size.log10().floor() as usize)
+                8_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else if size < 1.0e12 {
             write!(
                 f,
                 "{:.1$} GB",
                 size / 1.0e9,
-                11 - (size.log10().floor() as usize)
+                11_usize.saturating_sub(size.log10().floor() as usize)
             )
         } else {
             write!(f, "{} TB", size / 1.0e12)
-- 
2.43.0


From 6b071772a1fc83a84b99caa6309a645b73767605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:12 +0000
Subject: [PATCH 17/26] fix: verifier reports truncated proofs as errors
 instead of panicking

---
 crypto/stark/src/channel.rs            | 34 +++++++++++++-------------
 crypto/stark/src/solidity_seralizer.rs |  3 +++
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..d919f88 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -1,7 +1,7 @@
 // TODO: Naming?
 #![allow(clippy::module_name_repetitions)]
 use crate::proof_of_work;
-use std::{convert::TryInto, prelude::v1::*};
+use std::{cmp::min, convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
@@ -89,6 +89,18 @@ impl VerifierChannel {
         self.proof_index == self.proof.len()
     }
 
+    /// Reads the next bytes of the proof and updates the public coin.
+    ///
+    /// Bytes past the end of the proof are read as zero. The read position
+    /// still advances, so a truncated proof is never `at_end`.
+    fn read(&mut self, destination: &mut [u8]) {
+        let from = min(self.proof_index, self.proof.len());
+        let to = min(from + destination.len(), self.proof.len());
+        destination[..to - from].copy_from_slice(&self.proof[from..to]);
+        self.proof_index += destination.len();
+        self.coin.write(&*destination);
+    }
+
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
         (0..n).map(|_| self.get_random()).collect()
     }
@@ -97,11 +109,8 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
+        let mut layer_contents = vec![0_u8; 32 * size];
+        self.read(&mut layer_contents);
 
         layer_contents
             .chunks_exact(32)
@@ -113,12 +122,7 @@ impl VerifierChannel {
 
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
-        // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read(&mut holder);
         holder
     }
 }
@@ -140,11 +144,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        self.read(&mut holder);
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
     }
diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index e86fc1f..ac63f43 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -235,6 +235,9 @@ pub fn proof_serialize(
                 .collect();
         }
     }
+    if !channel.at_end() {
+        return Err(MerkleError::NotEnoughHashes);
+    }
 
     result_string.push_str(&format!("\"fri_values\": {}, \n", fri_values.sol_encode()));
     result_string.push_str(&format!(
-- 
2.43.0


From 8a55401b6ae8777f7a64331e9fd290c06034e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:40 +0000
Subject: [PATCH 18/26] fix: verifier rejects field elements that are not in
 canonical form

---
 crypto/stark/src/channel.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index d919f88..9ac630c 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -5,7 +5,7 @@ use std::{cmp::min, convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
-use zkp_primefield::FieldElement;
+use zkp_primefield::{FieldElement, Zero};
 use zkp_u256::U256;
 
 pub(crate) trait RandomGenerator<T> {
@@ -45,6 +45,8 @@ pub(crate) struct VerifierChannel {
     pub(crate) coin:  PublicCoin,
     pub(crate) proof: Vec<u8>,
     proof_index:      usize,
+    /// Set when a field element was not in canonical form.
+    malformed:        bool,
 }
 
 impl PublicCoin {
@@ -78,6 +80,7 @@ impl VerifierChannel {
             coin: PublicCoin::default(),
             proof,
             proof_index: 0,
+            malformed: false,
         }
     }
 
@@ -86,7 +89,18 @@ impl VerifierChannel {
     }
 
     pub(crate) fn at_end(self) -> bool {
-        self.proof_index == self.proof.len()
+        !self.malformed && self.proof_index == self.proof.len()
+    }
+
+    /// Elements not in canonical form are replaced by zero and the proof is
+    /// never `at_end`.
+    fn parse_element(&mut self, montgomery: U256) -> FieldElement {
+        if montgomery < FieldElement::MODULUS {
+            FieldElement::from_montgomery(montgomery)
+        } else {
+            self.malformed = true;
+            FieldElement::zero()
+        }
     }
 
     /// Reads the next bytes of the proof and updates the public coin.
@@ -114,9 +128,7 @@ impl VerifierChannel {
 
         layer_contents
             .chunks_exact(32)
-            .map(|bytes| {
-                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
-            })
+            .map(|bytes| self.parse_element(U256::from_bytes_be(bytes.try_into().unwrap())))
             .collect()
     }
 
@@ -296,8 +308,8 @@ impl Replayable<U256> for VerifierChannel {
 
 impl Replayable<FieldElement> for VerifierChannel {
     fn replay(&mut self) -> FieldElement {
-        let montgomery_modulus: U256 = self.replay();
-        FieldElement::from_montgomery(montgomery_modulus)
+        let montgomery: U256 = self.replay();
+        self.parse_element(montgomery)
     }
 }
 
-- 
2.43.0


From f7fe8be2a0a55dc84882e190f58e5ea704979fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 19/26] fix: check_specific_constraint evaluates at the row's
 own point

The constraint was evaluated at x = g^(row - 1) with the trace values of
row, so row-dependent constraints were judged at the wrong row.
---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From 409371f067f69542c48cfef90767872e2c250437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 20/26] fix: RationalExpression::check returns the inverse for
 Inv

It returned the value that was to be inverted, so a sum containing an
inverse was judged by a wrong value.
---
 crypto/stark/src/rational_expression.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..c21a421 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -265,10 +265,9 @@ impl RationalExpression {
             Inv(a) => {
                 let (res_a, a_ok) = a.clone().check(x, trace);
                 if a_ok {
-                    if res_a == FieldElement::zero() {
-                        (FieldElement::one(), false)
-                    } else {
-                        (res_a, true)
+                    match res_a.inv() {
+                        Some(inverse) => (inverse, true),
+                        None => (FieldElement::one(), false),
                     }
                 } else {
                     match *(a.clone()) {
-- 
2.43.0


From 7831c661db47b945531fa486d29f55684b647c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 21/26] fix: degree bound of polynomials applied to proper
 fractions

P(n/d) has numerator degree max(deg n, deg d) * deg P, the bound used
only deg n and was too small when d has the larger degree.
---
 crypto/stark/src/rational_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index c21a421..5ec2dd2 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -171,11 +171,12 @@ impl RationalExpression {
             Trace(..) => (trace_degree, 0),
             Polynomial(p, a) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (p.degree() * n, p.degree() * d)
+                // The constant term contributes d^degree to the numerator.
+                (p.degree() * std::cmp::max(n, d), p.degree() * d)
             }
             ClaimPolynomial(_, degree_bound, a, _) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (degree_bound * n, degree_bound * d)
+                (degree_bound * std::cmp::max(n, d), degree_bound * d)
             }
             Add(a, b) => {
                 let (a_numerator, a_denominator) = a.degree_impl(x_degree, trace_degree);
-- 
2.43.0


From ef4139a5b7bbcfb21d17d2cdec5220141b5c8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:54 +0000
Subject: [PATCH 22/26] fix: Constraints refuse trace lengths that are not a
 power of two

The field also has roots of unity of order 5 and 7 (and root(0) is one),
so lengths such as 0, 5 and 10 were accepted and panicked later.
---
 crypto/stark/src/constraints.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..7de62e5 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -104,6 +104,9 @@ impl Constraints {
         channel_seed: Vec<u8>,
         expressions: Vec<RationalExpression>,
     ) -> Result<Self, Error> {
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
         // TODO: Hash expressions into channel seed
         // TODO - Examine if we want to up these security params further.
@@ -138,6 +141,9 @@ impl Constraints {
         op_num_queries: Option<usize>,
         op_fri_layout: Option<Vec<usize>>,
     ) -> Result<Self, Error> {
+        if !trace_nrows.is_power_of_two() {
+            return Err(Error::InvalidTraceLength);
+        }
         let _ = FieldElement::root(trace_nrows).ok_or(Error::InvalidTraceLength)?;
         // TODO: Hash expressions into channel seed
         // 15*4 + 30 queries = 90
-- 
2.43.0


From 7cf3a7fd42574b9d5fb58558ab5e98141507c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:09 +0000
Subject: [PATCH 23/26] fix: security_bits uses the binary logarithm of the
 blowup

It used the bit length, one more than the logarithm, which overstated the
security level by half a bit per query.
---
 crypto/stark/src/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 7de62e5..797916e 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -217,7 +217,7 @@ impl Constraints {
     pub fn security_bits(&self) -> usize {
         // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
         // So the bit security should be blowup_log*(queries/2) + pow_bits
-        let blowup_log = (64 - (self.blowup as u64).leading_zeros()) as usize;
+        let blowup_log = self.blowup.trailing_zeros() as usize;
         blowup_log * (self.num_queries / 2) + self.pow_bits
     }
 
-- 
2.43.0


From f8dcf12f967080f4ecb89bbd58c4c391791b316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:09 +0000
Subject: [PATCH 24/26] fix: max_proof_size is an upper bound on the proof size

It ignored the blowup, the committed values, the out of domain values, the
commitments and the last layer, and underflowed for small traces.
---
 crypto/stark/src/constraints.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index 797916e..556db50 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -227,28 +227,31 @@ impl Constraints {
     // TODO - Improve bound by removing the elements of overlap in
     // worst cases.
     pub fn max_proof_size(&self) -> usize {
-        let trace_len_log = self.trace_nrows().trailing_zeros() as usize;
+        let mut constraints = self.clone();
+        constraints.substitute();
+        let constraint_polynomials = self.degree().next_power_of_two();
+        let domain_log = (self.trace_nrows() * self.blowup).trailing_zeros() as usize;
+
+        // The two commitments, the out of domain values and the proof of work nonce
+        let mut total = 2;
+        total += constraints.trace_arguments().len() + constraint_polynomials;
+        total += 1;
+
         // First we decommit two proofs for each query [one which is the evaluation
         // domain decommitment and one is the constraints]
-        let mut total_decommitment =
-            self.num_queries * (trace_len_log * self.trace_ncolumns() + trace_len_log);
-        // Now we account for the first layer which is 8 elements [assuming the worst
-        // case we need to decommit 7 other elements].
-        let mut current_size = trace_len_log - 3;
-        total_decommitment += self.num_queries * (current_size + 7);
+        total += self.num_queries * (self.trace_ncolumns() + domain_log);
+        total += self.num_queries * (constraint_polynomials + domain_log);
 
+        let mut current_size = domain_log;
         for &i in &self.fri_layout {
             // This worst case assumes that only one in each group is from the previous
             // layer.
             current_size -= i;
-            total_decommitment += self.num_queries * (current_size + (1 << i) - 1);
-        }
-        // Decommits all of the remaining elements
-        let final_list = 1 << current_size;
-        if final_list > self.num_queries {
-            total_decommitment += final_list - self.num_queries;
+            total += 1 + self.num_queries * (current_size + (1 << i) - 1);
         }
-        32 * total_decommitment
+        // The coefficients of the last layer
+        total += (1 << current_size) / self.blowup;
+        32 * total
     }
 
     pub fn combine(&self, constraint_coefficients: &[FieldElement]) -> RationalExpression {
-- 
2.43.0


From d8e6d3f70499c67459db57fce8205820a8c58ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:09 +0000
Subject: [PATCH 25/26] fix: proof_serialize of empty lists

An empty list was written as nothing, giving malformed JSON such as
`"trace_decommitment": ,`.
---
 crypto/stark/src/solidity_seralizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index ac63f43..21a56d0 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -41,7 +41,7 @@ impl<T: SoliditySeralize> SoliditySeralize for Vec<T> {
     fn sol_encode(&self) -> String {
         let mut res: String = "".to_string();
         if self.is_empty() {
-            return res;
+            return "[]".to_string();
         }
 
         let (last, rest) = self.split_last().unwrap();
-- 
2.43.0


From 7e82754061607cec487b2df728d8a11cb4f9c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 26/26] fix: generated trace contract uses the number of
 constraint polynomials in proofs

---
 crypto/stark/src/solidity_verifier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/stark/src/solidity_verifier.rs b/crypto/stark/src/solidity_verifier.rs
index d45dbfc..8a16fb4 100644
--- a/crypto/stark/src/solidity_verifier.rs
+++ b/crypto/stark/src/solidity_verifier.rs
@@ -558,8 +558,11 @@ fn autogen_oods_contract(
         .max()
         .expect("No constraints");
 
+    // Proofs contain one constraint polynomial for each unit of degree, padded
+    // to a power of two.
+    let constraint_degree = max_degree.next_power_of_two();
     let trace_contract =
-        autogen_trace_layout(&trace_keys, n_cols, max_degree, blowup, system_name)?;
+        autogen_trace_layout(&trace_keys, n_cols, constraint_degree, blowup, system_name)?;
 
     // TODO - Variable naming
     let name = format!("{}/{}Trace.sol", output_directory, system_name);
-- 
2.43.0

