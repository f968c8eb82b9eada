From 0ccb3bc9adc7c3c376771315243b0f0cdb03fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 01/57] fix: WrappingAdd on primitive integers performed a
 subtraction

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 32b4e6a7acfb87b60f314fc90e8c09ae3132faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 02/57] fix: CheckedShl/CheckedShr on primitives truncated the
 shift amount to 32 bits

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..fdb05ee 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From 82aea8e27ba6a9f5012565afa871b3ec3dc3115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 03/57] fix: Signed::is_positive on primitive integers was
 false for zero (documented as >= 0)

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index fdb05ee..a9eda7c 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -325,7 +325,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From 353716337016e533c298b7167bfa1adf2b8f886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 04/57] fix: Gcd on signed primitives could be negative, and
 panicked on MIN and -1

---
 crates/traits/src/__impl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index a9eda7c..4861a4b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -153,6 +153,7 @@ macro_rules! impl_int {
         impl crate::ops::Gcd for $ty {
             type Output = $ty;
 
+            #[allow(unused_comparisons)]
             fn gcd(self, rhs: Self) -> Self::Output {
                 if self == 0 && rhs == 0 {
                     return 0;
@@ -160,9 +161,13 @@ macro_rules! impl_int {
 
                 let [mut min, mut max] = minmax(self, rhs);
                 while min != 0 {
-                    (min, max) = (max % min, min);
+                    (min, max) = (max.wrapping_rem(min), min);
+                }
+                if max < 0 {
+                    <$ty>::wrapping_sub(0, max)
+                } else {
+                    max
                 }
-                max
             }
         }
 
-- 
2.43.0


From f263abf216397b717ae06446091747faf3c36c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 05/57] fix: One::is_one on NonZero integers was always true

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From d1120aed3efbcecea71850a3431dd3e012fd1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/57] fix: ElementCmp compared slices from the least
 significant element

---
 crates/bits/src/algos/element/cmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9d77093 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,7 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 7c966ef91f46bbf1aac0eee761142dcd87bd7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/57] fix: slice subtraction with a borrow out returned a
 wrong magnitude

---
 crates/bits/src/algos/bitwise/sub.rs | 6 +++---
 crates/bits/src/algos/element/sub.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..f6cca29 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,8 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..7bc34b0 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,8 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From 3b7989f49893b2dc5e4c8406b294796a8a39715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/57] fix: add_overflowing missed overflow into elements
 beyond the left slice

---
 crates/bits/src/algos/element/add.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..6435543 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,7 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        let mut dropped = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +62,12 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            if left.set_opt(idx, res).is_none() && res != zero {
+                dropped = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || dropped)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From d10dd22d7aa4201400485744b8b0a64a8c0646b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 09/57] fix: mul_overflowing missed overflow when a partial
 product fell past the slice

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..0ed0e00 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // A value that starts past the end of the slice is itself lost
+        let mut carry = val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 525dad5ab7a90cea729c88913d28e48456aa8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:54 +0000
Subject: [PATCH 10/57] fix: BitwiseAdd::add_in_place always panicked by
 indexing one bit past the slice

---
 crates/bits/src/algos/bitwise/add.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..fa41d4a 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -56,12 +56,12 @@ pub trait BitwiseAdd: BitSliceExt {
     where
         T: BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(left.bit_len(), right.bit_len());
+        let bit_len = left.bit_len();
 
         let mut carry = false;
-        for idx in 0..=bit_len {
+        for idx in 0..bit_len {
             let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
-- 
2.43.0


From 3ae646e05271558cf97accdf3df8204db5e2991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 11/57] fix: slice long division panicked when the divisor has
 more elements than the dividend

---
 crates/bits/src/algos/bitwise/div.rs | 6 +++---
 crates/bits/src/algos/element/div.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..5a76456 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -12,7 +12,7 @@ pub trait BitwiseDiv: BitSliceExt {
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
         let len = usize::max(num.len(), div.len());
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
 
         let mut quotient = vec![Self::Bit::zero(); len];
         let mut remainder = vec![Self::Bit::zero(); len];
@@ -39,7 +39,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
             remainder.set_bit(0, num.get_bit(idx));
@@ -93,7 +93,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From 92c5b39dc6542d67d38270ab55d3810cc2816ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 12/57] fix: slice division by zero returned garbage or never
 terminated

---
 crates/bits/src/algos/bitwise/div.rs | 18 ++++++++++++++++++
 crates/bits/src/algos/element/div.rs |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 5a76456..1c86501 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -11,6 +11,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            div.slice().iter().any(|v| *v != Self::Bit::zero()),
+            "attempt to divide by zero"
+        );
         let len = usize::max(num.len(), div.len());
         let bit_len = num.bit_len();
 
@@ -39,6 +43,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            div.slice().iter().any(|v| *v != Self::Bit::zero()),
+            "attempt to divide by zero"
+        );
         let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +72,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if right.slice().iter().all(|v| *v == Self::Bit::zero()) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +104,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            div.slice().iter().any(|v| *v != Self::Bit::zero()),
+            "attempt to divide by zero"
+        );
         let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +132,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if right.slice().iter().all(|v| *v == Self::Bit::zero()) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..9fb4b0d 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,10 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            right.slice().iter().any(|v| *v != Self::Bit::zero()),
+            "attempt to divide by zero"
+        );
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 9cd43da2f0a865d53ca7ddc9318d55d115c2b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 13/57] fix: wrapping shifts mangled in-range shift amounts on
 widths that are not a power of two

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..765e316 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -82,8 +81,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..05b439d 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -83,8 +83,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From d4c3af8ddf5e5f06f37372d157dcd257ff9877d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 14/57] fix: ElementShr panicked on shifts of one element or
 more, and at exactly the bit length

---
 crates/bits/src/algos/element/shr.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 05b439d..1003a86 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
@@ -63,7 +63,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 073aaf8663bd05f531384ed696893e9555933ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 15/57] fix: BitIter::len underflowed once past the first
 element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From 3e99cee01c4cb46e20db2a6f00f566d79a175a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 16/57] fix: BitVecExt::set_push dropped a value pushed just
 past the end

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From 6a866b5b2afe784f3e4e29832bec4ad45b07bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:07 +0000
Subject: [PATCH 17/57] fix: arr_to_int failed on zero high elements

---
 crates/bits/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..8d1bc34 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -70,6 +70,9 @@ pub fn arr_to_int<
     let bit_len = size_of::<T>() * 8;
     let mut out = U::zero();
     for (idx, &i) in arr.iter().enumerate() {
+        if i == T::zero() {
+            continue;
+        }
         let t = U::from_checked(i)?;
         out += t.checked_shl(idx * bit_len)?;
     }
-- 
2.43.0


From 39b88a1301f1ce183dd8985d9a025cc5374429dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:56 +0000
Subject: [PATCH 18/57] fix: concurrent list push returned a stale length when
 the tail moved

---
 crates/utils/src/linked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..2c85d18 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From d146117262caee0ff2945ece9104934e39e02313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:56 +0000
Subject: [PATCH 19/57] fix: list tail walk dereferenced the head node without
 acquiring it

---
 crates/utils/src/linked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2c85d18..74d4482 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -62,7 +62,7 @@ impl<T> UnsyncLinked<T> {
     }
 
     fn tail(&self) -> (*mut Node<T>, usize) {
-        let mut cur_node = self.head.load(Ordering::Relaxed);
+        let mut cur_node = self.head.load(Ordering::Acquire);
 
         if cur_node.is_null() {
             return (cur_node, 0);
-- 
2.43.0


From 2f7424261334595331662d3cb3fc0a087e31cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:56 +0000
Subject: [PATCH 20/57] fix: Interner::add duplicated a live value when an
 earlier slot was dead

---
 crates/utils/src/intern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..79910e6 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -94,6 +94,7 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        let mut dead = None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
@@ -101,12 +102,13 @@ where
                 let count = i.refs.load(Ordering::Acquire);
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                } else if count == 0 && dead.is_none() {
+                    // A later slot may still hold the value, keep looking
+                    dead = Some((idx, idx2));
                 }
             }
         }
-        Find::None
+        dead.map_or(Find::None, Find::Dead)
     }
 
     #[inline]
-- 
2.43.0


From 6187932729e88304f5f854b04a20d4f3f1c0a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:56 +0000
Subject: [PATCH 21/57] fix: Interner::try_get panicked on ids outside the
 allocated chunks

---
 crates/utils/src/intern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 79910e6..da5155d 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -172,7 +172,7 @@ where
 
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
-        let slot = &self.inner[idx1][idx2];
+        let slot = &self.inner.get(idx1)?[idx2];
         if slot.refs.load(Ordering::Relaxed) == 0 {
             None
         } else {
-- 
2.43.0


From 58156977a9252cb76c680cdbbe3287730323e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:56 +0000
Subject: [PATCH 22/57] fix: concurrent Interner::add could claim one slot for
 two values or overwrite a value being compared

---
 crates/utils/src/intern.rs | 40 +++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index da5155d..09615fb 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
 use core::mem;
-use core::sync::atomic::{AtomicUsize, Ordering};
+use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
@@ -68,6 +68,29 @@ impl InternId {
 /// An optimized container that supports cross-thread, lock-free-ish
 pub struct Interner<T> {
     inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>,
+    /// Held while `add` searches for and claims a slot
+    adding: AtomicBool,
+}
+
+/// Releases the `adding` lock when dropped
+struct AddGuard<'a>(&'a AtomicBool);
+
+impl<'a> AddGuard<'a> {
+    fn lock(adding: &'a AtomicBool) -> AddGuard<'a> {
+        while adding
+            .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
+            .is_err()
+        {
+            core::hint::spin_loop();
+        }
+        AddGuard(adding)
+    }
+}
+
+impl Drop for AddGuard<'_> {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
 }
 
 impl<T> Interner<T>
@@ -78,6 +101,7 @@ where
     pub const fn new() -> Interner<T> {
         Interner {
             inner: UnsyncLinked::new(),
+            adding: AtomicBool::new(false),
         }
     }
 
@@ -86,7 +110,10 @@ where
         for _ in 0..((capacity + CHUNK_SIZE - 1) / 32) {
             list.push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
         }
-        Interner { inner: list }
+        Interner {
+            inner: list,
+            adding: AtomicBool::new(false),
+        }
     }
 
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
@@ -139,21 +166,16 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
+        // Only one thread may search for and claim a slot at a time
+        let _guard = AddGuard::lock(&self.adding);
         let find = Self::find(&self.inner, val.borrow());
         InternId::from_usize(match find {
             Find::Exists((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
             Find::Dead((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
                 // SAFETY: Slot is dead, we're making it live, we are the only ones with access
                 unsafe { self.inner[loc1][loc2].set_val(val.into()) };
                 loc1 * 32 + loc2
-- 
2.43.0


From 1a9e5bb228be6e9d6808194346f443d64ba0af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 23/57] fix: BigInt ordering compared limbs from the least
 significant end

---
 crates/ints/src/big_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..b038779 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -382,6 +382,7 @@ impl Ord for BigInt {
             } else {
                 this.iter()
                     .zip(other.iter())
+                    .rev()
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From 41ea28ab88389a0e705cbb21b629bd2affdf6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 24/57] fix: negating a zero BigInt produced a negative zero
 unequal to zero

---
 crates/ints/src/big_int.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index b038779..113193a 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -546,7 +546,9 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -555,9 +557,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From f7678a17674bc3f27dcc7626969646509ecb7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 25/57] fix: BigInt remainder took the wrong sign, breaking a
 == (a / b) * b + a % b

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 113193a..b42aeb2 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -491,7 +491,7 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 903c2ae621c88c7ab83173194a02d21775e5b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 26/57] fix: negative BigInts were formatted as -0

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index b42aeb2..e406795 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From 9947dbb54aed38b599bf5566d7919f5ad4d77fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 27/57] fix: TryFrom<BigInt> for signed integers dropped the
 sign and rejected MIN

---
 crates/ints/src/big_int/macros.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..f79e2c0 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,14 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    let magnitude: $unsigned = bi
+                        .with_slice(|s| arr_to_int(s))
+                        .ok_or_else(|| OutOfRangeError::above())?;
+                    Ok(if bi.is_negative() {
+                        magnitude.wrapping_neg() as $signed
+                    } else {
+                        magnitude as $signed
+                    })
                 }
             }
         }
-- 
2.43.0


From f5003bde7f3797abe3e2c485463b2371fe6c7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 28/57] fix: truncating BigInt conversions saturated and
 ignored the sign

---
 crates/ints/src/big_int.rs        | 16 ++++++++++++++++
 crates/ints/src/big_int/macros.rs |  6 ++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index e406795..c8b762c 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -205,6 +205,22 @@ impl BigInt {
         f(self.val().slice())
     }
 
+    /// Get the low 128 bits of this value in two's complement form
+    fn low_bits(&self) -> u128 {
+        let limbs = mem::size_of::<u128>() / mem::size_of::<usize>();
+        let magnitude = self.with_slice(|s| {
+            s.iter()
+                .take(limbs)
+                .rev()
+                .fold(0u128, |acc, &limb| (acc << usize::BITS) | limb as u128)
+        });
+        if self.is_negative() {
+            magnitude.wrapping_neg()
+        } else {
+            magnitude
+        }
+    }
+
     fn write_base<W: Write>(&self, base: usize, w: &mut W, chars: &[char]) -> fmt::Result {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f79e2c0..e4ff1ec 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -119,15 +119,13 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                val.low_bits() as $unsigned
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                val.low_bits() as $signed
             }
         }
 
-- 
2.43.0


From 33dd95b16bd0e2fdc1ce079454e81233747d3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 29/57] fix: BigInt equality with primitives ignored the sign
 and overflowed on MIN

---
 crates/ints/src/big_int/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index e4ff1ec..67cf8b4 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -168,10 +168,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
@@ -179,6 +179,10 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
+
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From a58a07e104dd9fe778d0938f386d18e2f70097a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 30/57] fix: BigInt::from_str_radix rejected negative numbers

---
 crates/ints/src/big_int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index c8b762c..51faeb1 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -676,12 +676,16 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (digits, neg) = match str.strip_prefix('-') {
+            Some(digits) => (digits, true),
+            None => (str, false),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From 810b2d1a3c091859ead13f85204bcf7a70802a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 31/57] fix: BigInt bit operations on negative values were not
 two's complement (x | y != y | x, !0 != -1)

---
 crates/ints/src/big_int.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 51faeb1..8f702b3 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -10,8 +10,8 @@ use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
 use core::{fmt, mem, num, ops};
 use numeric_bits::algos::{
-    BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementNot,
-    ElementShl, ElementShr, ElementSub,
+    BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementShl,
+    ElementShr, ElementSub,
 };
 use numeric_bits::bit_slice::BitSliceExt;
 use numeric_bits::utils::*;
@@ -518,6 +518,9 @@ impl_op!(shl(self, rhs) => {
 });
 
 impl_op!(shr(self, rhs) => {
+    if self.is_negative() {
+        return !(!self.clone() >> rhs);
+    }
     let out = BigInt::with_slices(self, rhs, |this, _| {
         ElementShr::shr(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
     });
@@ -525,36 +528,47 @@ impl_op!(shr(self, rhs) => {
 });
 
 impl_op!(bitand(self, rhs) => {
+    match (self.is_negative(), rhs.is_negative()) {
+        (true, true) => return !(!self.clone() | !rhs.clone()),
+        (true, false) => return rhs ^ (!self.clone() & rhs),
+        (false, true) => return self ^ (self & !rhs.clone()),
+        (false, false) => (),
+    }
     let out = BigInt::with_slices(self, rhs, |this, other| {
         ElementBitand::bitand(this, other)
     });
-    BigInt::new_slice(out, self.is_negative())
+    BigInt::new_slice(out, false)
 });
 
 impl_op!(bitor(self, rhs) => {
+    if self.is_negative() || rhs.is_negative() {
+        return !(!self.clone() & !rhs.clone());
+    }
     let out = BigInt::with_slices(self, rhs, |this, other| {
         ElementBitor::bitor(this, other)
     });
-    BigInt::new_slice(out, self.is_negative())
+    BigInt::new_slice(out, false)
 });
 
 impl_op!(bitxor(self, rhs) => {
+    if self.is_negative() {
+        return !(!self.clone() ^ rhs);
+    }
+    if rhs.is_negative() {
+        return !(self ^ !rhs.clone());
+    }
     let out = BigInt::with_slices(self, rhs, |this, other| {
         ElementBitxor::bitxor(this, other)
     });
-    BigInt::new_slice(out, self.is_negative())
+    BigInt::new_slice(out, false)
 });
 
 impl ops::Not for BigInt {
     type Output = BigInt;
 
     fn not(self) -> Self::Output {
-        let out = BigInt::with_slice(&self, |slice| {
-            let mut out = slice.to_vec();
-            ElementNot::not(&mut out);
-            out
-        });
-        BigInt::new_slice(out, self.is_negative())
+        // Two's complement: `!x == -x - 1`
+        -(self + BigInt::one())
     }
 }
 
-- 
2.43.0


From 9dddf8a1f8b90d27a76f3194294c2e011830f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 32/57] fix: BigInt::approx_float ignored the sign and returned
 NaN for large values with zero limbs

---
 crates/ints/src/big_int.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 8f702b3..2c680dc 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -8,7 +8,7 @@ use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
-use core::{fmt, mem, num, ops};
+use core::{fmt, mem, ops};
 use numeric_bits::algos::{
     BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementShl,
     ElementShr, ElementSub,
@@ -263,17 +263,16 @@ impl BigInt {
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
         const USIZE_MAX: f64 = usize::MAX as f64;
-        self.with_slice(|vals| {
+        let out = self.with_slice(|vals| {
             vals.iter()
-                .copied()
-                .enumerate()
-                .try_fold(0., |acc, (idx, val)| {
-                    let val = val as f64;
-                    let idx = i32::try_from(idx)?;
-                    Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
-                })
-                .unwrap_or(f64::INFINITY)
-        })
+                .rev()
+                .fold(0., |acc: f64, &val| acc.mul_add(USIZE_MAX, val as f64))
+        });
+        if self.is_negative() {
+            -out
+        } else {
+            out
+        }
     }
 }
 
-- 
2.43.0


From 9de72bfdb1b162290e15b28d088fe3958cf7e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:12 +0000
Subject: [PATCH 33/57] fix: U<N>::pow returned 0 for 0 to the power 0

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..12b5326 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From 0a36b2c3b5470685db60f689a858b6c838420e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:12 +0000
Subject: [PATCH 34/57] fix: U<N> and primitive conversions indexed out of
 bounds and accepted out-of-range values

---
 crates/ints/src/u.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 12b5326..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From c5bca56d8b1c95585aa9165453e9756e18db1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 35/57] fix: I<N>::abs cleared the sign bit instead of
 negating, breaking division of negatives

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..bd80f64 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From 51f558192d976258b7a9e3b3d25a6f32176afd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 36/57] fix: I<N> remainder took the wrong sign

---
 crates/ints/src/i.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index bd80f64..a622987 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From f5284e09eeadfbebc7b378b568310c17abe35bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 37/57] fix: I<N> ordering compared bytes from the least
 significant end

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a622987..f10d344 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From 86bc4731b96098131d1ea6c813113525887f18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 38/57] fix: Fixed multiplication and division did not rescale
 the result

---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..61349d1 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,7 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +141,7 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From 09796956a0658f0b1c0a70c26e637ce59b975c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 39/57] fix: Fixed::round rounded negatives the wrong way and
 used a wrong half

---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 61349d1..6f107af 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -242,12 +242,12 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
+        let half = Fixed(Self::one().0 >> 1usize);
         let f = self.clone().fract();
         let f = if f >= Self::zero() {
             f
         } else {
-            Self::one() - f
+            Self::one() + f
         };
         if f > half {
             self.ceil()
-- 
2.43.0


From a425b7946dbeed0ea04d03ad38ac73982c0e0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 40/57] fix: Fixed debug output lost the sign, leading
 fractional zeros, and zero itself

---
 crates/reals/src/fixed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 6f107af..e749fc8 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -59,8 +59,14 @@ where
             self.0.clone() * ten.clone().pow(T::truncate_from(N)) / two.pow(T::truncate_from(N));
         let mut idx = 0;
 
+        if whole < T::zero() {
+            f.write_str("-")?;
+            whole = T::zero() - whole;
+        }
+
         let mut buf = String::new();
-        while whole > T::zero() {
+        // Always write all `N` fractional digits, leading zeros included
+        while idx < N || whole > T::zero() {
             let digit = whole.clone() % ten.clone();
             if idx == N {
                 write!(buf, ".")?;
-- 
2.43.0


From d645173a67cf5f0894aa5b23efa4d0a46a5df8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 41/57] fix: Fixed binary output printed the unshifted integer
 part and an unpadded fraction

---
 crates/reals/src/fixed.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index e749fc8..17fb9ef 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -92,9 +92,10 @@ where
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:b}.{:b}",
-            self.clone().trunc().0,
-            self.clone().fract().0
+            "{:b}.{:0width$b}",
+            self.0.clone() >> N,
+            self.0.clone() & mask::<T, N>(),
+            width = N
         )
     }
 }
-- 
2.43.0


From aa1868b0d9dfe95520005783a84a11e71b1a57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 42/57] fix: Rat was left unreduced when one part divides the
 other, and kept negative denominators

---
 crates/reals/src/rat.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..903bedc 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,14 +54,15 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
-            unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
+            let (num, denom) = (num / gcd.clone(), denom / gcd);
+            // Keep the sign on the numerator, so equal values are represented equally
+            if denom < T::zero() {
+                unsafe { Rat::new_unchecked(T::zero() - num, T::zero() - denom) }
+            } else {
+                unsafe { Rat::new_unchecked(num, denom) }
+            }
         }
     }
 
-- 
2.43.0


From 2d7dc01209f1e08a76a07fca5c4ec12ef76d56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 43/57] fix: Rat::ceil moved whole and negative values up by
 one

---
 crates/reals/src/rat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 903bedc..98c6889 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -237,8 +237,13 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        let diff = self.num.clone() % self.denom.clone();
+        let add = if diff > T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        };
+        Rat::new(self.num / self.denom + add, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From 4f5939be793771373a2a3abd7870ab50af2d2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:50 +0000
Subject: [PATCH 44/57] fix: Rat::round never rounded negative values away from
 zero

---
 crates/reals/src/rat.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 98c6889..6d27aa2 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -249,17 +249,18 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn round(self) -> Self {
         let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
-        // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
-            T::one()
-        } else {
-            T::zero()
-        };
+        let half = self.denom.clone() / two;
         // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
         let div = self.num / self.denom;
-        // Floor div, add one if we should round up
-        Rat::new(div + add, T::one()).unwrap()
+        // Check if remainder is more or less than half denom, on either side of zero
+        let out = if diff > half {
+            div + T::one()
+        } else if diff < T::zero() && T::zero() - diff > half {
+            div - T::one()
+        } else {
+            div
+        };
+        Rat::new(out, T::one()).unwrap()
     }
 
     fn trunc(self) -> Self {
-- 
2.43.0


From 8cc7dd12ba1f489ac836ce661882bba70492920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 45/57] fix: row reduction of non-square matrices swapped row
 and column counts

---
 crates/compounds/src/matrix/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index d8c6f97..a01d1be 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -1,5 +1,5 @@
 macro_rules! gauss_elim {
-    ($self:ident, $cols:expr, $rows:expr, $data:expr) => {
+    ($self:ident, $rows:expr, $cols:expr, $data:expr) => {
         /// Uses Gaussian Elimination to put the matrix in triangular row-echelon form,
         /// and returns the new matrix and the product of the scalars by which the determinant was
         /// multiplied to produce the result.
-- 
2.43.0


From c0ccf176908002cca4552d87eb00f4e360f5dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 46/57] fix: MatrixRef and MatrixMut read out of bounds at
 index == size

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From ba5387da0ff03e52b03dd072f689c201647c669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:58 +0000
Subject: [PATCH 47/57] fix: DynMatrix indexing past the last column aliased
 the next row

---
 crates/compounds/src/matrix/dynamic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..ea55d48 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -69,12 +69,14 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(index.1 < self.cols, "Column index out of range");
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(index.1 < self.cols, "Column index out of range");
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From 6e0040c796717587e43880dfbb18eb26fc166746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:41 +0000
Subject: [PATCH 48/57] fix: static array iterators leaked the values left over
 by an early exit

---
 crates/static-iter/src/array.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/static-iter/src/array.rs b/crates/static-iter/src/array.rs
index 351ff01..7167615 100644
--- a/crates/static-iter/src/array.rs
+++ b/crates/static-iter/src/array.rs
@@ -23,6 +23,8 @@ impl<'a, T, const N: usize> IntoStaticIter<N> for &'a [T; N] {
 
 pub struct IntoIter<T, const N: usize> {
     inner: [MaybeUninit<T>; N],
+    /// First index which hasn't been yielded yet
+    next: usize,
 }
 
 impl<T, const N: usize> IntoIter<T, N> {
@@ -31,7 +33,7 @@ impl<T, const N: usize> IntoIter<T, N> {
         // SAFETY: `[MaybeUninit<T>; N]` and `[T; N]` have the same layout
         let inner = unsafe { core::mem::transmute_copy(&arr) };
         core::mem::forget(arr);
-        IntoIter { inner }
+        IntoIter { inner, next: 0 }
     }
 }
 
@@ -40,10 +42,21 @@ impl<T, const N: usize> StaticIter<N> for IntoIter<T, N> {
 
     #[inline]
     unsafe fn idx(&mut self, idx: usize) -> Self::Item {
+        self.next = idx + 1;
         core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()
     }
 }
 
+impl<T, const N: usize> Drop for IntoIter<T, N> {
+    fn drop(&mut self) {
+        // Iteration may have stopped early, the remaining values are still ours
+        for val in &mut self.inner[self.next..] {
+            // SAFETY: Values are yielded in order, so everything from `next` on is initialized
+            unsafe { val.assume_init_drop() };
+        }
+    }
+}
+
 pub struct RefIter<'a, T, const N: usize> {
     inner: &'a [T; N],
 }
-- 
2.43.0


From 7533b64ed5579d31d742fd09e7fe769f9a4638c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:41 +0000
Subject: [PATCH 49/57] fix: collecting into an Option or Result leaked the
 values before the early exit

---
 crates/static-iter/src/lib.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/static-iter/src/lib.rs b/crates/static-iter/src/lib.rs
index 94077b4..574b8eb 100644
--- a/crates/static-iter/src/lib.rs
+++ b/crates/static-iter/src/lib.rs
@@ -30,22 +30,42 @@ pub trait FromStaticIter<T, const N: usize>: Sized {
     }
 }
 
+/// An array in the process of being written, in order starting from index zero
+pub struct PartialArray<T, const N: usize> {
+    inner: [MaybeUninit<T>; N],
+    len: usize,
+}
+
+impl<T, const N: usize> Drop for PartialArray<T, N> {
+    fn drop(&mut self) {
+        for val in &mut self.inner[..self.len] {
+            // SAFETY: The first `len` values have been written
+            unsafe { val.assume_init_drop() };
+        }
+    }
+}
+
 impl<T, const N: usize> FromStaticIter<T, N> for [T; N] {
-    type Uninit = [MaybeUninit<T>; N];
+    type Uninit = PartialArray<T, N>;
     type Break = Infallible;
 
     fn uninit() -> Self::Uninit {
-        [const { MaybeUninit::uninit() }; N]
+        PartialArray {
+            inner: [const { MaybeUninit::uninit() }; N],
+            len: 0,
+        }
     }
 
     fn write(mut this: Self::Uninit, idx: usize, val: T) -> ControlFlow<Self::Break, Self::Uninit> {
-        this[idx].write(val);
+        this.inner[idx].write(val);
+        this.len = idx + 1;
         ControlFlow::Continue(this)
     }
 
     unsafe fn finish(this: ControlFlow<Self::Break, Self::Uninit>) -> Self {
         let ControlFlow::Continue(c) = this;
-        unsafe { mem::transmute_copy(&c) }
+        let c = mem::ManuallyDrop::new(c);
+        unsafe { mem::transmute_copy(&c.inner) }
     }
 
     fn from_static_iter(mut iter: impl StaticIter<N, Item = T>) -> Self {
-- 
2.43.0


From 3a8dd91737ab7acb2f8bfa69c21ff677f01f4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:40 +0000
Subject: [PATCH 50/57] hook: instrumented atomics in numeric-utils under
 cfg(numeric_verif)

---
 crates/utils/src/intern.rs |   2 +-
 crates/utils/src/lib.rs    |  15 +++
 crates/utils/src/linked.rs |   2 +-
 crates/utils/src/verif.rs  | 201 +++++++++++++++++++++++++++++++++++++
 4 files changed, 218 insertions(+), 2 deletions(-)
 create mode 100644 crates/utils/src/verif.rs

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 09615fb..b99b909 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,7 @@
+use crate::sync::{AtomicBool, AtomicUsize, Ordering};
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
 use core::mem;
-use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index fcc2e55..b88769d 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -1,4 +1,5 @@
 #![cfg_attr(not(test), no_std)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate alloc;
@@ -8,9 +9,23 @@ pub mod intern;
 #[cfg(feature = "std")]
 mod linked;
 mod macros;
+#[cfg(numeric_verif)]
+pub mod verif;
+
+/// The atomics used by this crate - the ones in [`core`], or instrumented ones
+#[cfg(feature = "std")]
+mod sync {
+    #[cfg(numeric_verif)]
+    pub use crate::verif::{AtomicBool, AtomicPtr, AtomicUsize};
+    pub use core::sync::atomic::Ordering;
+    #[cfg(not(numeric_verif))]
+    pub use core::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize};
+}
 
 #[cfg(feature = "std")]
 pub use intern::Interner;
+#[cfg(all(feature = "std", numeric_verif))]
+pub use linked::UnsyncLinked;
 
 #[cfg(test)]
 pub(crate) mod tests {
diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 74d4482..2c8f9b3 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -1,8 +1,8 @@
+use crate::sync::{AtomicPtr, Ordering};
 use alloc::boxed::Box;
 use core::marker::PhantomData;
 use core::ops::Index;
 use core::ptr;
-use core::sync::atomic::{AtomicPtr, Ordering};
 
 pub struct Node<T> {
     next: AtomicPtr<Node<T>>,
diff --git a/crates/utils/src/verif.rs b/crates/utils/src/verif.rs
new file mode 100644
index 0000000..8414fd0
--- /dev/null
+++ b/crates/utils/src/verif.rs
@@ -0,0 +1,201 @@
+//! Instrumented atomics, used in place of the ones in [`core`] when built with
+//! `--cfg numeric_verif`. Every operation reports to the installed observer, first just before it
+//! happens (so a scheduler can take over), and then with what it did.
+
+use core::sync::atomic::{self, Ordering};
+
+/// What an atomic operation did
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+pub enum Kind {
+    Load,
+    Store,
+    Rmw,
+    /// A compare-exchange that changed nothing
+    Fail,
+}
+
+/// One atomic operation
+#[derive(Copy, Clone, Debug)]
+pub struct Event {
+    pub kind: Kind,
+    /// Which type was accessed - `'b'`ool, `'u'`size, or `'p'`ointer
+    pub ty: char,
+    pub addr: usize,
+    pub order: Ordering,
+    /// The value before (and for loads, the value read)
+    pub old: usize,
+    /// The value after
+    pub new: usize,
+    /// For pointers, the size of the pointee
+    pub size: usize,
+}
+
+/// Callbacks invoked around every atomic operation
+pub struct Observer {
+    pub before: fn(),
+    pub after: fn(Event),
+}
+
+static OBSERVER: atomic::AtomicPtr<Observer> = atomic::AtomicPtr::new(core::ptr::null_mut());
+
+/// Install an observer for every atomic operation from now on
+pub fn observe(observer: &'static Observer) {
+    OBSERVER.store(
+        core::ptr::from_ref(observer).cast_mut(),
+        atomic::Ordering::SeqCst,
+    );
+}
+
+fn around<T>(f: impl FnOnce() -> (T, Event)) -> T {
+    // SAFETY: Only ever set from a `&'static Observer`
+    let observer = unsafe { OBSERVER.load(Ordering::SeqCst).as_ref() };
+    if let Some(observer) = observer {
+        (observer.before)();
+    }
+    let (out, event) = f();
+    if let Some(observer) = observer {
+        (observer.after)(event);
+    }
+    out
+}
+
+macro_rules! shim {
+    ($name:ident $(<$gen:ident>)?, $ty:ty, $code:literal, $size:expr, |$v:ident| $conv:expr) => {
+        #[repr(transparent)]
+        pub struct $name$(<$gen>)?(atomic::$name$(<$gen>)?);
+
+        impl$(<$gen>)? $name$(<$gen>)? {
+            pub const fn new(val: $ty) -> Self {
+                Self(atomic::$name::new(val))
+            }
+
+            fn event(&self, kind: Kind, order: Ordering, old: $ty, new: $ty) -> Event {
+                let conv = |$v: $ty| -> usize { $conv };
+                Event {
+                    kind,
+                    ty: $code,
+                    addr: core::ptr::from_ref(self).addr(),
+                    order,
+                    old: conv(old),
+                    new: conv(new),
+                    size: $size,
+                }
+            }
+
+            pub fn load(&self, order: Ordering) -> $ty {
+                around(|| {
+                    let val = self.0.load(order);
+                    (val, self.event(Kind::Load, order, val, val))
+                })
+            }
+
+            pub fn store(&self, val: $ty, order: Ordering) {
+                around(|| {
+                    self.0.store(val, order);
+                    ((), self.event(Kind::Store, order, val, val))
+                })
+            }
+
+            pub fn swap(&self, val: $ty, order: Ordering) -> $ty {
+                around(|| {
+                    let old = self.0.swap(val, order);
+                    (old, self.event(Kind::Rmw, order, old, val))
+                })
+            }
+
+            pub fn compare_exchange(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                around(|| {
+                    let res = self.0.compare_exchange(current, new, success, failure);
+                    let event = match res {
+                        Ok(old) => self.event(Kind::Rmw, success, old, new),
+                        Err(old) => self.event(Kind::Fail, failure, old, old),
+                    };
+                    (res, event)
+                })
+            }
+
+            pub fn compare_exchange_weak(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                self.compare_exchange(current, new, success, failure)
+            }
+
+            pub fn fetch_update<F: FnMut($ty) -> Option<$ty>>(
+                &self,
+                set_order: Ordering,
+                fetch_order: Ordering,
+                mut f: F,
+            ) -> Result<$ty, $ty> {
+                let mut prev = self.load(fetch_order);
+                while let Some(next) = f(prev) {
+                    match self.compare_exchange(prev, next, set_order, fetch_order) {
+                        Ok(val) => return Ok(val),
+                        Err(val) => prev = val,
+                    }
+                }
+                Err(prev)
+            }
+
+            pub fn get_mut(&mut self) -> &mut $ty {
+                self.0.get_mut()
+            }
+
+            pub fn into_inner(self) -> $ty {
+                self.0.into_inner()
+            }
+        }
+    };
+}
+
+macro_rules! rmw {
+    ($name:ident, $ty:ty: $($meth:ident => |$a:ident, $b:ident| $expr:expr),* $(,)?) => {
+        impl $name {
+            $(
+            pub fn $meth(&self, val: $ty, order: Ordering) -> $ty {
+                around(|| {
+                    let old = self.0.$meth(val, order);
+                    let ($a, $b) = (old, val);
+                    (old, self.event(Kind::Rmw, order, old, $expr))
+                })
+            }
+            )*
+        }
+    };
+}
+
+shim!(AtomicBool, bool, 'b', 0, |v| usize::from(v));
+shim!(AtomicUsize, usize, 'u', 0, |v| v);
+shim!(AtomicPtr<T>, *mut T, 'p', core::mem::size_of::<T>(), |v| v
+    .addr());
+
+impl<T> Default for AtomicPtr<T> {
+    fn default() -> Self {
+        Self::new(core::ptr::null_mut())
+    }
+}
+
+rmw!(AtomicUsize, usize:
+    fetch_add => |a, b| a.wrapping_add(b),
+    fetch_sub => |a, b| a.wrapping_sub(b),
+    fetch_and => |a, b| a & b,
+    fetch_or => |a, b| a | b,
+    fetch_xor => |a, b| a ^ b,
+    fetch_max => |a, b| a.max(b),
+    fetch_min => |a, b| a.min(b),
+);
+
+rmw!(AtomicBool, bool:
+    fetch_and => |a, b| a & b,
+    fetch_or => |a, b| a | b,
+    fetch_xor => |a, b| a ^ b,
+);
-- 
2.43.0


From 4547b4335a29cc17555d8afa21f4807c54279ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:42 +0000
Subject: [PATCH 51/57] hook: BigInt value and reference inspection under
 cfg(numeric_verif)

---
 crates/ints/src/big_int.rs | 30 ++++++++++++++++++++++++++++++
 crates/ints/src/lib.rs     |  1 +
 2 files changed, 31 insertions(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 2c680dc..8ed997b 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -276,6 +276,36 @@ impl BigInt {
     }
 }
 
+#[cfg(numeric_verif)]
+impl BigInt {
+    /// Create a value from a sign and its magnitude, least significant limb first
+    pub fn verif_from_parts(neg: bool, limbs: &[usize]) -> BigInt {
+        BigInt::new_slice(limbs, neg)
+    }
+
+    /// The sign and magnitude of this value, least significant limb first
+    pub fn verif_parts(&self) -> (bool, Vec<usize>) {
+        (self.is_negative(), self.with_slice(<[usize]>::to_vec))
+    }
+
+    /// The id this value uses in the interner, and the number of references to it
+    pub fn verif_slot(&self) -> Option<(usize, usize)> {
+        let id = self.0.offset();
+        self.is_interned()
+            .then(|| (id, INT_STORE.refcount(InternId::from_usize(id))))
+    }
+
+    /// The references held to every one of the first `ids` ids in the interner
+    pub fn verif_refs(ids: usize) -> Vec<usize> {
+        (0..ids)
+            .map(|id| match INT_STORE.try_get(InternId::from_usize(id)) {
+                Some(_) => INT_STORE.refcount(InternId::from_usize(id)),
+                None => 0,
+            })
+            .collect()
+    }
+}
+
 impl Debug for BigInt {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         Display::fmt(self, f)
diff --git a/crates/ints/src/lib.rs b/crates/ints/src/lib.rs
index fa6d03d..911059f 100644
--- a/crates/ints/src/lib.rs
+++ b/crates/ints/src/lib.rs
@@ -4,6 +4,7 @@
 //! Unbounded, or 'big' integers, are only available on crate feature `alloc`.
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 #[cfg(feature = "std")]
 extern crate alloc;
 
-- 
2.43.0


From 7d81b591e798a4924dd1ab9b6442177b8de008a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 52/57] fix: in-place ElementShr kept the shifted-out high bits
 of the top element

---
 crates/bits/src/algos/element/shr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 1003a86..7b2ea04 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,7 +58,9 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+                // The bits above `low` are stale: they either stay zero, or `high` of the next
+                // element goes into them since we're iterating forwards.
+                let low = low & !elem_mask;
 
                 left.set_ignore(idx, low);
             }
-- 
2.43.0


From 4f6b1543c03485e803c81c30f45c249fc96317e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:40 +0000
Subject: [PATCH 53/57] fix: saturating isize casts to i16 and i32 truncated

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 4861a4b..307c950 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -865,8 +865,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -898,15 +898,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From f0b9cc0cc90327bf64be7a1f8f6424a0ee7dac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 54/57] fix: DynMatrix row indexes past the end could wrap
 around to another row

---
 crates/compounds/src/matrix/dynamic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index ea55d48..34412af 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -47,6 +47,7 @@ impl<T> DynMatrix<T> {
         }
         let l = usize::min(a, b);
         let r = usize::max(a, b);
+        assert!(r < self.rows, "Row index out of range");
         let (start, end) = self.data.split_at_mut(r * self.cols);
         let start = &mut start[l * self.cols..(l + 1) * self.cols];
         let end = &mut end[..self.cols];
@@ -69,6 +70,7 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(index.0 < self.rows, "Row index out of range");
         assert!(index.1 < self.cols, "Column index out of range");
         &self.data[index.0 * self.cols + index.1]
     }
@@ -76,6 +78,7 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(index.0 < self.rows, "Row index out of range");
         assert!(index.1 < self.cols, "Column index out of range");
         &mut self.data[index.0 * self.cols + index.1]
     }
-- 
2.43.0


From 0099d1af5006d55c1b73fba5cf7486062d49c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:55 +0000
Subject: [PATCH 55/57] fix: DynMatrix::new accepted dimensions whose product
 overflows

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 34412af..599ee96 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -13,10 +13,9 @@ pub struct DynMatrix<T> {
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
         assert_eq!(
-            data.len(),
-            rows * cols,
-            "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            Some(data.len()),
+            rows.checked_mul(cols),
+            "Invalid data length for DynMatrix. Expected {} by {}, got {}",
             rows,
             cols,
             data.len(),
-- 
2.43.0


From 4f662d489d28677998183dfa145b98bb83613891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:25 +0000
Subject: [PATCH 56/57] hook: spurious weak compare-exchange failures and more
 of the atomic interface under cfg(numeric_verif)

---
 crates/utils/src/verif.rs | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/crates/utils/src/verif.rs b/crates/utils/src/verif.rs
index 8414fd0..e95fdd4 100644
--- a/crates/utils/src/verif.rs
+++ b/crates/utils/src/verif.rs
@@ -34,6 +34,8 @@ pub struct Event {
 pub struct Observer {
     pub before: fn(),
     pub after: fn(Event),
+    /// Whether a weak compare-exchange that is about to happen should fail spuriously
+    pub spurious: fn() -> bool,
 }
 
 static OBSERVER: atomic::AtomicPtr<Observer> = atomic::AtomicPtr::new(core::ptr::null_mut());
@@ -59,6 +61,11 @@ fn around<T>(f: impl FnOnce() -> (T, Event)) -> T {
     out
 }
 
+fn spurious() -> bool {
+    // SAFETY: Only ever set from a `&'static Observer`
+    unsafe { OBSERVER.load(Ordering::SeqCst).as_ref() }.is_some_and(|o| (o.spurious)())
+}
+
 macro_rules! shim {
     ($name:ident $(<$gen:ident>)?, $ty:ty, $code:literal, $size:expr, |$v:ident| $conv:expr) => {
         #[repr(transparent)]
@@ -127,6 +134,12 @@ macro_rules! shim {
                 success: Ordering,
                 failure: Ordering,
             ) -> Result<$ty, $ty> {
+                if spurious() {
+                    return around(|| {
+                        let old = self.0.load(failure);
+                        (Err(old), self.event(Kind::Fail, failure, old, old))
+                    });
+                }
                 self.compare_exchange(current, new, success, failure)
             }
 
@@ -153,6 +166,22 @@ macro_rules! shim {
             pub fn into_inner(self) -> $ty {
                 self.0.into_inner()
             }
+
+            pub const fn as_ptr(&self) -> *mut $ty {
+                self.0.as_ptr()
+            }
+        }
+
+        impl$(<$gen>)? From<$ty> for $name$(<$gen>)? {
+            fn from(val: $ty) -> Self {
+                Self::new(val)
+            }
+        }
+
+        impl$(<$gen>)? core::fmt::Debug for $name$(<$gen>)? {
+            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+                core::fmt::Debug::fmt(&self.0, f)
+            }
         }
     };
 }
@@ -184,6 +213,18 @@ impl<T> Default for AtomicPtr<T> {
     }
 }
 
+impl Default for AtomicUsize {
+    fn default() -> Self {
+        Self::new(0)
+    }
+}
+
+impl Default for AtomicBool {
+    fn default() -> Self {
+        Self::new(false)
+    }
+}
+
 rmw!(AtomicUsize, usize:
     fetch_add => |a, b| a.wrapping_add(b),
     fetch_sub => |a, b| a.wrapping_sub(b),
@@ -192,10 +233,12 @@ rmw!(AtomicUsize, usize:
     fetch_xor => |a, b| a ^ b,
     fetch_max => |a, b| a.max(b),
     fetch_min => |a, b| a.min(b),
+    fetch_nand => |a, b| !(a & b),
 );
 
 rmw!(AtomicBool, bool:
     fetch_and => |a, b| a & b,
     fetch_or => |a, b| a | b,
     fetch_xor => |a, b| a ^ b,
+    fetch_nand => |a, b| !(a & b),
 );
-- 
2.43.0


From 4c115e937090ac21078469ae0fc788fd009eb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:57 +0000
Subject: [PATCH 57/57] fix: shrinking an empty slice panicked, and with it
 sub, mul and shr of empty slices

---
 crates/bits/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 8d1bc34..c25d154 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -11,7 +11,7 @@ pub trait IntSlice<T>: Deref<Target = [T]> {
 impl<T: Integral + Copy> IntSlice<T> for &[T] {
     fn shrink(self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        &self[..=idx]
+        &self[..usize::min(idx + 1, self.len())]
     }
 }
 
@@ -19,7 +19,7 @@ impl<T: Integral + Copy> IntSlice<T> for &[T] {
 impl<T: Integral + Copy> IntSlice<T> for alloc::vec::Vec<T> {
     fn shrink(mut self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        self.drain(idx + 1..);
+        alloc::vec::Vec::truncate(&mut self, idx + 1);
         self
     }
 }
-- 
2.43.0

