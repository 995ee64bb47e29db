From df0b9ec1ca951509eb2aba4485e79b3143f9781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 01/12] fix: report digit count without leading zeros after
 subtraction

---
 src/ubig/sub.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..c11bb02 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
@@ -94,8 +94,8 @@ where T: Digit
         let carry = nr0.iter_mut().zip(nr1).fold(false, |carry, (d0, &d1)| d0.sub_carry_assign(d1, carry));
         if carry
         {
-            let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            dec_assign(&mut nr0[n1..])?;
+            Ok(drop_leading_zeros(nr0, n0))
         }
         else
         {
@@ -135,8 +135,8 @@ where T: Digit
         diff[n1..n0].copy_from_slice(&nr0[n1..]);
         if carry
         {
-            let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            dec_assign(&mut diff[n1..n0])?;
+            Ok(drop_leading_zeros(diff, n0))
         }
         else
         {
-- 
2.43.0


From 0fbe036bbcdcd151e0bd5b3b2029f4e99b18d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 02/12] fix: shifting a binary zero left keeps it free of
 leading zeros

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..875888c 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.is_zero()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
-- 
2.43.0


From c78f643a42ccb6fce75b5e08baf15ae45532b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 03/12] fix: shifting a binary number right past its last digit
 yields zero

---
 src/ubig/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 875888c..36b8434 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -772,7 +772,8 @@ where BinaryDigit<T>: Digit
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if high != 0
         {
-            self.digits.drain(..high);
+            let nd = self.nr_digits();
+            self.digits.drain(..high.min(nd));
         }
         if low != 0
         {
-- 
2.43.0


From 9bce7f068a16491b83df6d6d40ef9530df7f6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 04/12] fix: implement large right shifts of decimal numbers

---
 src/ubig/ops.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 36b8434..2fcd9a2 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -801,8 +801,14 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else
         {
-            // FIXME
-            unimplemented!()
+            let step = 4 * DecimalDigit::<T>::MAX_HEX_PLACES;
+            let mut left = n;
+            while left > step && !self.is_zero()
+            {
+                *self >>= step;
+                left -= step;
+            }
+            *self >>= left.min(step);
         }
     }
 }
-- 
2.43.0


From 8b0880af1a62ad1a5cb645cb75ef19ee955e03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 05/12] fix: keep the low digit when subtracting a two-digit
 native value from a decimal number

---
 src/ubig/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 2fcd9a2..9b3166f 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -870,9 +870,9 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         {
             let (high, low) = DecimalDigit::split(n);
             *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
+            match super::sub::sub_assign_digit(self.digits.get_mut(1..).unwrap_or(&mut []), high)
             {
-                Ok(nd) => { self.digits.truncate(nd); },
+                Ok(nd) => { self.digits.truncate(nd + 1); self.drop_leading_zeros(); },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
             }
         }
-- 
2.43.0


From 59478171a3c6a9e6a41a968c7644fb512fec85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 06/12] fix: leave the numerator intact when div_assign_big()
 is asked to divide by zero

---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..552fc90 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From 8d6ee53f2bde80d9c42b6b989a0b5d5aa1d85926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 07/12] fix: pad the low part when splitting a number for
 conversion to decimal

---
 src/ubig.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 552fc90..53995e0 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -335,6 +335,8 @@ impl<T> UBig<BinaryDigit<T>>
                 }
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
+                // The low part may have fewer digits than the scale, so pad it with zeros
+                res.digits.resize(1 << idx, DecimalDigit::zero());
                 let high_dec = self.build_decimal(scales);
                 res.digits.extend(high_dec.digits);
                 res
-- 
2.43.0


From c8ab5916328104242c3a4232d0ce52c2d6a8cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 08/12] fix: do not overflow the denominator when normalizing
 it for division

---
 src/ubig/div.rs      | 27 +++++++++++++++++++++++----
 src/ubig/div/bz.rs   |  7 +++----
 src/ubig/div/long.rs |  2 +-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..6b332e6 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -68,6 +68,26 @@ where T: Digit
     }
 }
 
+/// Shift the number represented by the digits in `den` left as far as possible without it
+/// overflowing its digits, and return the size of the shift. The most significant digit of `den`
+/// must not be zero, after the shift it is at least half the base of the number.
+fn normalize_assign<T>(den: &mut [T]) -> usize
+where T: Digit
+{
+    let shift = den[den.len()-1].max_shift() as usize;
+    let carry = crate::ubig::shl::shl_carry_assign_within_digit(den, shift, T::zero());
+    if carry.is_zero()
+    {
+        shift
+    }
+    else
+    {
+        // The bits shifted in from the lower digits made the number overflow, undo the last bit.
+        crate::ubig::shr::shr_carry_assign_within_digit(den, 1, carry);
+        shift - 1
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -86,13 +106,12 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
-                let (mut den_low, mut den_high) = (fac_low, fac_high);
+                let mut den = [fac_low, fac_high];
+                let shift = normalize_assign(&mut den);
+                let [den_low, den_high] = den;
                 let mut rem_high = T::zero();
                 if shift > 0
                 {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
                     rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
                 }
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..e3047e5 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,12 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = super::normalize_assign(&mut sden);
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +57,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..8492409 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -50,7 +50,7 @@ where T: Digit
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
+        let shift = super::normalize_assign(&mut scaled_den);
         let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
-- 
2.43.0


From 4df14dd51db50dcc7c450fcd0179795a9c28d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 09/12] fix: clamp the quotient digit estimate to a single
 digit

---
 src/ubig/div.rs      | 21 +++++++++++++++++++--
 src/ubig/div/long.rs |  3 +--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index 6b332e6..be93253 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -88,6 +88,24 @@ where T: Digit
     }
 }
 
+/// Estimate the next digit in the quotient from the two most significant digits `high` and `low`
+/// of the numerator, and the most significant digit `msd` of the denominator, where
+/// `high ≤ msd`.
+fn estimate_quot<T>(high: T, low: T, msd: T) -> T
+where T: Digit
+{
+    if high < msd
+    {
+        let mut quot = low;
+        quot.div_carry_assign(msd, high);
+        quot
+    }
+    else
+    {
+        T::MAX
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -118,8 +136,7 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    let mut quot = estimate_quot(rem_high, rem_low, den_high);
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 8492409..39ff68c 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -102,8 +102,7 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        q = super::estimate_quot(num[iq+nden], num[iq+nden-1], msd);
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 05f4e5a2e4df152901422863a0f4b98310efb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 10/12] fix: do not store the first quotient digit when it is
 corrected to zero

---
 src/ubig/div/long.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 39ff68c..8297b11 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,7 +96,14 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From 215257374ba3bf5bebc0aa3cbe8c33dc33dfe93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 11/12] fix: clear the scratch space in result before computing
 a Toom-3 square

---
 src/ubig/mul/toom3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..feda549 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,6 +306,7 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
-- 
2.43.0


From bc1df7fb1a9d024b7a85f7f302095a1b0a84f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 12/12] fix: reject plus signs inside number denotations

---
 src/ubig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 53995e0..4f521cf 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -412,7 +412,7 @@ where T: DigitStorage, BinaryDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if !s.is_ascii() || s.contains('+')
         {
             Err(Error::InvalidNumber)
         }
@@ -449,7 +449,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if !s.is_ascii() || s.contains('+')
         {
             Err(Error::InvalidNumber)
         }
-- 
2.43.0

