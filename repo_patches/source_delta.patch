From 37d8e020953069af9cf2e6749b504683005eabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 01/28] fix: abs_cmp and cmp of a small nonzero number with
 zero

---
 astro-float-num/src/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..23e5916 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -769,6 +769,8 @@ impl BigFloatNumber {
             } else {
                 return -1;
             }
+        } else if d2.m.is_zero() {
+            return 1;
         }
 
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
-- 
2.43.0


From 5a647bd62a37a9163ca525ef56923d0337fee297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 02/28] fix: BigFloat::abs_cmp of finite numbers ignores their
 signs

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
-- 
2.43.0


From 9b60972b2f7bdc2b8de2061ec3495b10d7b76f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 03/28] fix: add and sub of zero keep the zero's inexact flag
 and the full precision

---
 astro-float-num/src/num.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 23e5916..ba97e6e 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -590,7 +590,10 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
+            ret.inexact |= self.inexact;
 
             return Ok(ret);
         }
@@ -598,7 +601,10 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
+            ret.inexact |= d2.inexact;
 
             return Ok(ret);
         }
-- 
2.43.0


From ff5a9bc7d750762cba451e996d9e8b794ef26216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 04/28] fix: mul and div of inexact zero keep the inexact flag

---
 astro-float-num/src/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index ba97e6e..b387def 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -315,6 +315,8 @@ impl BigFloatNumber {
         if self.m.is_zero() || d2.m.is_zero() {
             let mut ret = Self::new(p)?;
             ret.set_sign(s);
+            // the product is exact only if one of the zeros is exact
+            ret.inexact = (!self.m.is_zero() || self.inexact) && (!d2.m.is_zero() || d2.inexact);
             return Ok(ret);
         }
 
@@ -387,6 +389,7 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = Self::new(p)?; // self / d2 = 0
             ret.set_sign(s);
+            ret.inexact = self.inexact;
             return Ok(ret);
         }
 
-- 
2.43.0


From ac89b102e2b5dae93d6feaf791c15164cad89e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 05/28] fix: underflow of exp and pow gives a positive inexact
 zero

---
 astro-float-num/src/ops/pow.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..50d2a3e 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -122,8 +122,9 @@ impl BigFloatNumber {
                 let x = match self.exp_positive_arg(p_x, cc) {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
-                        Error::ExponentOverflow(sign) => {
-                            return Self::new2(p, sign, self.inexact());
+                        Error::ExponentOverflow(_) => {
+                            // underflow: e^self is positive and is not zero
+                            return Self::new2(p, Sign::Pos, true);
                         }
                         Error::DivisionByZero => Err(Error::DivisionByZero),
                         Error::InvalidArgument => Err(Error::InvalidArgument),
@@ -538,7 +539,7 @@ impl BigFloatNumber {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::new2(p, Sign::Pos, n.inexact() || ln.inexact());
+                            return Self::new2(p, Sign::Pos, true);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -564,8 +565,8 @@ impl BigFloatNumber {
                     let u = match m.exp(p_ext, RoundingMode::None, cc) {
                         Ok(v) => Ok(v),
                         Err(e) => match e {
-                            Error::ExponentOverflow(sign) => {
-                                return Self::new2(p, sign, self.inexact());
+                            Error::ExponentOverflow(_) => {
+                                return Self::new2(p, Sign::Pos, true);
                             }
                             Error::DivisionByZero => Err(Error::DivisionByZero),
                             Error::InvalidArgument => Err(Error::InvalidArgument),
-- 
2.43.0


From 50b1c2b5bad965943cc94e84cf6901f35502da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 06/28] fix: powsi with a negative power keeps the inexact flag
 of the base

---
 astro-float-num/src/ops/pow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 50d2a3e..d858dce 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -222,10 +222,13 @@ impl BigFloatNumber {
                     let mut ret = ONE.div(&x, p_x, RoundingMode::None)?;
 
                     if ret.try_set_precision(p, rm, p_wrk)? {
+                        ret.set_inexact(ret.inexact() | self.inexact());
                         return Ok(ret);
                     }
                 } else {
-                    return ONE.div(&x, p, rm);
+                    let mut ret = ONE.div(&x, p, rm)?;
+                    ret.set_inexact(ret.inexact() | self.inexact());
+                    return Ok(ret);
                 }
 
                 p_wrk += p_inc;
-- 
2.43.0


From d8f9efa2d04707eb304cd0d4eb25c99a35de7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 07/28] fix: an even power of negative zero is positive zero

---
 astro-float-num/src/ops/pow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index d858dce..dadf8b4 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -267,6 +267,9 @@ impl BigFloatNumber {
         if self.is_zero() || i == 1 {
             let mut ret = self.clone()?;
             ret.set_precision(p, rm)?;
+            if self.is_zero() && n & 1 == 0 {
+                ret.set_sign(Sign::Pos);
+            }
             return Ok(ret);
         }
 
-- 
2.43.0


From 50fa1041dfd99285f689404d17b4573e0cd906aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 08/28] fix: from_f64 of zero keeps the sign and has the
 requested precision

---
 astro-float-num/src/num.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index b387def..9215541 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -821,7 +821,11 @@ impl BigFloatNumber {
         let mut ret = Self::new(0)?;
 
         if f == 0.0f64 {
-            return Ok(ret);
+            return Self::new2(
+                p,
+                if f.is_sign_negative() { Sign::Neg } else { Sign::Pos },
+                false,
+            );
         }
 
         if f.is_infinite() {
-- 
2.43.0


From 287d34c7ad3013a5359ac7b07ceef990ee1951d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 09/28] fix: refuse unsupported precision before computing

---
 astro-float-num/src/ops/acos.rs       | 1 +
 astro-float-num/src/ops/acosh.rs      | 1 +
 astro-float-num/src/ops/asin.rs       | 1 +
 astro-float-num/src/ops/asinh.rs      | 1 +
 astro-float-num/src/ops/atan.rs       | 1 +
 astro-float-num/src/ops/atanh.rs      | 1 +
 astro-float-num/src/ops/consts/mod.rs | 4 ++++
 astro-float-num/src/ops/cos.rs        | 1 +
 astro-float-num/src/ops/cosh.rs       | 1 +
 astro-float-num/src/ops/log.rs        | 4 ++++
 astro-float-num/src/ops/pow.rs        | 8 ++++++--
 astro-float-num/src/ops/sin.rs        | 1 +
 astro-float-num/src/ops/sinh.rs       | 1 +
 astro-float-num/src/ops/tan.rs        | 1 +
 astro-float-num/src/ops/tanh.rs       | 1 +
 15 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ops/acos.rs b/astro-float-num/src/ops/acos.rs
index dc9e998..4fdf0e6 100644
--- a/astro-float-num/src/ops/acos.rs
+++ b/astro-float-num/src/ops/acos.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn acos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.abs_cmp(&ONE);
         if cmpone == 0 && self.is_positive() {
diff --git a/astro-float-num/src/ops/acosh.rs b/astro-float-num/src/ops/acosh.rs
index 93bef52..f9f43ba 100644
--- a/astro-float-num/src/ops/acosh.rs
+++ b/astro-float-num/src/ops/acosh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when `self` < 1, or the precision is incorrect.
     pub fn acosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.cmp(&ONE);
         if cmpone == 0 {
diff --git a/astro-float-num/src/ops/asin.rs b/astro-float-num/src/ops/asin.rs
index 0f76d86..d2a2bf3 100644
--- a/astro-float-num/src/ops/asin.rs
+++ b/astro-float-num/src/ops/asin.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn asin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/asinh.rs b/astro-float-num/src/ops/asinh.rs
index eadcd3a..78906fc 100644
--- a/astro-float-num/src/ops/asinh.rs
+++ b/astro-float-num/src/ops/asinh.rs
@@ -24,6 +24,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn asinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atan.rs b/astro-float-num/src/ops/atan.rs
index 0f40485..7366d12 100644
--- a/astro-float-num/src/ops/atan.rs
+++ b/astro-float-num/src/ops/atan.rs
@@ -89,6 +89,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn atan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atanh.rs b/astro-float-num/src/ops/atanh.rs
index 4a92ea0..59e1aef 100644
--- a/astro-float-num/src/ops/atanh.rs
+++ b/astro-float-num/src/ops/atanh.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when |`self`| > 1, or the precision is incorrect.
     pub fn atanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = self.clone()?;
diff --git a/astro-float-num/src/ops/consts/mod.rs b/astro-float-num/src/ops/consts/mod.rs
index 2a7f09b..d7c22b4 100644
--- a/astro-float-num/src/ops/consts/mod.rs
+++ b/astro-float-num/src/ops/consts/mod.rs
@@ -55,6 +55,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn pi_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.pi.for_prec(p, rm)
     }
 
@@ -67,6 +68,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn e_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.e.for_prec(p, rm)
     }
 
@@ -79,6 +81,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn ln_2_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln2.for_prec(p, rm)
     }
 
@@ -95,6 +98,7 @@ impl Consts {
         rm: RoundingMode,
     ) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln10.for_prec(p, rm)
     }
 
diff --git a/astro-float-num/src/ops/cos.rs b/astro-float-num/src/ops/cos.rs
index 99277c7..f7ac164 100644
--- a/astro-float-num/src/ops/cos.rs
+++ b/astro-float-num/src/ops/cos.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 87ecd83..0eb59b4 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -21,6 +21,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 40cecbc..d29d176 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -93,6 +93,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn ln(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // factoring: ln(self) = ln(x * 2^n) = ln(x) + n*ln(2), 0.5 <= x < 1
         // reduction: ln(x) = 2*ln(sqrt(x))
@@ -221,6 +222,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log2(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // log2(self) = ln(x * 2^n) / ln(2) = ln(x) / ln(2) + n, 0.5 <= x < 1
 
@@ -300,6 +302,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log10(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // ln(self) / ln(10)
 
@@ -358,6 +361,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() || self.is_negative() || n.is_zero() || n.is_negative() {
             return Err(Error::InvalidArgument);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index dadf8b4..f8a07df 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -94,6 +94,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn exp(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -201,6 +202,7 @@ impl BigFloatNumber {
             self.powi_internal(n as usize, p, rm, true)
         } else {
             let p = round_p(p);
+            Self::p_assertion(p)?;
 
             if self.is_zero() {
                 return Err(Error::DivisionByZero);
@@ -257,6 +259,7 @@ impl BigFloatNumber {
         update_inexact: bool,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut i = n;
 
@@ -457,6 +460,9 @@ impl BigFloatNumber {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<Self, Error> {
+        let p = round_p(p);
+        Self::p_assertion(p)?;
+
         let nint = n.is_int();
         if n.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -511,8 +517,6 @@ impl BigFloatNumber {
 
         // actual pow : self^n = e^(n * ln(self))
 
-        let p = round_p(p);
-
         let mut x = self.clone()?;
         let mut y = n.clone()?;
 
diff --git a/astro-float-num/src/ops/sin.rs b/astro-float-num/src/ops/sin.rs
index dd8f87d..ace2010 100644
--- a/astro-float-num/src/ops/sin.rs
+++ b/astro-float-num/src/ops/sin.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index d799f55..2cb721d 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -20,6 +20,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tan.rs b/astro-float-num/src/ops/tan.rs
index b1c58a8..ae175d8 100644
--- a/astro-float-num/src/ops/tan.rs
+++ b/astro-float-num/src/ops/tan.rs
@@ -72,6 +72,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tanh.rs b/astro-float-num/src/ops/tanh.rs
index 797b325..b0cb0c4 100644
--- a/astro-float-num/src/ops/tanh.rs
+++ b/astro-float-num/src/ops/tanh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
-- 
2.43.0


From 36c31cc3a4cb9a5d5dc6f982661bc6397d3f734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 10/28] fix: atan of negative infinity mirrors the directed
 rounding modes

---
 astro-float-num/src/ext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..f86a5dc 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -1,5 +1,6 @@
 //! BigFloat including finite numbers, NaN, and `Inf`.
 
+use crate::common::util::invert_rm_for_sign;
 use crate::defs::SignedWord;
 use crate::defs::DEFAULT_P;
 use crate::num::BigFloatNumber;
@@ -780,6 +781,7 @@ impl BigFloat {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<BigFloatNumber, Error> {
+        let rm = if s == Sign::Neg { invert_rm_for_sign(rm) } else { rm };
         let mut half_pi = cc.pi_num(p, rm)?;
 
         half_pi.set_exponent(1);
-- 
2.43.0


From af0418bb8fbf955f850f9018b72ff950e7b744e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 11/28] fix: finite number divided by infinity has the
 requested precision and the quotient's sign

---
 astro-float-num/src/ext.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index f86a5dc..83c17d8 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -290,7 +290,13 @@ impl BigFloat {
                 Flavor::Value(v2) => {
                     Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.sign() == v2.sign())
                 }
-                Flavor::Inf(_) => Self::new(v1.mantissa_max_bit_len()),
+                Flavor::Inf(s2) => {
+                    let mut ret = Self::new(p);
+                    if v1.sign() != *s2 {
+                        ret.set_sign(Sign::Neg);
+                    }
+                    ret
+                }
                 Flavor::NaN(err) => Self::nan(*err),
             },
             Flavor::Inf(s1) => match &d2.inner {
-- 
2.43.0


From e8c6769e75c94e9440dc4260d4dc1f557f04b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 12/28] fix: reserve enough memory in try_extend_2

---
 astro-float-num/src/common/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/common/buf.rs b/astro-float-num/src/common/buf.rs
index 844d8e5..1e04eec 100644
--- a/astro-float-num/src/common/buf.rs
+++ b/astro-float-num/src/common/buf.rs
@@ -74,7 +74,7 @@ impl WordBuf {
     pub fn try_extend_2(&mut self, p: usize) -> Result<(), Error> {
         let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
         if n > self.inner.capacity() {
-            self.inner.try_reserve(n - self.inner.capacity())?;
+            self.inner.try_reserve(n - self.inner.len())?;
         }
         if n > self.inner.len() {
             self.inner.resize(n, 0);
-- 
2.43.0


From 3c65f28af8e0436a982ccf9fae0795030b63fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 13/28] fix: deserialize signed and wide integers

---
 astro-float-num/src/for_3rd/de.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/for_3rd/de.rs b/astro-float-num/src/for_3rd/de.rs
index 6efc628..c9eb760 100644
--- a/astro-float-num/src/for_3rd/de.rs
+++ b/astro-float-num/src/for_3rd/de.rs
@@ -25,7 +25,28 @@ impl<'de> Visitor<'de> for BigFloatVisitor {
     }
 
     fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
-        match BigFloatNumber::from_usize(v as usize) {
+        match BigFloatNumber::from_u64(v, 64) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_i64<E: Error>(self, v: i64) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_i64(v, 64) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_u128<E: Error>(self, v: u128) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_u128(v, 128) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_i128<E: Error>(self, v: i128) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_i128(v, 128) {
             Ok(o) => Ok(o.into()),
             Err(e) => Err(Error::custom(format!("{e:?}"))),
         }
-- 
2.43.0


From 7375bd73ebf1a8124ca34b9bd8cdb5f4d197c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 14/28] fix: release the thread-local cache before calling the
 formatter

---
 astro-float-num/src/ext.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 83c17d8..1bd2a4d 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -1637,10 +1637,13 @@ macro_rules! impl_format_rdx {
             /// Formats the number.
             /// The implementation is not available in no_std environment.
             fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
+                // the writer can format other numbers, so the cache must be released before writing
+                let mut buf = String::new();
                 crate::common::consts::TENPOWERS.with(|tp| {
                     let cc = &mut tp.borrow_mut();
-                    self.write_str(f, $rdx, RoundingMode::ToEven, cc)
-                })
+                    self.write_str(&mut buf, $rdx, RoundingMode::ToEven, cc)
+                })?;
+                f.write_str(&buf)
             }
         }
     };
-- 
2.43.0


From 1adb425a8c3f9bbea87495c317707745ba4b07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 15/28] fix: expr! accepts literals that do not fit the
 exponent range

---
 astro-float-macro/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index 436128e..46a1ad4 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -29,8 +29,12 @@ pub fn str_to_bigfloat_expr(s: &str, span: Span, cc: &mut Consts) -> Result<Toke
             quote!(astro_float::Sign::Neg)
         };
         quote!(astro_float::macro_util::check_exponent_range(astro_float::BigFloat::from_raw_parts(&[#(#m),*], #n, #stoken, #e, #inexact), emin, emax))
+    } else if f.is_inf_pos() {
+        quote!(astro_float::INF_POS)
+    } else if f.is_inf_neg() {
+        quote!(astro_float::INF_NEG)
     } else {
-        quote!(astro_float::BigFloat::nan())
+        quote!(astro_float::NAN)
     };
 
     Ok(q)
-- 
2.43.0


From 7a22ffbd8ee5cccaf12ad32fc9cfd9ce9491c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 16/28] fix: expr! refuses unsupported precision without
 overflow

---
 astro-float-macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 0d22876..65c7337 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -476,7 +476,7 @@ pub fn expr(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         let emax = ctx.emax();
         let cc = ctx.consts();
 
-        let mut p_rnd = p + astro_float::WORD_BIT_SIZE;
+        let mut p_rnd = p.saturating_add(astro_float::WORD_BIT_SIZE);
         let mut errs: [usize; #err_sz] = [#(#err, )*];
 
         loop {
-- 
2.43.0


From 9f4d389d868f44909bf97296e447177fd9a4b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 17/28] fix: expr! does not capture variables of the user's
 expression

---
 astro-float-macro/src/lib.rs  | 9 ++++++++-
 astro-float-macro/src/util.rs | 1 -
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 65c7337..5704c9a 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -5,11 +5,18 @@
 #![deny(missing_docs)]
 #![deny(clippy::suspicious)]
 
+// Same as `quote::quote`, but the local variables of the generated code
+// do not interfere with variables of the same name in the user's expression.
+macro_rules! quote {
+    ($($t:tt)*) => {
+        quote::quote_spanned!(proc_macro2::Span::mixed_site()=> $($t)*)
+    };
+}
+
 mod util;
 
 use astro_float_num::{Consts, EXPONENT_BIT_SIZE};
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::{
     parse::Parse, spanned::Spanned, BinOp, Error, Expr, ExprBinary, ExprCall, ExprGroup, ExprLit,
     ExprParen, ExprPath, ExprUnary, Lit, Token, UnOp,
diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index 46a1ad4..1b7d896 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -6,7 +6,6 @@ use astro_float_num::Radix;
 use astro_float_num::RoundingMode;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::spanned::Spanned;
 use syn::Error;
 use syn::ExprCall;
-- 
2.43.0


From 4fbbdd4c49c571fa0477523bdc9292b8c6c45298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 18/28] fix: exp and pow that underflow follow the rounding
 mode

---
 astro-float-num/src/num.rs     | 18 ++++++++++++++++++
 astro-float-num/src/ops/pow.rs |  6 +++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 9215541..650948e 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -755,6 +755,24 @@ impl BigFloatNumber {
         }
     }
 
+    /// Returns the result of an operation with value that has sign `s`, and is too small to be represented with precision `p`:
+    /// zero or the smallest positive number, depending on rounding mode `rm`.
+    pub(crate) fn underflow(p: usize, s: Sign, rm: RoundingMode) -> Result<Self, Error> {
+        let mut ret = if rm == RoundingMode::FromZero
+            || (s.is_positive() && rm == RoundingMode::Up)
+            || (s.is_negative() && rm == RoundingMode::Down)
+        {
+            Self::min_positive(p)?
+        } else {
+            Self::new(p)?
+        };
+
+        ret.set_sign(s);
+        ret.set_inexact(true);
+
+        Ok(ret)
+    }
+
     /// Compares `self` to `d2`.
     /// Returns positive if `self` is greater than `d2`, negative if `self` is smaller than `d2`, 0 otherwise.
     pub fn cmp(&self, d2: &Self) -> SignedWord {
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index f8a07df..7dcf391 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -125,7 +125,7 @@ impl BigFloatNumber {
                     Err(e) => match e {
                         Error::ExponentOverflow(_) => {
                             // underflow: e^self is positive and is not zero
-                            return Self::new2(p, Sign::Pos, true);
+                            return Self::underflow(p, Sign::Pos, rm);
                         }
                         Error::DivisionByZero => Err(Error::DivisionByZero),
                         Error::InvalidArgument => Err(Error::InvalidArgument),
@@ -549,7 +549,7 @@ impl BigFloatNumber {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::new2(p, Sign::Pos, true);
+                            return Self::underflow(p, Sign::Pos, effective_rm);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -576,7 +576,7 @@ impl BigFloatNumber {
                         Ok(v) => Ok(v),
                         Err(e) => match e {
                             Error::ExponentOverflow(_) => {
-                                return Self::new2(p, Sign::Pos, true);
+                                return Self::underflow(p, Sign::Pos, effective_rm);
                             }
                             Error::DivisionByZero => Err(Error::DivisionByZero),
                             Error::InvalidArgument => Err(Error::InvalidArgument),
-- 
2.43.0


From 1c1d3b547995abb8db48ac041c8f88a9a4412a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 19/28] fix: text of a negative zero keeps its sign in every
 radix

---
 astro-float-num/src/conv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..0174b3e 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -78,7 +78,7 @@ impl BigFloatNumber {
         rm: RoundingMode,
     ) -> Result<Self, Error> {
         if digits.is_empty() {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
         Self::p_assertion(round_p(digits.len()))?;
@@ -283,7 +283,7 @@ impl BigFloatNumber {
         let leadzeroes = digits.iter().take_while(|&&x| x == 0).count();
 
         if digits.len() - leadzeroes == 0 {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
         let k = log2_ceil(digits.len() - leadzeroes);
-- 
2.43.0


From 7e5001447cbb1125c5d50fab191915bfde5c5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 20/28] fix: text below the smallest number is rounded in the
 requested direction

---
 astro-float-num/src/conv.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 0174b3e..faabea0 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -241,6 +241,10 @@ impl BigFloatNumber {
 
                     num.subnormalize(e, RoundingMode::None);
 
+                    if num.is_zero() {
+                        return Self::underflow(p, sign, rm);
+                    }
+
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
                     }
@@ -351,6 +355,10 @@ impl BigFloatNumber {
                 }
             }
 
+            if f.is_zero() {
+                return Self::underflow(p, sign, rm);
+            }
+
             f.set_sign(sign);
 
             if f.try_set_precision(p, rm, p_wrk)? {
-- 
2.43.0


From e4bb1de050989a40e8203c8d6010abda8f61102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 21/28] fix: log with a base that is not positive, or of a
 number that is not positive, is NaN

---
 astro-float-num/src/ext.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 1bd2a4d..55618f7 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -471,14 +471,11 @@ impl BigFloat {
             Flavor::Value(v1) => {
                 match &n.inner {
                     Flavor::Value(v2) => {
-                        if v2.is_zero() {
-                            return INF_NEG;
-                        }
                         Self::result_to_ext(v1.log(v2, p, rm, cc), false, true)
                     }
                     Flavor::Inf(s2) => {
                         // v1.log(inf)
-                        if s2.is_positive() {
+                        if s2.is_positive() && v1.is_positive() && !v1.is_zero() {
                             Self::new(p)
                         } else {
                             NAN
@@ -495,7 +492,9 @@ impl BigFloat {
                     match &n.inner {
                         Flavor::Value(v2) => {
                             // +inf.log(v2)
-                            if v2.exponent() <= 0 {
+                            if v2.is_zero() || v2.is_negative() {
+                                NAN
+                            } else if v2.exponent() <= 0 {
                                 INF_NEG
                             } else {
                                 INF_POS
-- 
2.43.0


From 1b38ed6db19a627876ca917a3f6d3c01076a5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 22/28] fix: rem, log and signum of NaN keep its error

---
 astro-float-num/src/ext.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 55618f7..d617661 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -324,7 +324,10 @@ impl BigFloat {
                 Flavor::Inf(_) => self.clone(),
                 Flavor::NaN(err) => Self::nan(*err),
             },
-            Flavor::Inf(_) => NAN,
+            Flavor::Inf(_) => match &d2.inner {
+                Flavor::NaN(err) => Self::nan(*err),
+                _ => NAN,
+            },
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
@@ -485,7 +488,7 @@ impl BigFloat {
                 }
             }
             Flavor::Inf(s1) => {
-                if *s1 == Sign::Neg {
+                if *s1 == Sign::Neg && !n.is_nan() {
                     // -inf.log(any)
                     NAN
                 } else {
@@ -594,7 +597,7 @@ impl BigFloat {
     /// The function returns NaN If `self` is NaN.
     pub fn signum(&self) -> Self {
         if self.is_nan() {
-            NAN
+            self.clone()
         } else if self.is_negative() {
             let mut ret = Self::from_u8(1, DEFAULT_P);
             ret.inv_sign();
-- 
2.43.0


From 1ad68edc3df807fd8eee9cfa80de9fd1946c42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 23/28] fix: pow and log with an exactly representable result
 terminate

---
 astro-float-num/src/ops/log.rs | 26 ++++++-----
 astro-float-num/src/ops/pow.rs | 82 ++++++++++++++++++++++++++++++++++
 2 files changed, 97 insertions(+), 11 deletions(-)

diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index d29d176..7e4a639 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -394,17 +394,21 @@ impl BigFloatNumber {
                 return Ok(ret);
             } else {
                 // check if the result is exact
-                let pwr = y.pow(
-                    &ret2,
-                    p_x.max(self.mantissa_max_bit_len()),
-                    RoundingMode::None,
-                    cc,
-                )?;
-
-                if pwr.cmp(self) == 0 {
-                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
-                    ret2.set_precision(p, rm)?;
-                    return Ok(ret2);
+                ret2.set_inexact(false);
+                ret2.set_precision(p_wrk, RoundingMode::ToEven)?;
+
+                if let Some((b, k)) = y.exact_pow_arg(&ret2, self.mantissa_max_bit_len())? {
+                    let exact = match b.powi(k, p_x, RoundingMode::None) {
+                        Ok(pwr) => !pwr.inexact() && pwr.cmp(&x) == 0,
+                        Err(Error::ExponentOverflow(_)) => false,
+                        Err(e) => return Err(e),
+                    };
+
+                    if exact {
+                        ret2.set_inexact(self.inexact() | n.inexact());
+                        ret2.set_precision(p, rm)?;
+                        return Ok(ret2);
+                    }
                 }
             }
 
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 7dcf391..afb64ed 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -4,6 +4,9 @@ use crate::common::consts::{FOUR, THREE};
 use crate::common::util::{calc_add_cost, calc_mul_cost, round_p};
 use crate::ops::consts::Consts;
 use crate::ops::util::compute_small_exp;
+use crate::Exponent;
+use crate::EXPONENT_BIT_SIZE;
+use crate::EXPONENT_MAX;
 use crate::EXPONENT_MIN;
 use crate::{
     common::consts::ONE,
@@ -444,6 +447,78 @@ impl BigFloatNumber {
         Ok(sinh)
     }
 
+    // If `self` to the power of `n` may be exactly representable with `p + 1` bits,
+    // returns `x` and `k` such that x^k is exactly `self` to the power of `n`.
+    // `self` must be positive and exact, and `n` must be non-zero.
+    pub(super) fn exact_pow_arg(&self, n: &Self, p: usize) -> Result<Option<(Self, usize)>, Error> {
+        // |n| = k / 2^r
+        let n_bits = n.significant_bits();
+        let n_int_bits = n_bits.max(n.exponent().max(0) as usize);
+        let r = n_bits as isize - n.exponent() as isize;
+
+        if n_int_bits > WORD_BIT_SIZE || r > EXPONENT_BIT_SIZE as isize {
+            return Ok(None);
+        }
+
+        let bits = self.significant_bits();
+        if n.is_negative() && bits != 1 {
+            return Ok(None); // infinite expansion
+        }
+
+        let mut k = n.clone()?;
+        k.set_exponent(n_int_bits as Exponent);
+        let k = k.int_as_usize()?;
+
+        if bits > 1 && k > p {
+            return Ok(None);
+        }
+
+        let mut x = self.clone()?;
+
+        for _ in 0..r {
+            x = x.sqrt(x.mantissa_max_bit_len(), RoundingMode::ToZero)?;
+            if x.inexact() {
+                return Ok(None);
+            }
+        }
+
+        let bits = x.significant_bits();
+        if bits > 1 && (bits - 1).saturating_mul(k) > p {
+            return Ok(None);
+        }
+
+        // binary exponent of the most significant bit
+        let mut e =
+            x.exponent() as isize + x.precision() as isize - x.mantissa_max_bit_len() as isize - 1;
+
+        if n.is_negative() {
+            e = -e;
+            if e >= EXPONENT_MAX as isize {
+                return Ok(None);
+            }
+            x = ONE.div(&x, WORD_BIT_SIZE, RoundingMode::ToZero)?;
+        }
+
+        match e.checked_mul(k as isize) {
+            Some(v) if v >= EXPONENT_MIN as isize - p as isize => Ok(Some((x, k))),
+            _ => Ok(None),
+        }
+    }
+
+    // The number of bits from the most significant non-zero bit to the least significant non-zero bit.
+    fn significant_bits(&self) -> usize {
+        let mut zeros = 0;
+        for d in self.mantissa().digits() {
+            if *d == 0 {
+                zeros += WORD_BIT_SIZE;
+            } else {
+                zeros += d.trailing_zeros() as usize;
+                break;
+            }
+        }
+        self.precision() - zeros
+    }
+
     /// Compute the power of `self` to the `n` with precision `p`. The result is rounded using the rounding mode `rm`.
     /// This function requires constants cache `cc` for computing the result.
     /// Precision is rounded upwards to the word size.
@@ -539,6 +614,13 @@ impl BigFloatNumber {
         let mut p_wrk = p.max(self.mantissa_max_bit_len().max(y.mantissa_max_bit_len())) + p_inc;
 
         match || -> Result<Self, Error> {
+            // the loop can not determine the rounding of a result which is representable exactly
+            if let Some((base, k)) = x.exact_pow_arg(&y, p)? {
+                let mut ret = base.powi(k, p, effective_rm)?;
+                ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+                return Ok(ret);
+            }
+
             loop {
                 let p_ext = p_wrk + 2;
                 x.set_precision(p_ext, RoundingMode::None)?;
-- 
2.43.0


From 839ac7ef4c4a9e8fcb92dd34c994903b1a26f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 24/28] fix: reserve memory before growing the caches of powers
 of ten and of polynomial coefficients

---
 astro-float-num/src/mantissa/conv.rs | 2 ++
 astro-float-num/src/ops/series.rs    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..af63f7d 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -101,6 +101,7 @@ impl Mantissa {
             let mut wb2 = WordBuf::new(1)?;
             wb2[0] = 10;
 
+            tenpowers.try_reserve(1)?;
             tenpowers.push((wb, wb2, shift));
         }
 
@@ -119,6 +120,7 @@ impl Mantissa {
 
                 let shift = Self::maximize(&mut wb);
 
+                tenpowers.try_reserve(1)?;
                 tenpowers.push((wb, wb2, shift));
             }
         }
diff --git a/astro-float-num/src/ops/series.rs b/astro-float-num/src/ops/series.rs
index 0a95814..54792f8 100644
--- a/astro-float-num/src/ops/series.rs
+++ b/astro-float-num/src/ops/series.rs
@@ -327,6 +327,7 @@ fn series_horner<T: PolycoeffGen>(
         let coeff = polycoeff_gen.next(RoundingMode::None)?;
         coef_p = -coeff.exponent() as isize;
         x_p += -x_step.exponent() as isize;
+        cache.try_reserve(1)?;
         cache.push(coeff.clone()?);
     }
 
-- 
2.43.0


From 4333a55fd1bb10f14cb2e041ae52242109a8ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 25/28] fix: report failed allocations when formatting instead
 of replacing the text or aborting

---
 astro-float-num/src/ext.rs | 47 +++++++-------------------------------
 1 file changed, 8 insertions(+), 39 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index d617661..0d7d8ba 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -14,9 +14,6 @@ use crate::Word;
 use core::num::FpCategory;
 use lazy_static::lazy_static;
 
-#[cfg(feature = "std")]
-use core::fmt::Write;
-
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
 
@@ -656,36 +653,6 @@ impl BigFloat {
         }
     }
 
-    #[cfg(feature = "std")]
-    pub(crate) fn write_str<T: Write>(
-        &self,
-        w: &mut T,
-        rdx: Radix,
-        rm: RoundingMode,
-        cc: &mut Consts,
-    ) -> Result<(), core::fmt::Error> {
-        match &self.inner {
-            Flavor::Value(v) => match v.format(rdx, rm, cc) {
-                Ok(s) => w.write_str(&s),
-                Err(e) => match e {
-                    Error::ExponentOverflow(s) => {
-                        if s.is_positive() {
-                            w.write_str("Inf")
-                        } else {
-                            w.write_str("-Inf")
-                        }
-                    }
-                    _ => w.write_str("Err"),
-                },
-            },
-            Flavor::Inf(sign) => {
-                let s = if sign.is_negative() { "-Inf" } else { "Inf" };
-                w.write_str(s)
-            }
-            crate::ext::Flavor::NaN(_) => w.write_str("NaN"),
-        }
-    }
-
     /// Formats the number using radix `rdx` and rounding mode `rm`.
     /// Note, since hexadecimal digits include the character "e", the exponent part is separated
     /// from the mantissa by "_".
@@ -707,7 +674,7 @@ impl BigFloat {
                             "-Inf"
                         }
                     }
-                    _ => "Err",
+                    e => return Err(e),
                 },
             },
             Flavor::Inf(sign) => {
@@ -1640,12 +1607,14 @@ macro_rules! impl_format_rdx {
             /// The implementation is not available in no_std environment.
             fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
                 // the writer can format other numbers, so the cache must be released before writing
-                let mut buf = String::new();
-                crate::common::consts::TENPOWERS.with(|tp| {
+                let s = crate::common::consts::TENPOWERS.with(|tp| {
                     let cc = &mut tp.borrow_mut();
-                    self.write_str(&mut buf, $rdx, RoundingMode::ToEven, cc)
-                })?;
-                f.write_str(&buf)
+                    self.format($rdx, RoundingMode::ToEven, cc)
+                });
+                match s {
+                    Ok(s) => f.write_str(&s),
+                    Err(_) => f.write_str("Err"),
+                }
             }
         }
     };
-- 
2.43.0


From 8e526b1786c2e55e3db10548464dd39d136119b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 26/28] fix: reserve memory before extending the digits of a
 decimal subnormal

---
 astro-float-num/src/conv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index faabea0..63049e4 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -499,6 +499,7 @@ impl BigFloatNumber {
 
                         let rsz = if digits.len() > n { n } else { digits.len() };
 
+                        digits.try_reserve(e_subn)?;
                         digits.resize(rsz + e_subn, 0);
                         digits[rsz..].fill(0);
                         digits.rotate_right(e_subn);
-- 
2.43.0


From 9711698e983e395fb7bae2b20503ff16373e11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 27/28] fix: zero written with a large exponent is parsed as
 zero

---
 astro-float-num/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..35c7120 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -138,7 +138,11 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
             parser_state.e = parser_state.e.saturating_add(int_len as isize);
         }
 
-        if parser_state.e < EXPONENT_MIN as isize {
+        if parser_state.e < EXPONENT_MIN as isize
+            || (parser_state.e > EXPONENT_MAX as isize
+                && parser_state.mantissa_bytes.iter().all(|&d| d == 0))
+        {
+            // the number is too small, or it consists of zeroes only
             let mut zero = Vec::new();
             zero.try_reserve_exact(1)?;
             zero.push(0);
-- 
2.43.0


From d83daeab242c66dc35b19b848ec54bcbadca8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 28/28] fix: decimal conversion keeps zero digits inside a
 number

---
 astro-float-num/src/mantissa/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index af63f7d..efac755 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -71,7 +71,7 @@ impl Mantissa {
             let mut q = Mantissa::from_word_buf(q);
             let mut r = Mantissa::from_word_buf(r);
 
-            if q.is_zero() {
+            if q.is_zero() && most_significant {
                 let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
 
                 Ok(part1)
-- 
2.43.0

