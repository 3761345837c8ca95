From 92cb463e95c8f8defd5fe295e2097e6ed4b57865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 01/15] fix: dense polynomial % reads the remainder, not the
 dividend

Polynomial::rem re-read the leading term of the unchanged dividend in its
loop, so x^2 + 1 % x + 1 never terminated.
---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..138b3d4 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -552,7 +552,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
-- 
2.43.0


From 432d8d6318ca01f5bfc09bb0e5222594488afc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 02/15] fix: sparse division subtracts the divisor shifted to
 the leading term

SparsePolynomial div_mod, % and %= subtracted scale * divisor without
multiplying it by x^(deg - divisor_deg), and collected every quotient term at
one degree, so (x^2 - 1) / (x - 1) never terminated.
---
 src/polynomial/sparsepolynomial.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..b8da3f5 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,18 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_shift: usize,
+    rhs_scale: N,
+) where
     N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
     for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+        match lhs.get_mut(&(rdeg + rhs_shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + rhs_shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -541,12 +545,11 @@ where
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            map_sub_w_scale(&mut remainder, &rhs.terms, self_degree - rhs_deg, scale);
+            div.add_term(scale, self_degree - rhs_deg);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -599,7 +602,7 @@ where
         let mut remainder = self.terms;
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
+            map_sub_w_scale(&mut remainder, &rhs.terms, self_degree - rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -648,7 +651,7 @@ where
         };
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
+            map_sub_w_scale(&mut self.terms, &rhs.terms, self_degree - rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
                     break;
-- 
2.43.0


From 37aeab3eaa4827c9a796bfae4f41c492aaaffd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 03/15] fix: polynomial division stops and keeps its quotient
 when a step is inexact

When coeff / lead is rounded or truncated the leading term does not cancel.
The dense quotient term was then overwritten by the next, tiny one, and with a
zero quotient term every division looped forever: [5, 1] / [2] over i32 and
[1.0] / [49.0] over f64 never terminated. Accumulate the quotient term, and
stop at a zero one.
---
 src/polynomial/polynomial.rs       | 9 ++++++---
 src/polynomial/sparsepolynomial.rs | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 138b3d4..4fc9809 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -500,8 +500,11 @@ where
 
         while self_degree >= rhs_deg {
             let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                break;
+            }
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            div[offset - self_degree] = scale;
+            div[offset - self_degree] = div[offset - self_degree] + scale;
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
@@ -550,7 +553,7 @@ where
 
         let mut remainder = self.terms.clone();
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
@@ -586,7 +589,7 @@ where
             }
         };
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => break,
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index b8da3f5..17b64bd 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -547,7 +547,7 @@ where
         let mut remainder = self.terms.clone();
         let mut div = SparsePolynomial::from(Vec::new());
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut remainder, &rhs.terms, self_degree - rhs_deg, scale);
             div.add_term(scale, self_degree - rhs_deg);
             match first_term(&remainder) {
@@ -601,7 +601,7 @@ where
 
         let mut remainder = self.terms;
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut remainder, &rhs.terms, self_degree - rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
@@ -650,7 +650,7 @@ where
             }
         };
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut self.terms, &rhs.terms, self_degree - rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
-- 
2.43.0


From f5bbfc3fff80b929706e6e5f4ed88f929a425b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 04/15] fix: multiplying two zero dense polynomials no longer
 underflows

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4fc9809..cebad2d 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,7 +58,7 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
-    let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
+    let mut terms = vec![N::zero(); (rhs.len() + lhs.len()).saturating_sub(1)];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
             continue;
-- 
2.43.0


From ac0e560e2e1572fa024aabb875c187275c9ecb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 05/15] fix: dense >> no longer panics on leading zero terms

With terms [0, 0, 1], >> 2 sliced [2..1].
---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index cebad2d..2c08e7d 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -926,7 +926,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From 2ee4c0f861bc0f50140f944052eefd7001124bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 06/15] fix: complex_factors negates complex roots, as it does
 real ones

The factors of x^2 + 2x + 5 multiplied back to x^2 - 2x + 5.
---
 src/polynomial/trinomial.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..ff45ba4 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From 77cf7ed744988000f0b9bb4e2ed691b18a3de5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 07/15] fix: quadratic roots come largest first for a negative
 leading coefficient

The documented order was reversed: the roots of -x^2 + 4 were (-2, 2).
---
 src/polynomial/find_roots.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..b6733ad 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -54,6 +54,7 @@ where
     }
 
     let sqrt = discriminant.abs_sqrt() / a;
+    let sqrt = if a.is_positive() { sqrt } else { -sqrt };
     if discriminant.is_positive() {
         Roots::TwoRealRoots(b + sqrt, b - sqrt)
     } else {
-- 
2.43.0


From ea09771f80fcf79fc32d6cc8260b6ab8dbb2ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 08/15] fix: usize::MAX is not exactly representable as f32 or
 f64

The cast back saturates, so the round trip reported usize::MAX as exact.
---
 src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..982f9cf 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -436,7 +436,7 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -447,7 +447,7 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From dfb30108a275da02f25f35c55163db95b8b69af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 09/15] fix: powers above the i32 or u32 range are no longer
 truncated

x^(2^32) evaluated at 0 over i32 was 1, and x^(2^31) at 0.0 was infinite.
---
 src/numerics.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 982f9cf..7aab717 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow(self, exp)
             }
         }
     };
@@ -110,13 +110,21 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp > i32::MAX as usize {
+            num::pow(self, exp)
+        } else {
+            self.powi(exp as i32)
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp > i32::MAX as usize {
+            num::pow(self, exp)
+        } else {
+            self.powi(exp as i32)
+        }
     }
 }
 
-- 
2.43.0


From 674c51f5b7e1ebf4e99bb92805cd36660546d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 10/15] fix: displaying a trailing MIN coefficient no longer
 overflows

x - 128 over i8 panicked in abs().
---
 src/strings.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..d0400dd 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -95,14 +95,16 @@ where
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
+    // Drop the sign from the text: the magnitude of MIN does not fit in N.
+    let text = format!("{}", coeff);
+    let text = text.strip_prefix('-').unwrap_or(&text);
 
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write!(f, "{}", text);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if text != "1" {
+        write!(f, "{}", text)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From 55564888d5141771df9ba8130138500849841c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:11 +0000
Subject: [PATCH 11/15] verif hook: expose numeric traits under --cfg
 rustnomial_verif

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f836de..39ee4e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -33,3 +33,11 @@ pub use crate::polynomial::traits::{
 };
 pub use crate::polynomial::trinomial::QuadraticTrinomial;
 pub use crate::terms::{Degree, Term};
+
+/// Access to the numeric traits for the verification harness, in builds with
+/// `--cfg rustnomial_verif` only.
+#[cfg(rustnomial_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::numerics::*;
+}
-- 
2.43.0


From 84f97597da0c7c29e21b37d638835f434c27ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:44 +0000
Subject: [PATCH 12/15] fix: integer roots of integer quadratics are no longer
 truncated

---
 src/polynomial/find_roots.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index b6733ad..ca62e62 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,17 +47,19 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
 
     if discriminant.is_zero() {
+        let b = -b / a;
         return Roots::TwoRealRoots(b, b);
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
+    let sqrt = discriminant.abs_sqrt();
     let sqrt = if a.is_positive() { sqrt } else { -sqrt };
     if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+        // Divide the sum: over the integers, the two quotients need not be exact.
+        Roots::TwoRealRoots((-b + sqrt) / a, (-b - sqrt) / a)
     } else {
+        let (b, sqrt) = (-b / a, sqrt / a);
         Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
     }
 }
-- 
2.43.0


From 4b441aa4234cef33b897e03728bbbb8357c5232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:12 +0000
Subject: [PATCH 13/15] fix: roots of a cubic with three distinct real roots

The square root of the magnitude was taken where the quantity under the root is negative, so
[1, -7, 14, -8] (roots 1, 2, 4) got 2.72, 3.63 and 0.65.
---
 src/numerics.rs              | 11 +++++++++++
 src/polynomial/find_roots.rs | 11 +++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 7aab717..880336d 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -233,18 +233,29 @@ impl AbsSqrt for f64 {
 
 pub trait Cbrt {
     fn cbrt(self) -> Self;
+
+    /// The largest `y` with `4y^3 - 3y` equal to self, which has to lie between -1 and 1.
+    fn cos_third(self) -> Self;
 }
 
 impl Cbrt for f32 {
     fn cbrt(self) -> Self {
         self.cbrt()
     }
+
+    fn cos_third(self) -> Self {
+        (self.max(-1.0).min(1.0).acos() / 3.0).cos()
+    }
 }
 
 impl Cbrt for f64 {
     fn cbrt(self) -> Self {
         self.cbrt()
     }
+
+    fn cos_third(self) -> Self {
+        (self.max(-1.0).min(1.0).acos() / 3.0).cos()
+    }
 }
 
 pub trait CanNegate {
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index ca62e62..92ddb69 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -85,8 +85,15 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let k = sqr(q) + cub(r - sqr(p));
+    let x = if k.is_zero() || k.is_positive() {
+        let k = k.abs_sqrt();
+        (q + k).cbrt() + (q - k).cbrt() + p
+    } else {
+        // There are three distinct real roots, and no real square root of k.
+        let s = (r - sqr(p)).abs_sqrt();
+        N::from(2) * s * (q / cub(s)).cos_third() + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0


From b8ddd841dd107d54fbec2352bcd37bf9fb2584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:12 +0000
Subject: [PATCH 14/15] fix: roots of polynomials of degree four and more are
 not replaced by another integer root

---
 src/polynomial/find_roots.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 92ddb69..93afc50 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -264,7 +264,9 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
         for root in temp_roots {
             let root = {
                 let x = root.round();
-                if poly.eval(x).abs() < poly.eval(root).abs() {
+                // Only an integer that the root approximates: another root of the
+                // polynomial may be the nearest integer, up to half a unit away.
+                if (x - root).abs() < 1e-3 && poly.eval(x).abs() < poly.eval(root).abs() {
                     x
                 } else {
                     root
-- 
2.43.0


From d59dd55f7e4b911b65217007272f63b3dcf9eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:07 +0000
Subject: [PATCH 15/15] fix: shifting by i32::MIN no longer overflows

---
 src/polynomial/monomial.rs         | 14 ++++++++++----
 src/polynomial/polynomial.rs       | 14 ++++++++++----
 src/polynomial/sparsepolynomial.rs | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..3601742 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -503,7 +503,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // In two steps: -i32::MIN overflows.
+            (self >> -(rhs + 1)) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -513,7 +514,9 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -525,7 +528,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // In two steps: -i32::MIN overflows.
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -540,7 +544,9 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 2c08e7d..8f656ad 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -896,7 +896,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // In two steps: -i32::MIN overflows.
+            (self >> -(rhs + 1)) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -909,7 +910,9 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -921,7 +924,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // In two steps: -i32::MIN overflows.
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
@@ -939,7 +943,9 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 17b64bd..b14871b 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -906,7 +906,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // In two steps: -i32::MIN overflows.
+            (self >> -(rhs + 1)) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -921,7 +922,9 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -938,7 +941,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // In two steps: -i32::MIN overflows.
+            (self << -(rhs + 1)) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -955,7 +959,9 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // In two steps: -i32::MIN overflows.
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0

