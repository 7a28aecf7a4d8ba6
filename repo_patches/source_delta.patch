From 5ac95405fae9be7c883e748c4c3ba966edae36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:00 +0000
Subject: [PATCH 01/18] hook: make the numeric traits public under --cfg
 rustnomial_sim

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f836de..74108d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,7 +15,11 @@ mod macros;
 mod strings;
 
 pub mod err;
+#[cfg(not(rustnomial_sim))]
 mod numerics;
+// Simulation builds (`--cfg rustnomial_sim`) may implement these traits for their own types.
+#[cfg(rustnomial_sim)]
+pub mod numerics;
 mod polynomial;
 pub mod terms;
 
-- 
2.43.0


From a4e1e9fc6b9f2c8810af3283d6733de2b36e01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:26 +0000
Subject: [PATCH 02/18] fix: dense division and remainder always terminate

Rem read its next leading term from self instead of the remainder, and div_mod,
Rem and RemAssign looped for ever when division in N truncates or rounds.
---
 src/polynomial/polynomial.rs | 72 +++++++++---------------------------
 1 file changed, 18 insertions(+), 54 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..c3d8ae6 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -500,8 +500,24 @@ where
 
         while self_degree >= rhs_deg {
             let scale = coeff / rhs_first;
+            // Division in N may truncate: what is left can not be divided any further.
+            if scale.is_zero() {
+                break;
+            }
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
+
+            // Division in N may be inexact: a residue which is again a multiple of the
+            // divisor's leading term is a rounding error, and has to be dropped to make progress.
+            let leading = remainder.len() - self_degree - 1;
+            let residue = remainder[leading];
+            if !residue.is_zero() {
+                if (residue / rhs_first).is_zero() {
+                    break;
+                }
+                remainder[leading] = zero;
+            }
+
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
@@ -533,35 +549,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: Polynomial<N>) -> Polynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return self.clone(),
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return self.clone();
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms.clone();
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        Polynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -571,31 +559,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: Polynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return,
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From 3af9076a6b0578988c563ef5a0dfa8f298c0baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:48 +0000
Subject: [PATCH 03/18] fix: sparse division aligns the divisor and always
 terminates

div_mod, Rem and RemAssign subtracted the divisor without shifting it to the
leading term, put every quotient term at the same degree, and looped for ever
when division in N truncates or rounds.
---
 src/polynomial/sparsepolynomial.rs | 117 ++++++++++-------------------
 1 file changed, 39 insertions(+), 78 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..31708e1 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,24 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
-    N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
+/// Subtracts `rhs * rhs_scale * x^rhs_shift` from `lhs`.
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_shift: usize,
+    rhs_scale: N,
+) where
+    N: Copy + Zero + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
     for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+        if rcoeff.is_zero() {
+            continue;
+        }
+
+        let rdeg = rdeg + rhs_shift;
+        match lhs.get_mut(&rdeg) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -522,7 +532,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return (
                     SparsePolynomial::zero(),
@@ -536,23 +546,38 @@ where
                         SparsePolynomial::new(self.terms.clone()),
                     );
                 }
-                (term / rhs_first, degree)
+                (term, degree)
             }
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            let scale = coeff / rhs_first;
+            // Division in N may truncate: what is left can not be divided any further.
+            if scale.is_zero() {
+                break;
+            }
+            let shift = self_degree - rhs_deg;
+            map_sub_w_scale(&mut remainder, &rhs.terms, shift, scale);
+            div.add_term(scale, shift);
+
+            // Division in N may be inexact: a residue which is again a multiple of the
+            // divisor's leading term is a rounding error, and has to be dropped to make progress.
+            if let Some(&residue) = remainder.get(&self_degree) {
+                if !residue.is_zero() && (residue / rhs_first).is_zero() {
+                    break;
+                }
+                remainder.remove(&self_degree);
+            }
+
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(coeffx, degree) => {
+                    coeff = coeffx;
                     self_degree = degree;
                 }
             }
@@ -577,41 +602,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: SparsePolynomial<N>) -> SparsePolynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return SparsePolynomial::new(self.terms.clone());
-            }
-            Term::Term(term, degree) => {
-                if degree < rhs_deg {
-                    return SparsePolynomial::new(self.terms.clone());
-                }
-                (term / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms;
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            match first_term(&remainder) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        SparsePolynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -628,37 +619,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: SparsePolynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide polynomial by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return;
-            }
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From 41a34276d27c4ee8d574e1bce277ac13f9cb8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:53 +0000
Subject: [PATCH 04/18] fix: multiplying or squaring zero polynomials no longer
 panics

---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index c3d8ae6..dac78db 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if rhs.is_empty() || lhs.is_empty() {
+        return vec![];
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From aecf076b58dfced63cb4bb3682218faf51357d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 05/18] fix: shifting out a polynomial with leading zeros no
 longer panics

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index dac78db..4130865 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -890,7 +890,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From e5f24211c104b2caf1e210cc1a4b8e99e9d7a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:02 +0000
Subject: [PATCH 06/18] fix: a panicking negation in -= no longer moves terms
 to other degrees

---
 src/polynomial/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4130865..8594931 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -696,11 +696,13 @@ where
         if rhs.terms.len() > self.terms.len() {
             let offset = rhs.terms.len() - self.terms.len();
             let (right, left) = rhs.terms.split_at(offset);
+            // If negation panicked inside of splice, the terms would end up at wrong degrees.
+            let negated: Vec<N> = right.iter().map(|coeff| -*coeff).collect();
             self.terms
                 .iter_mut()
                 .zip(left)
                 .for_each(|(lhs, &rhs)| *lhs = *lhs - rhs);
-            self.terms.splice(0..0, right.iter().map(|coeff| -*coeff));
+            self.terms.splice(0..0, negated);
         } else {
             let offset = self.terms.len() - rhs.terms.len();
             self.terms[offset..]
-- 
2.43.0


From 080a19bbf9277c61c6e4c96685b4c283e2229ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:41 +0000
Subject: [PATCH 07/18] fix: evaluation ignores stored zero coefficients

A stored zero of a high degree made eval overflow, and turned the result into
NaN where the power is infinite.
---
 src/polynomial/monomial.rs         | 5 ++++-
 src/polynomial/polynomial.rs       | 2 +-
 src/polynomial/sparsepolynomial.rs | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..3be76b8 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,6 +176,9 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
+        if self.coefficient.is_zero() {
+            return N::zero();
+        }
         self.coefficient * point.upow(self.deg)
     }
 }
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 8594931..b4f6e80 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -354,7 +354,7 @@ where
             // the same number of adds, and
             // n - 1 multiplies vs 2n muls.
             let mut sum = N::zero();
-            for &val in first.iter() {
+            for &val in first[first_nonzero_index(first)..].iter() {
                 sum += val;
                 sum *= point;
             }
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 31708e1..95fce3b 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -384,7 +384,9 @@ where
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
         for (&degree, &val) in self.terms.iter() {
-            sum += val * point.upow(degree);
+            if !val.is_zero() {
+                sum += val * point.upow(degree);
+            }
         }
         sum
     }
-- 
2.43.0


From 2f14d80b7cdbce7dcde5b1c7c3c3daa44576aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:45 +0000
Subject: [PATCH 08/18] fix: the sparse integral ignores stored zero
 coefficients

It panicked if the degree of a zero coefficient is not representable in N.
---
 src/polynomial/sparsepolynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 95fce3b..aa81135 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -452,6 +452,9 @@ where
     fn integral(&self) -> Integral<N, SparsePolynomial<N>> {
         let mut new_terms = BTreeMap::new();
         for (&deg, &coeff) in self.terms.iter() {
+            if coeff.is_zero() {
+                continue;
+            }
             new_terms.insert(
                 deg + 1,
                 coeff
-- 
2.43.0


From 90831b07dd744fbbba16c44876302a8b9fadd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:49 +0000
Subject: [PATCH 09/18] fix: the dense derivative only needs the degree itself
 to be representable

---
 src/polynomial/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index b4f6e80..520076a 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -383,8 +383,6 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
-            .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
                 terms.to_vec()
@@ -392,9 +390,11 @@ where
                 return Polynomial::zero();
             }
         };
+        let mut degree = N::try_from_usize_cont(terms.len())
+            .expect("Degree has no lossless representation in N.");
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From 5905b0551113a674679781fc4e3d23de8b67d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:26 +0000
Subject: [PATCH 10/18] fix: powers with exponents beyond u32 and i32 are not
 truncated

---
 src/numerics.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..4fb9a6c 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -1,3 +1,5 @@
+use core::convert::TryFrom;
+
 use num::{One, Zero};
 
 pub trait IsNegativeOne {
@@ -89,7 +91,10 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                match u32::try_from(exp) {
+                    Ok(exp) => self.pow(exp),
+                    Err(_) => num::pow(self, exp),
+                }
             }
         }
     };
@@ -110,13 +115,19 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        match i32::try_from(exp) {
+            Ok(exp) => self.powi(exp),
+            Err(_) => num::pow(self, exp),
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        match i32::try_from(exp) {
+            Ok(exp) => self.powi(exp),
+            Err(_) => num::pow(self, exp),
+        }
     }
 }
 
-- 
2.43.0


From d9bdfd4c9a7b1efa11a3be7a7193602ce82d9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:39 +0000
Subject: [PATCH 11/18] fix: poly_add! and poly_sub! stop at the first rejected
 term

The remaining polynomials were still added to or subtracted from the sink.
---
 src/polynomial/poly_math.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..2ac0101 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -19,15 +19,14 @@ macro_rules! poly_add {
     ($sink:expr; $($x:expr),*) => {{
         use $crate::poly_math::add_poly;
 
-        let res: Result<Vec<_>, _> = vec![
-            $(add_poly($x.ordered_term_iter(), &mut $sink)),*
-        ].into_iter().collect();
-
-        if let Err(x) = res {
-            Err(x)
-        } else {
-            Ok(())
-        }
+        let res: Result<(), $crate::TryAddError> = Ok(());
+        $(
+            let res = match res {
+                Ok(()) => add_poly($x.ordered_term_iter(), &mut $sink),
+                err => err,
+            };
+        )*
+        res
     }};
 }
 
@@ -160,15 +159,14 @@ macro_rules! poly_sub {
     ($sink:expr; $($x:expr ),*) => {{
         use $crate::poly_math::sub_poly;
 
-        let res: Result<Vec<_>, _> = vec![
-            $(sub_poly($x.ordered_term_iter(), &mut $sink)),*
-        ].into_iter().collect();
-
-        if let Err(x) = res {
-            Err(x)
-        } else {
-            Ok(())
-        }
+        let res: Result<(), $crate::TryAddError> = Ok(());
+        $(
+            let res = match res {
+                Ok(()) => sub_poly($x.ordered_term_iter(), &mut $sink),
+                err => err,
+            };
+        )*
+        res
     }};
 }
 
-- 
2.43.0


From ecc27cb19b7db2c88f94c5a3646542b9756b91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 12/18] fix: poly_sub! does not silently drop terms it can not
 subtract

With unsigned coefficients, a term which the left-hand side does not have ended
the subtraction, and the unfinished difference was returned.
---
 src/polynomial/poly_math.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 2ac0101..cb91b40 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -152,7 +152,9 @@ macro_rules! poly_sub {
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
         let _ = poly_add!(sink; $lhs);
-        let _ = poly_sub!(sink; $($x),*);
+        if poly_sub!(sink; $($x),*).is_err() {
+            panic!("A term can not be negated in this coefficient type.");
+        }
         sink
     }};
     // sink -= (x_0 + x_1 + ... + x_z)
-- 
2.43.0


From 7dc78bc6ba0f69b53bf428a695a377a33638d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:31 +0000
Subject: [PATCH 13/18] fix: formatting the smallest signed coefficient no
 longer overflows

---
 src/strings.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..e375802 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -1,8 +1,9 @@
 use core::fmt;
+use core::fmt::Write;
 
 use num::One;
 
-use crate::numerics::{Abs, IsNegativeOne, IsPositive};
+use crate::numerics::{IsNegativeOne, IsPositive};
 
 macro_rules! fmt_poly {
     ($T:ident) => {
@@ -89,20 +90,41 @@ where
     }
 }
 
+/// Passes on everything except for a leading minus sign.
+struct WithoutSign<'a, 'b> {
+    f: &'a mut fmt::Formatter<'b>,
+    started: bool,
+}
+
+impl fmt::Write for WithoutSign<'_, '_> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        let rest = if self.started {
+            s
+        } else {
+            s.trim_start_matches('-')
+        };
+        self.started |= !s.is_empty();
+        self.f.write_str(rest)
+    }
+}
+
+/// Writes the absolute value of `coeff`, which does not need to be representable.
+fn write_abs<N: fmt::Display>(f: &mut fmt::Formatter, coeff: N) -> fmt::Result {
+    write!(WithoutSign { f, started: false }, "{}", coeff)
+}
+
 pub(crate) fn write_trailing_term<N>(f: &mut fmt::Formatter, coeff: N, degree: usize) -> fmt::Result
 where
-    N: fmt::Display + One + IsPositive + PartialEq + Copy + Abs,
+    N: fmt::Display + One + IsPositive + PartialEq + Copy + IsNegativeOne,
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
-
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write_abs(f, coeff);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if !coeff.is_one() && !coeff.is_negative_one() {
+        write_abs(f, coeff)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From 40dcd407631931f89d1373405d02a544785b3786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:35 +0000
Subject: [PATCH 14/18] fix: digits between x and ^ are not read as part of the
 degree

---
 src/terms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..b42a797 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -81,6 +81,10 @@ where
                     if !seen_x {
                         return Err(TermFromStringError::CaretWithoutXInFront);
                     }
+                    // Digits between x and ^ do not belong to the degree.
+                    if !num_vec.is_empty() {
+                        return Err(TermFromStringError::DegreeCouldNotBeParsed);
+                    }
                     seen_caret = true;
                 }
                 _ => {
-- 
2.43.0


From 341d11af964b13547003358ecf91a9d8f0af7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 15/18] fix: degrees that round up to 2^64 are not exact as f32
 or f64

usize::MAX as f64 is 2^64; casting it back saturates to usize::MAX, so the
round trip looked exact and derivative/integral used a rounded degree.
---
 src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 4fb9a6c..dc05296 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -447,7 +447,7 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -458,7 +458,7 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From 9d2f07814905999441cabf3edbb518b0282a5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 16/18] fix: root finding looped for ever on infinite
 coefficients

---
 src/polynomial/find_roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..6a60640 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -136,7 +136,8 @@ fn div<
     while self_degree >= 1 {
         let scale = coeff / rhs_first;
         let loc = values.len() - self_degree - 1;
-        values[loc] -= rhs_first * scale;
+        // Not subtracted: an infinite coefficient would never cancel.
+        values[loc] = zero;
         values[loc + 1] += root * scale;
         div[offset - self_degree] = scale;
         match first_term(&values) {
-- 
2.43.0


From 6fb82277820f6fe41ee0cf53d91e4120db3435ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 17/18] fix: Term::from_str read a sum such as 3x + 2 as the
 single term 3x^2

---
 src/terms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/terms.rs b/src/terms.rs
index b42a797..65f574a 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -54,6 +54,10 @@ where
                 ' ' | ',' | '_' => {}
                 // Assume that number parser handles +, -, .'s if they shouldn't
                 // be there.
+                // A sign behind x starts another term, it does not belong to a degree.
+                '+' | '-' if seen_x && !seen_caret => {
+                    return Err(TermFromStringError::DegreeCouldNotBeParsed);
+                }
                 '+' | '-' | '.' | '0'..='9' => num_vec.push(c),
                 'x' => {
                     if seen_x {
-- 
2.43.0


From 96ea0cf343fe04154cfd94c844c765e222b62859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:26 +0000
Subject: [PATCH 18/18] fix: subtracting a zero term from an unsigned
 Polynomial was rejected

---
 src/polynomial/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 520076a..8ac03f7 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -248,6 +248,10 @@ where
     }
 
     fn try_sub_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
+        if coeff.is_zero() {
+            return Ok(());
+        }
+
         if self.terms.len() < degree + 1 {
             if !N::can_negate() {
                 return Err(TryAddError::CanNotNegate);
-- 
2.43.0

