From 4580da657242494a46ec9e87058430c8194617ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/17] fix: products and quotients of polynomials must not
 keep zero coefficients

---
 src/polynomial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..09fb834 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
@@ -154,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
-- 
2.43.0


From 24901b475f945455f74f31fb27fd940c329e4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 02/17] fix: adding terms must not leave zero coefficients in
 the polynomial

---
 src/polynomial.rs | 2 +-
 src/term.rs       | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 09fb834..2fbbc9b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
diff --git a/src/term.rs b/src/term.rs
index e39847d..538a691 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -35,12 +35,8 @@ impl One for Term {
 }
 
 impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
-    let mut pol = a.clone().to_pol();
-    if let Some(av) = pol.terms.get_mut(&b.monomial) {
-        *av += b.coef.clone(); 
-    } else {
-        pol.terms.insert(b.monomial, b.coef.clone());
-    }
+    let mut pol = a.to_pol();
+    pol += b;
     pol
 });
 
-- 
2.43.0


From 4e0207e1522e706251120cce0778550514f670ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 03/17] fix: power maps that send several monomials to the same
 one must add their coefficients

---
 src/polynomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 2fbbc9b..037e12c 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -506,8 +506,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_frob(n);
         }
         pol
     }
@@ -517,8 +516,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_y_power(n);
         }
         pol
     }
@@ -528,8 +526,7 @@ impl Polynomial {
         let mut pol = Polynomial::new();
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
-            let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u.to_q_power(n);
         }
         pol
     }
-- 
2.43.0


From e0b1b0c6ddf7c492ba6a09e4891b87109c778ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/17] fix: modular 0-th power is 1 (mod p)

---
 src/bigint.rs     | 2 +-
 src/polynomial.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..b499852 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -68,7 +68,7 @@ impl Power<i32> for BigInt {
 impl PowerModulo for BigInt {
     fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         if n == &Zero::zero() {
-            return One::one();
+            return BigInt::from(1).mod_floor(p);
         }
         let mut e = n.clone();
         let mut b = self.clone();
diff --git a/src/polynomial.rs b/src/polynomial.rs
index 037e12c..803866a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -326,6 +326,9 @@ impl Polynomial {
 
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         assert!(*n >= Zero::zero());
+        if n.is_zero() {
+            return &Polynomial::one() % p;
+        }
         let mut b = self % p;
         let mut r: Polynomial = One::one();
         let mut e = n.clone();
-- 
2.43.0


From 7146a7ec9e3188890d787996b09382838d637673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 05/17] fix: polynomial remainder by a constant must terminate,
 gcd must handle coprime, zero and unreduced arguments

---
 src/polynomial.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 803866a..02ed585 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -360,11 +360,13 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = &(other % p);
+        assert!(!other.is_zero(), "division by zero polynomial");
         let oh = other.highest_term_x();
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
@@ -446,11 +448,15 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m.is_one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-        let s = self.highest_term_x();
+        let other = &(other % p);
+        if other.is_zero() {
+            return self.to_monic(p);
+        }
+        let s = (self % p).highest_term_x();
         let o = other.highest_term_x();
         if s.xpow() < o.xpow() {
             return other.gcd(self, p);
@@ -463,12 +469,13 @@ impl Polynomial {
     }
 
     pub fn to_monic(&self, p: &BigInt) -> Polynomial {
-        if self.is_zero() {
-            return self.clone();
+        let mut pol = self % p;
+        if pol.is_zero() {
+            return pol;
         }
-        let s = self.highest_term_x();
+        let s = pol.highest_term_x();
         let inv = s.coef.inverse(p);
-        let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
+        pol = pol * term_builder::TermBuilder::new().coef(&inv).build();
         pol.modular_assign(p);
         pol
     }
-- 
2.43.0


From 4cc51863d2be02f703c315b4fea9f5d76776f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 06/17] fix: P + O must be P

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 6d9f268052f88682cb38b1313021338908dda1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 07/17] fix: multiplication by a negative scalar must negate
 the point

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From 6899b36847019b17e2550122141198f6b54b8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/17] fix: enumerating the points again must not duplicate
 them

---
 src/elliptic_curve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..e7f9442 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -147,6 +147,7 @@ impl EllipticCurve {
 
     /// create rational points 
     pub fn create_points(&mut self) {
+        self.points.clear();
         for x in num_iter::range(BigInt::from(0), self.p.clone()) {
             let xpol = x.power(3)
                 + self.a.clone() * x.clone()
-- 
2.43.0


From c3caf5cf653845a769394da94afa5a766473cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/17] fix: isogeny must follow Velu's formulas modulo p

---
 src/elliptic_curve.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index e7f9442..746f8c9 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -233,23 +233,21 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
+                // sums over all points: P and -P share vp, and each adds half of up = (2 y)^2
+                let vp = (BigInt::from(3) * point.x.power(2) + &self.a).mod_floor(&self.p);
+                let half_up = (BigInt::from(2) * point.y.power(2)).mod_floor(&self.p);
                 v += vp.clone();
-                w += up + point.x * vp;
+                w += half_up + point.x * vp;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        v = v.mod_floor(&self.p);
+        w = w.mod_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From 79e03474cd8d374d1c49eeca13f7d6576c9b479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 10/17] fix: back substitution must normalize the first row too

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From 6061189099714b974007459fc8fd9f07ff2661cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 11/17] fix: an index beyond 32 bits must not wrap to a valid
 unknown

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From 662ba4ec782876ae82f0011f393c7bff08197b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 12/17] fix: schoof must use 2 x1 + x2 (not 2 x1 - x2) when it
 decides the sign of the trace

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 1a9d10fa267e5097ba95aab12ed02c35223a4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 13/17] fix: schoof must not take the x test as passed when
 frobenius^2 = +-q on the whole l-torsion

---
 src/schoof.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..753d3f1 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -88,7 +88,12 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
 
         let mut found = false;
         let mut jj: i32 = Zero::zero();
+        // den1 = 0 on all l-torsion points: addition formula does not apply, to (d).
+        let is_degenerate = den1.polynomial_modular(&psi_l, &qq).is_zero();
         for j in num_iter::range(1, jmax + 1) {
+            if is_degenerate {
+                break;
+            }
             println!("{} j:{}", line!(), j);
             // x
             let num2 = division_polynomial::phi(a, b, j).to_frob(q);
@@ -200,7 +205,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
+                let p14 = &division_polynomial::psi(a, b, l) % q;
 
                 let qq = BigInt::from(q);
                 let p15 = p13.polynomial_modular(&p14, &qq);
@@ -210,12 +215,13 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
+                    let mut p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
                     p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
                     let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
-- 
2.43.0


From 687a8814fc6cc71ba098b639d0380814ffd780f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 14/17] fix: polynomial remainder must keep the unknown of the
 term it cancels (it did not terminate)

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 02ed585..28eaf87 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -374,6 +374,7 @@ impl Polynomial {
                     .xpow(rh.xpow() - oh.xpow())
                     .ypow(rh.ypow())
                     .qpow(rh.qpow())
+                    .variable(rh.variable())
                     .build();
             q.modular_assign(&p);
             let mut d = q * other;
-- 
2.43.0


From b7781d80d3fca885d87ad4a99e7b7d7563dc3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 15/17] fix: truncating a q-series at the largest order keeps
 every term

---
 src/polynomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 28eaf87..c400f63 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -680,7 +680,10 @@ impl Polynomial {
         let m = term::Monomial {
             xpow: 0,
             ypow: 0,
-            qpow: order + 1,
+            qpow: match order.checked_add(1) {
+                Some(qpow) => qpow,
+                None => return, // no exponent is higher
+            },
             variable: subscripted_variable::SubscriptedVariable::new(),
         };
         self.terms.split_off(&m);
-- 
2.43.0


From fa0bc960f251a25c0ef68a9eaa5b233f9a2277b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 16/17] fix: the divisor sum of 2^31 - 1 overflowed its loop
 bound

---
 src/divisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divisor.rs b/src/divisor.rs
index cd899e5..8825155 100644
--- a/src/divisor.rs
+++ b/src/divisor.rs
@@ -12,7 +12,7 @@ pub fn sigma_divisor(n: i32, power: i32) -> BigInt {
         return Zero::zero();
     }
     let mut sum: BigInt = Zero::zero();
-    for i in num_iter::range(1, n + 1) {
+    for i in num_iter::range_inclusive(1, n) {
         if n % i == Zero::zero() {
             sum += BigInt::from(i).power(power);
         }
-- 
2.43.0


From 32ae13b53f879f09d441c4956a6815422747e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 17/17] fix: powers of terms with exponents beyond an i32

Term::power and Term::power_modulo converted n itself to an i32 and panicked
for n >= 2^31 even when the resulting exponents are 0, as for 1^(2^31).
---
 src/term.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/term.rs b/src/term.rs
index 538a691..250bb8c 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -82,6 +82,11 @@ impl_op_ex!(- |a: &Term| -> Term {
         .build()
 });
 
+/// exponent * n, where n may be larger than an i32 if the exponent is 0
+fn multiply_exponent(exponent: i32, n: &BigInt) -> i32 {
+    (n * exponent).to_i32().unwrap()
+}
+
 /// Term ^ n
 impl Power<i32> for Term {
     fn power(&self, n: i32) -> Self {
@@ -103,12 +108,11 @@ impl<'a> Power<&'a BigInt> for Term {
         if !self.variable().empty {
             panic!("can't power non zero variable!");
         }
-        let nn: i32 = n.to_i32().unwrap();
         term_builder::TermBuilder::new()
           .coef(self.coef.power(n))
-          .xpow(self.xpow() * nn)
-          .ypow(self.ypow() * nn)
-          .qpow(self.qpow() * nn)
+          .xpow(multiply_exponent(self.xpow(), n))
+          .ypow(multiply_exponent(self.ypow(), n))
+          .qpow(multiply_exponent(self.qpow(), n))
           .build()
     }
 }
@@ -201,12 +205,11 @@ impl Term {
 
     /// Term^n (mod p)
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
-        let nn = n.to_i32().unwrap();
         term_builder::TermBuilder::new()
             .coef(self.coef.power_modulo(n, p))
-            .xpow(self.xpow() * nn)
-            .ypow(self.ypow() * nn)
-            .qpow(self.qpow() * nn)
+            .xpow(multiply_exponent(self.xpow(), n))
+            .ypow(multiply_exponent(self.ypow(), n))
+            .qpow(multiply_exponent(self.qpow(), n))
             .variable(self.variable())
             .build()
     }
-- 
2.43.0

