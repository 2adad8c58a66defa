From 6d1e24629e27083727aebd056b2cbe30efe8eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 01/11] fix: P + O returns P, not a point at infinity

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 25a7373f04eaac328e5839a06def1711afe82913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 02/11] fix: a negative multiple of a point is the negative of
 the positive multiple

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From fa5f786a4ece48dc3b0ae42bafb1ebd1c799c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 03/11] fix: rebuilding a curve's point list replaces the old
 list

---
 src/elliptic_curve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..e7f9442 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -147,6 +147,7 @@ impl EllipticCurve {
 
     /// create rational points 
     pub fn create_points(&mut self) {
+        self.points.clear();
         for x in num_iter::range(BigInt::from(0), self.p.clone()) {
             let xpol = x.power(3)
                 + self.a.clone() * x.clone()
-- 
2.43.0


From c5a9841c96bf5269ed1195b42cf5f9705a46c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 04/11] fix: products keep no terms whose coefficients
 cancelled to zero

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..3266fad 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
-- 
2.43.0


From a2e5898f6e812e8773bee0bc2bab148df99c72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 05/11] fix: adding a term stores no term of coefficient zero

---
 src/polynomial.rs | 2 +-
 src/term.rs       | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 3266fad..090caa9 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
diff --git a/src/term.rs b/src/term.rs
index e39847d..7138267 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -38,7 +38,10 @@ impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
     let mut pol = a.clone().to_pol();
     if let Some(av) = pol.terms.get_mut(&b.monomial) {
         *av += b.coef.clone(); 
-    } else {
+        if av.is_zero() {
+            pol.terms.remove(&b.monomial);
+        }
+    } else if !b.coef.is_zero() {
         pol.terms.insert(b.monomial, b.coef.clone());
     }
     pol
-- 
2.43.0


From b4ac2bff1cf93e2a027e9e7249cf7eb714ffc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 06/11] fix: reduction modulo a constant polynomial ends, and
 so does gcd of coprime polynomials

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 090caa9..691cb7e 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -359,7 +359,7 @@ impl Polynomial {
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
-- 
2.43.0


From 8090e4b66d7f4ce8dc4d80c344b7865fb3afaa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 07/11] fix: gcd with the zero polynomial ends

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 691cb7e..d11a677 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -450,6 +450,9 @@ impl Polynomial {
         if s.xpow() < o.xpow() {
             return other.gcd(self, p);
         }
+        if other.is_zero() {
+            return self.to_monic(p);
+        }
         let r = self.polynomial_modular(other, p);
         if r.is_zero() {
             return other.to_monic(p);
-- 
2.43.0


From 0dca278fcd7cd0881a303f85260e4663b062a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 08/11] fix: progress lines that cannot be printed do not abort
 Chinese remaindering and point counting

---
 src/bigint.rs   |  2 +-
 src/lib.rs      |  1 +
 src/progress.rs |  7 +++++++
 src/schoof.rs   | 30 +++++++++++++++---------------
 4 files changed, 24 insertions(+), 16 deletions(-)
 create mode 100644 src/progress.rs

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..cd6009b 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -129,7 +129,7 @@ pub fn chinese_remainder(mod_result: &Vec<ModResult>) -> ModResult {
         let (_, p, _) = extended_gcd(l.clone(), res.l.clone());
         r += (res.r.clone() - r.clone()) * l.clone() * p;
         l *= res.l.clone();
-        println!("r:{} l:{}", r, l);
+        progress!("r:{} l:{}", r, l);
     }
     ModResult { l, r }
 }
diff --git a/src/lib.rs b/src/lib.rs
index c77a1bc..afd47f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #[macro_use] extern crate impl_ops;
 #[macro_use] mod assert_eq_str;
+#[macro_use] mod progress;
 
 pub mod bigint;
 pub mod term;
diff --git a/src/progress.rs b/src/progress.rs
new file mode 100644
index 0000000..8a8e00b
--- /dev/null
+++ b/src/progress.rs
@@ -0,0 +1,7 @@
+/// Prints a progress line; a standard output that cannot take it is no reason to fail.
+macro_rules! progress {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..b8b7cd0 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -21,7 +21,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
     let mut mod_result: Vec<bigint::ModResult> = Vec::new();
     // l = 2
     let l: BigInt = 2.into();
-    println!("{} l:{}", line!(), l);
+    progress!("{} l:{}", line!(), l);
     let pol_l2 = TermBuilder::new().xpow(q).build() - TermBuilder::new().xpow(1).build();
     let pol_standard = TermBuilder::new().xpow(3).build() + 
                 TermBuilder::new().coef(a).xpow(1).build() +
@@ -35,19 +35,19 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         j2 = Zero::zero();
     }
     mod_result.push(bigint::ModResult { l: l.clone(), r: j2.clone() });
-    println!("a = {} mod 2", j2); 
+    progress!("a = {} mod 2", j2); 
 
     // l >= 3
     // TODO:
     for l in vec![3i32, 5i32] {
-        println!("{} l:{}", line!(), l);
+        progress!("{} l:{}", line!(), l);
         let ql: i32 = q.mod_floor(&l).to_i32().unwrap();
         if l >= q {
             break;
         }
-        println!("q:{} l:{} ql:{}", q, l, ql);
+        progress!("q:{} l:{} ql:{}", q, l, ql);
         let jmax: i32 = (l-1) / 2;
-        println!("j:[1, {}]", jmax);
+        progress!("j:[1, {}]", jmax);
 
         // (b) x'
         let nn1 = division_polynomial::omega(a, b, ql);
@@ -84,12 +84,12 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         let den1 = den1.reduction_modular(a, b, q);
 
         let psi_l = &division_polynomial::psi(a, b, l) % q;
-        println!("{} psi({}):{}", line!(), l, psi_l);
+        progress!("{} psi({}):{}", line!(), l, psi_l);
 
         let mut found = false;
         let mut jj: i32 = Zero::zero();
         for j in num_iter::range(1, jmax + 1) {
-            println!("{} j:{}", line!(), j);
+            progress!("{} j:{}", line!(), j);
             // x
             let num2 = division_polynomial::phi(a, b, j).to_frob(q);
             let num2 = num2.reduction_modular(a, b, q);
@@ -103,7 +103,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
 
             let mut p1 = p1.polynomial_modular(&psi_l, &qq);
             p1.modular_assign(&qq);
-            println!("{} pol % psi({}):{}", line!(), l, p1);
+            progress!("{} pol % psi({}):{}", line!(), l, p1);
 
             if p1.is_zero() {
                 // to iii.
@@ -114,7 +114,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         }
         if found {
             // iii
-            println!("x found");
+            progress!("x found");
             // y
             let g = TermBuilder::new().ypow(q.pow(2)).build().to_pol();
             let g = g.reduction_modular(a, b, q);
@@ -168,7 +168,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             p9.modular_assign(&qq);
 
             let p9 = p9.polynomial_modular(&psi_l, &qq);
-            println!("{} pol % psi({}):{}", line!(), l, p9);
+            progress!("{} pol % psi({}):{}", line!(), l, p9);
 
             if !p9.is_zero() {
                 jj = -jj;
@@ -177,10 +177,10 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 jj += l;
             }
             mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(jj) });
-            println!("(iii) y  a = {} mod {}", jj, l);
+            progress!("(iii) y  a = {} mod {}", jj, l);
         } else {
             // (d)
-            println!("x not found");
+            progress!("x not found");
             let mut found = false;
             let mut w: i32 = 1;
             for i in num_iter::range(1, l) {
@@ -192,7 +192,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             }
             if !found {
                 mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(0) });
-                println!("(d)  a = 0 mod l because of w not found (d)");
+                progress!("(d)  a = 0 mod l because of w not found (d)");
             } else {
                 // (e) x
                 let mut p12 = TermBuilder::new().xpow(q).build()
@@ -207,7 +207,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
 
                 if !p15.is_zero() {
                     mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(0) });
-                    println!("(e) y  a = 0 mod {}", l);
+                    progress!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
                     let aa: i32 = a.clone().to_i32().unwrap();
@@ -227,7 +227,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                         ww += BigInt::from(l);
                     }
                     mod_result.push(bigint::ModResult { l: BigInt::from(l), r: ww.clone() });
-                    println!("(e) y  a = {} mod {}", &ww, l);
+                    progress!("(e) y  a = {} mod {}", &ww, l);
                 }
             }
         }
-- 
2.43.0


From 2bc653bf3de261ffeccdb91410992ca643d9cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 09/11] fix: polynomial division and gcd modulo p end when the
 divisor's leading coefficient vanishes modulo p

---
 src/polynomial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index d11a677..1244e42 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -355,6 +355,8 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        // the leading coefficient must not vanish modulo p
+        let other = &(other % p);
         let oh = other.highest_term_x();
         let mut r = self.clone();
         loop {
@@ -362,6 +364,7 @@ impl Polynomial {
             if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
+            assert!(!other.is_zero(), "division by zero modulo p");
             let mut q = term_builder::TermBuilder::new()
                     .coef(&rh.coef * oh.coef.inverse(p))
                     .xpow(rh.xpow() - oh.xpow())
@@ -445,13 +448,14 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
+        let other = &(other % p);
         let s = self.highest_term_x();
         let o = other.highest_term_x();
         if s.xpow() < o.xpow() {
             return other.gcd(self, p);
         }
         if other.is_zero() {
-            return self.to_monic(p);
+            return (self % p).to_monic(p);
         }
         let r = self.polynomial_modular(other, p);
         if r.is_zero() {
-- 
2.43.0


From 08abb41f65d45a5967311324c2509e5a4ba58a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 10/11] fix: polynomial division modulo p ends when the
 dividend has a subscripted variable

---
 src/polynomial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 1244e42..5f29d83 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -365,11 +365,13 @@ impl Polynomial {
                 break;
             }
             assert!(!other.is_zero(), "division by zero modulo p");
+            assert!(oh.variable().empty, "the divisor's leading term has a variable");
             let mut q = term_builder::TermBuilder::new()
                     .coef(&rh.coef * oh.coef.inverse(p))
                     .xpow(rh.xpow() - oh.xpow())
                     .ypow(rh.ypow())
                     .qpow(rh.qpow())
+                    .variable(rh.variable())
                     .build();
             q.modular_assign(&p);
             let mut d = q * other;
-- 
2.43.0


From 2b518b019a7949ba55bf4bdba68ff97f9661576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:26 +0000
Subject: [PATCH 11/11] fix: extended_gcd no longer recurses once per division,
 so large operands cannot overflow the stack

---
 src/bigint.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index cd6009b..9e48cb8 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -101,13 +101,25 @@ impl Inverse for BigInt {
 /// return: (gcd(a, b), x, y)
 ///
 pub fn extended_gcd(a: BigInt, b: BigInt) -> (BigInt, BigInt, BigInt) {
-    if a.clone() == Zero::zero() {
-        return (b, Zero::zero(), One::one());
+    // forwards through the divisions, then backwards through their quotients;
+    // there can be thousands of them, so not by recursion
+    let mut a = a;
+    let mut b = b;
+    let mut quotients: Vec<BigInt> = Vec::new();
+    while !a.is_zero() {
+        let (q, r) = b.div_rem(&a);
+        quotients.push(q);
+        b = a;
+        a = r;
     }
-    let r = b.clone() % a.clone();
-    let q = b.clone() / a.clone();
-    let (g, x, y) = extended_gcd(r, a);
-    (g, y - q * x.clone(), x.clone())
+    let mut x: BigInt = Zero::zero();
+    let mut y: BigInt = One::one();
+    for q in quotients.iter().rev() {
+        let next = y - q * &x;
+        y = x;
+        x = next;
+    }
+    (b, x, y)
 }
 
 /// x (mod l) = r
-- 
2.43.0

