From f26d47582c0abdc203fcd07c7677fd9f7490243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 01/29] fix: report incompatible runtime shapes in Add/Sub/Mul
 instead of panicking

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..200fbd6 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -239,7 +239,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -371,7 +371,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -525,7 +525,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From b1e1741dd27bfa89c632e22ebe9ede73f8e5659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 02/29] fix: keep operand order when zipping a scalar with an
 array of rank >= 2

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From 428354e8326a084593b0b0eb91ca1503fdfa8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 03/29] fix: sum over the shared axis in vector-matrix
 contraction

---
 aegir/src/buffers/arrays/contraction_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..8360efa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,7 +187,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
-- 
2.43.0


From 076b6f8b4fce70d69de123e1240b53d51af44e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 04/29] fix: only shortcut diagonal contractions for square
 matrices

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 8360efa..249deaa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -150,7 +150,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
@@ -194,7 +194,7 @@ impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 68531d4e5c040a2c704043ec5e4c9f7d06715f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 05/29] fix: 0^y is not 0 for every exponent

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 200fbd6..397aec0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From 76de3720b19f200ec5654dd91de8d05cf8296509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 06/29] fix: scale the adjoint when multiplying a dual number
 by a plain value

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..4de2d82 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer + std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, V>, MulOut<A, V>>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer + std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, &'a V>, MulOut<A, &'a V>>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 36fdc165fe999942272dfdf22f1e4b5392a11f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 07/29] fix: allow differentiating a cached node with respect
 to any target

---
 aegir/src/meta/cached.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aegir/src/meta/cached.rs b/aegir/src/meta/cached.rs
index c64add8..39b414e 100644
--- a/aegir/src/meta/cached.rs
+++ b/aegir/src/meta/cached.rs
@@ -51,14 +51,15 @@ where
     }
 }
 
-impl<N, T> Differentiable<T> for Cached<N, T>
+impl<N, T, I> Differentiable<I> for Cached<N, T>
 where
-    N: Differentiable<T>,
+    N: Differentiable<I>,
     T: Identifier,
+    I: Identifier,
 {
     type Adjoint = N::Adjoint;
 
-    fn adjoint(&self, target: T) -> Self::Adjoint {
+    fn adjoint(&self, target: I) -> Self::Adjoint {
         // TODO - find a way to propagate the cached terms through the derivative.
         // This will require some kind of search in which find-and-replace all instances of
         // N in Self::Adjoint with Cached<N, T>.
-- 
2.43.0


From 7db2a87977e60e1cffa72ea697fca19ff3fe0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 08/29] fix: use the right symbols for the Sigma, Tau and
 Upsilon identifiers

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From b0e003fe39f920715a440bd6536effb4e126c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 09/29] fix: display identifiers without a symbol by their own
 name

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..4482081 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From 12a34282dfb05bb391a521fd340f81b50c322714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 10/29] fix: display a zero expression as 0

---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From bc784711f0226a290661c11ba165c75c7b33865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 11/29] fix: display AddOne as an addition

---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..f09468b 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
-- 
2.43.0


From 468af207ceec11471b641b609da24d28cd709867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 12/29] fix: display ArcSin as asin and Sinh of one as sinh(1)

---
 aegir/src/ops/trig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From 58b1cec414991328aa5f405cf0a81f9d89c1a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 13/29] fix: display DiGamma and Erf of zero and one correctly

---
 aegir/src/ops/special.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
-- 
2.43.0


From b8d1945dde28f54690ab0600d0d7d61f239cdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 14/29] fix: bracket negations, powers and quotients inside
 larger expressions

---
 aegir/src/meta/constant.rs         |  8 ++++----
 aegir/src/ops/arithmetic/binary.rs |  6 +++---
 aegir/src/ops/arithmetic/unary.rs  | 10 +++++-----
 aegir/src/ops/logarithmic.rs       |  4 ++--
 aegir/src/ops/trig.rs              |  8 ++++----
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..dcb62fe 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,10 +101,10 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
-        Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
-        })
+        let text = self.0.to_string();
+        let needs_wrap = text.starts_with('-');
+
+        Expr::Text(PreWrap { text, needs_wrap })
     }
 }
 
diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 397aec0..3c71384 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -159,7 +159,7 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -412,13 +412,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index f09468b..fdba250 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -295,11 +295,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..32b1766 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -26,7 +26,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-\u{221E}".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..dc8945e 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -83,7 +83,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{1D456}\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From 6fa0ca747492f688dc8fc6823a903af66614faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 15/29] fix: display 0^0 as the 1 that it evaluates to

---
 aegir/src/ops/arithmetic/binary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 3c71384..0c1ea74 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,8 +153,8 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
+            (Zero, _) => Zero,
             (One, _) => One,
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
-- 
2.43.0


From 65ac8f39df5c8281399d35f029c98d812d9febe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 16/29] fix: iterate the single index of a zero-dimensional
 runtime shape

---
 aegir/src/buffers/shapes/multi_product.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..97bed1a 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -46,7 +46,11 @@ enum MultiProductIterState {
 }
 
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>(
+    [MultiProductIter; DIM],
+    // Whether the single (empty) index of a nullary product is still to come.
+    bool,
+);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
@@ -54,7 +58,7 @@ impl<const DIM: usize> MultiProduct<DIM> {
             cur: None,
             iter: 0..s,
             iter_orig: 0..s,
-        }))
+        }), DIM == 0)
     }
 
     fn iterate_last(
@@ -118,7 +122,9 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
-        if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
+        if std::mem::take(&mut self.1) {
+            Some(self.curr_iterator())
+        } else if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
             None
@@ -127,7 +133,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return self.1 as usize;
         }
 
         if !self.in_progress() {
@@ -153,7 +159,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return (self.1 as usize, Some(self.1 as usize));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 202989518da90397c2258b485dd983c43610b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 17/29] fix: allow differentiating the derivative of a constant
 again

---
 aegir/src/meta/constant.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index dcb62fe..ae996d5 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -184,6 +184,23 @@ where
     }
 }
 
+impl<N, T, A> Differentiable<A> for ConstantAdjoint<N, T>
+where
+    N: Node,
+    A: Identifier,
+
+    Self: Clone,
+{
+    type Adjoint = ConstantAdjoint<Self, A>;
+
+    fn adjoint(&self, ident: A) -> Self::Adjoint {
+        ConstantAdjoint {
+            node: self.clone(),
+            target: ident,
+        }
+    }
+}
+
 impl<N: Node, T> ToExpr for ConstantAdjoint<N, T> {
     fn to_expr(&self) -> Expr { Expr::Zero }
 }
-- 
2.43.0


From 2f848c236441bf69b50ef8e4e68d257e9d98af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 18/29] fix: an all-zero factor short-circuits a product
 whatever the other representation

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 0c1ea74..bf0d7d9 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -501,9 +501,6 @@ where
         let y = self.1.evaluate_spec(ctx).map_err(BinaryError::Right)?;
 
         let z = match (x, y) {
-            // Simple performance case if both are Spec::Full:
-            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
-
             // Short-circuits when either value are known to be all-zeroes:
             (Full(sx, fx), y) if fx.is_zero() =>
                 sx.broadcast(y.shape()).map(|sz| Spec::zeroes(sz)),
@@ -511,6 +508,9 @@ where
             (x, Full(sy, fy)) if fy.is_zero() =>
                 x.shape().broadcast(sy).map(|sz| Spec::zeroes(sz)),
 
+            // Simple performance case if both are Spec::Full:
+            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
+
             // Short-circuits when either value is known to be all-ones:
             //  x * 1 = x
             (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),
-- 
2.43.0


From 0967a52fa882d05da3b90eca3336b2a4b998efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 19/29] fix: summing a homogeneous buffer no longer panics when
 its length exceeds the field

---
 aegir/src/ops/arithmetic/unary.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fdba250..fd6fc05 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -248,8 +248,11 @@ where
         use Spec::*;
 
         Ok(match self.0.evaluate_spec(ctx)? {
-            // TODO: replace unwrap with error propagation.
-            Full(sh, val) => Full(S0, F::from_usize(sh.cardinality()).unwrap() * val),
+            Full(sh, val) => match F::from_usize(sh.cardinality()) {
+                Some(n) => Full(S0, n * val),
+                // The number of elements cannot be represented in the field.
+                None => Raw(Spec::<N::Value>::Full(sh, val).unwrap().sum()),
+            },
             spec => Raw(spec.unwrap().sum()),
         })
     }
-- 
2.43.0


From 5634e480f7098f1310ed696d98b3d8e1539b703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 20/29] fix: a rectangular matrix times a vector sums over the
 columns

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 249deaa..8d023cf 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -142,7 +142,7 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     }
 }; S0);
 
-impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M] {
+impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; M]; |self, x, y| -> [F; N] {
     Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[i][k] * y[k])))
 }, {
     use Spec::*;
@@ -156,7 +156,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
             let mut y = y.unwrap();
             y.mutate(|yi| fx * yi);
 
-            let ptr = &mut y as *mut _ as *mut [F; M];
+            let ptr = &mut y as *mut _ as *mut [F; N];
             let res = unsafe { ptr.read() };
 
             core::mem::forget(y);
-- 
2.43.0


From ab118d43385818a8fd6492a78b2d9931d7c364fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 21/29] fix: identifier symbols with braces are shown as
 declared

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 4482081..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0


From 94765faf8a29eb265ae7ef648895aab6c20bc378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 22/29] fix: contracting homogeneous buffers no longer
 overflows or panics where the dense result is finite

---
 aegir/src/buffers/arrays/contraction_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 8d023cf..70c48ac 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -135,7 +135,11 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, match F::from_usize(N) {
+            Some(n) => n * (fx * fy),
+            // The number of terms cannot be represented in the field.
+            None => (0..N).fold(F::zero(), |acc, _| acc + fx * fy),
+        })),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
         (x, y) => x.unwrap().zip_fold(&y.unwrap(), F::zero(), |acc, (xi, yi)| acc + xi * yi).map(Raw),
@@ -178,7 +182,11 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, match F::from_usize(Z) {
+            Some(z) => z * (fx * fy),
+            // The number of terms cannot be represented in the field.
+            None => (0..Z).fold(F::zero(), |acc, _| acc + fx * fy),
+        })),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
 
-- 
2.43.0


From 76c605d14b2e9a3f8e2326c16658d168e762f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 23/29] fix: an exhausted enumeration of a run-time shape stays
 exhausted

---
 aegir/src/buffers/shapes/multi_product.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index 97bed1a..5eb7d93 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -48,7 +48,7 @@ enum MultiProductIterState {
 #[derive(Clone)]
 pub struct MultiProduct<const DIM: usize>(
     [MultiProductIter; DIM],
-    // Whether the single (empty) index of a nullary product is still to come.
+    // Whether the product is exhausted.
     bool,
 );
 
@@ -58,7 +58,7 @@ impl<const DIM: usize> MultiProduct<DIM> {
             cur: None,
             iter: 0..s,
             iter_orig: 0..s,
-        }), DIM == 0)
+        }), false)
     }
 
     fn iterate_last(
@@ -122,9 +122,15 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
-        if std::mem::take(&mut self.1) {
-            Some(self.curr_iterator())
-        } else if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
+        if self.1 {
+            return None;
+        }
+
+        // A nullary product has a single (empty) index.
+        self.1 = DIM == 0
+            || !MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter);
+
+        if DIM == 0 || !self.1 {
             Some(self.curr_iterator())
         } else {
             None
@@ -133,7 +139,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return self.1 as usize;
+            return !self.1 as usize;
         }
 
         if !self.in_progress() {
@@ -159,7 +165,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (self.1 as usize, Some(self.1 as usize));
+            return (!self.1 as usize, Some(!self.1 as usize));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 3a17020fefd6fe534e8de1033906716baceedd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 24/29] fix: bracket prefix operators and casts on the left of
 an operator in aegir!

---
 aegir_compile/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aegir_compile/src/lib.rs b/aegir_compile/src/lib.rs
index 333297b..effc74a 100644
--- a/aegir_compile/src/lib.rs
+++ b/aegir_compile/src/lib.rs
@@ -7,6 +7,14 @@ use syn::{parse_macro_input, parse_quote, token, BinOp, Expr, ExprMethodCall, Id
 
 struct ConvertToAegir {}
 
+/// Prefix operators and casts bind less tightly than the method call they become the receiver of.
+fn bracket_receiver(expr: Expr) -> Expr {
+    match expr {
+        Expr::Unary(_) | Expr::Reference(_) | Expr::Cast(_) => parse_quote!((#expr)),
+        _ => expr,
+    }
+}
+
 impl Fold for ConvertToAegir {
     fn fold_expr(&mut self, expr: Expr) -> Expr {
         match expr {
@@ -45,7 +53,7 @@ impl Fold for ConvertToAegir {
                     Expr::Lit(ref l) if method == "pow" && is_two(&l.lit) => {
                         Expr::MethodCall(ExprMethodCall {
                             attrs: b.attrs,
-                            receiver: Box::new(self.fold_expr(*b.left)),
+                            receiver: Box::new(bracket_receiver(self.fold_expr(*b.left))),
                             dot_token: token::Dot { spans: [span] },
                             method: Ident::new("squared", span),
                             turbofish: None,
@@ -60,7 +68,7 @@ impl Fold for ConvertToAegir {
 
                         Expr::MethodCall(ExprMethodCall {
                             attrs: b.attrs,
-                            receiver: Box::new(self.fold_expr(*b.left)),
+                            receiver: Box::new(bracket_receiver(self.fold_expr(*b.left))),
                             dot_token: token::Dot { spans: [span] },
                             method: Ident::new(method, span),
                             turbofish: None,
-- 
2.43.0


From 7f3a88f1a89ff33723dbd3b909fe81ff124b2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 25/29] fix: accept array and tuple buffers in #[cache] fields

---
 aegir_derive/src/ctx/derive.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/aegir_derive/src/ctx/derive.rs b/aegir_derive/src/ctx/derive.rs
index 66c2285..e395b33 100644
--- a/aegir_derive/src/ctx/derive.rs
+++ b/aegir_derive/src/ctx/derive.rs
@@ -136,15 +136,10 @@ fn parse_ty_cache(ty: &syn::Type) -> Result<syn::Type, CtxFieldError> {
                 use syn::PathArguments::AngleBracketed;
 
                 if let AngleBracketed(ab) = &outer_ty.arguments {
-                    let ab_args = &ab.args;
-
-                    Some(syn::Type::Path(syn::TypePath {
-                        qself: tp.qself.clone(),
-                        path: syn::Path {
-                            leading_colon: tp.path.leading_colon.clone(),
-                            segments: parse_quote! { #ab_args },
-                        },
-                    }))
+                    match ab.args.first() {
+                        Some(syn::GenericArgument::Type(inner_ty)) => Some(inner_ty.clone()),
+                        _ => None,
+                    }
                 } else {
                     None
                 }
-- 
2.43.0


From e3aa0ea01e3c7e295fb09bef9319482b3fdb5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 26/29] fix: Gamma of a huge or infinite single-precision
 argument returns instead of looping forever

---
 aegir/src/ops/special.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index 42e4d1e..fad2762 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -1,7 +1,23 @@
 //! Module containing special function operators.
 use aegir::{Node, Identifier, Differentiable, ops::{Mul, OneSub, AddOne}};
+use num_traits::Float;
 use special_fun::FloatSpecial;
 
+/// Floating-point scalars with special functions.
+pub trait SpecialFloat: Float + FloatSpecial {}
+
+impl<F: Float + FloatSpecial> SpecialFloat for F {}
+
+/// Apply the gamma function to a floating-point scalar value.
+fn gamma<F: SpecialFloat>(x: F) -> F {
+    // Γ(x) exceeds the largest double beyond 171.6. The single-precision routine steps down from x
+    // one at a time, and never arrives when x is so large that x - 1 rounds to x.
+    match F::from(172.0) {
+        Some(limit) if x > limit => F::infinity(),
+        _ => FloatSpecial::gamma(x),
+    }
+}
+
 impl_unary!(
     /// Operator that applies `f[g](x) = Γ(f(x)) = (f(x) - 1)!` element-wise to a buffer.
     ///
@@ -16,7 +32,7 @@ impl_unary!(
     /// assert_eq!(op.evaluate(ctx!{X = 3.0f64}).unwrap(), 2.0);
     /// assert_eq!(op.evaluate(ctx!{X = 4.0f64}).unwrap(), 6.0);
     /// ```
-    Gamma<F: FloatSpecial>, |x| { x.gamma() }, |self| {
+    Gamma<F: SpecialFloat>, |x| { gamma(x) }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-- 
2.43.0


From 4addd80ed46fe7e3ec5578f31c2e1897eb4c7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 27/29] fix: serialise calls into the native special functions,
 which keep global state

---
 aegir/src/ops/special.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index fad2762..205d8c8 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -2,19 +2,32 @@
 use aegir::{Node, Identifier, Differentiable, ops::{Mul, OneSub, AddOne}};
 use num_traits::Float;
 use special_fun::FloatSpecial;
+use std::sync::Mutex;
 
 /// Floating-point scalars with special functions.
 pub trait SpecialFloat: Float + FloatSpecial {}
 
 impl<F: Float + FloatSpecial> SpecialFloat for F {}
 
+/// Run a native special function to completion before any other.
+///
+/// The native routines keep global state, such as the sign of the last gamma function, that calls
+/// from different threads would overwrite for one another.
+fn native<T>(f: impl FnOnce() -> T) -> T {
+    static LOCK: Mutex<()> = Mutex::new(());
+
+    let _guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
+
+    f()
+}
+
 /// Apply the gamma function to a floating-point scalar value.
 fn gamma<F: SpecialFloat>(x: F) -> F {
     // Γ(x) exceeds the largest double beyond 171.6. The single-precision routine steps down from x
     // one at a time, and never arrives when x is so large that x - 1 rounds to x.
     match F::from(172.0) {
         Some(limit) if x > limit => F::infinity(),
-        _ => FloatSpecial::gamma(x),
+        _ => native(|| FloatSpecial::gamma(x)),
     }
 }
 
@@ -63,7 +76,7 @@ where
 
 impl_unary!(
     /// Operator that applies `f[g](x) = ψ(g(x)) = Γ'(g(x)) / Γ(g(x))` element-wise to a buffer.
-    DiGamma<F: FloatSpecial>, |x| { x.digamma() }, |self| {
+    DiGamma<F: FloatSpecial>, |x| { native(|| x.digamma()) }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
@@ -85,7 +98,7 @@ impl_unary!(
 
 impl_unary!(
     /// Operator that applies `f[g](x) = ln Γ(g(x))` element-wise to a buffer.
-    LogGamma<F: FloatSpecial>, |x| { x.loggamma() }, |self| {
+    LogGamma<F: FloatSpecial>, |x| { native(|| x.loggamma()) }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
@@ -152,7 +165,7 @@ impl_unary!(
     ///     1.0 - opc.evaluate(ctx!{X = 1.0f64}).unwrap()
     /// );
     /// ```
-    Erf<F: FloatSpecial>, |x| { x.erf() }, |self| {
+    Erf<F: FloatSpecial>, |x| { native(|| x.erf()) }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-- 
2.43.0


From 48380f1122abca0107e261d438060665abd42fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 28/29] fix: sum and contraction of an empty homogeneous lifted
 buffer are zero

---
 aegir/src/buffers/arrays/contraction_ops.rs | 12 ++++++------
 aegir/src/ops/arithmetic/unary.rs           |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 70c48ac..469cafe 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -136,9 +136,9 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
 
     match (x, y) {
         (Full(_, fx), Full(_, fy)) => Ok(Full(S0, match F::from_usize(N) {
-            Some(n) => n * (fx * fy),
-            // The number of terms cannot be represented in the field.
-            None => (0..N).fold(F::zero(), |acc, _| acc + fx * fy),
+            Some(n) if !n.is_zero() => n * (fx * fy),
+            // There are no terms, or their number cannot be represented in the field.
+            _ => (0..N).fold(F::zero(), |acc, _| acc + fx * fy),
         })),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
@@ -183,9 +183,9 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 
     match (x, y) {
         (Full(_, fx), Full(_, fy)) => Ok(Full(S2, match F::from_usize(Z) {
-            Some(z) => z * (fx * fy),
-            // The number of terms cannot be represented in the field.
-            None => (0..Z).fold(F::zero(), |acc, _| acc + fx * fy),
+            Some(z) if !z.is_zero() => z * (fx * fy),
+            // There are no terms, or their number cannot be represented in the field.
+            _ => (0..Z).fold(F::zero(), |acc, _| acc + fx * fy),
         })),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fd6fc05..288964c 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -249,9 +249,9 @@ where
 
         Ok(match self.0.evaluate_spec(ctx)? {
             Full(sh, val) => match F::from_usize(sh.cardinality()) {
-                Some(n) => Full(S0, n * val),
-                // The number of elements cannot be represented in the field.
-                None => Raw(Spec::<N::Value>::Full(sh, val).unwrap().sum()),
+                Some(n) if !n.is_zero() => Full(S0, n * val),
+                // There are no elements, or their number cannot be represented in the field.
+                _ => Raw(Spec::<N::Value>::Full(sh, val).unwrap().sum()),
             },
             spec => Raw(spec.unwrap().sum()),
         })
-- 
2.43.0


From 6bc78b237de51afda75fb40b353b3aaddb9ee53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 29/29] fix: count and cardinality of an empty shape with huge
 axes

---
 aegir/src/buffers/shapes/compiled.rs      | 7 ++++++-
 aegir/src/buffers/shapes/multi_product.rs | 5 +++++
 aegir/src/buffers/shapes/runtime.rs       | 9 ++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/shapes/compiled.rs b/aegir/src/buffers/shapes/compiled.rs
index 42fd7fe..e476b16 100644
--- a/aegir/src/buffers/shapes/compiled.rs
+++ b/aegir/src/buffers/shapes/compiled.rs
@@ -94,7 +94,12 @@ macro_rules! impl_fixed {
             }
 
             fn cardinality(&self) -> usize {
-                IntoIterator::into_iter([$($tp),+]).product()
+                // The product of the other sizes may not be representable.
+                if [$($tp),+].contains(&0) {
+                    0
+                } else {
+                    IntoIterator::into_iter([$($tp),+]).product()
+                }
             }
 
             fn indices(&self) -> Self::IndexIter {
diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index 5eb7d93..a25517d 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -143,6 +143,11 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
         }
 
         if !self.in_progress() {
+            // The product of the other sizes may not be representable.
+            if self.0.iter().any(|multi_iter| multi_iter.iter.is_empty()) {
+                return 0;
+            }
+
             return IntoIterator::into_iter(self.0)
                 .fold(1, |acc, multi_iter| acc * multi_iter.iter.clone().count());
         }
diff --git a/aegir/src/buffers/shapes/runtime.rs b/aegir/src/buffers/shapes/runtime.rs
index d76778c..a4f56b6 100644
--- a/aegir/src/buffers/shapes/runtime.rs
+++ b/aegir/src/buffers/shapes/runtime.rs
@@ -25,7 +25,14 @@ impl<const DIM: usize> Shape for SDynamic<DIM> {
         ix.iter().zip(self.0.iter()).all(|(l, r)| l < r)
     }
 
-    fn cardinality(&self) -> usize { self.0.iter().product() }
+    fn cardinality(&self) -> usize {
+        // The product of the other sizes may not be representable.
+        if self.0.contains(&0) {
+            0
+        } else {
+            self.0.iter().product()
+        }
+    }
 
     fn indices(&self) -> Self::IndexIter { multi_product::MultiProduct::new(self.0) }
 }
-- 
2.43.0

