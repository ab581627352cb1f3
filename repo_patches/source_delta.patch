From d101dd9dcd659992daf3f5de821faad66c44cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 01/21] verif: cfg-guarded access to projective coordinates for
 harnesses

---
 src/lib.rs   |  3 +++
 src/verif.rs | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index ea9ce99..088a7ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,9 @@ pub mod weierstrass;
 
 pub mod instances;
 
+#[cfg(redox_ecc_verif)]
+pub mod verif;
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..de92f5c
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,38 @@
+//! Access to projective coordinates for verification harnesses.
+//!
+//! Compiled only with `--cfg redox_ecc_verif`; not part of the library otherwise.
+
+use crate::edwards;
+use crate::montgomery;
+use crate::primefield::FpElt;
+use crate::weierstrass;
+
+/// Weierstrass point from projective coordinates.
+pub fn we_point(e: &weierstrass::Curve, x: FpElt, y: FpElt, z: FpElt) -> weierstrass::Point {
+    e.new_proy_point(weierstrass::ProyCoordinates { x, y, z })
+}
+/// Montgomery point from projective coordinates.
+pub fn mt_point(e: &montgomery::Curve, x: FpElt, y: FpElt, z: FpElt) -> montgomery::Point {
+    e.new_proy_point(montgomery::ProyCoordinates { x, y, z })
+}
+/// Twisted Edwards point from extended coordinates.
+pub fn te_point(e: &edwards::Curve, x: FpElt, y: FpElt, t: FpElt, z: FpElt) -> edwards::Point {
+    e.new_proy_point(edwards::ProyCoordinates { x, y, t, z })
+}
+/// Projective coordinates (x, y, z).
+pub fn we_coords(p: &weierstrass::Point) -> [FpElt; 3] {
+    [p.c.x.clone(), p.c.y.clone(), p.c.z.clone()]
+}
+/// Projective coordinates (x, y, z).
+pub fn mt_coords(p: &montgomery::Point) -> [FpElt; 3] {
+    [p.c.x.clone(), p.c.y.clone(), p.c.z.clone()]
+}
+/// Extended coordinates (x, y, t, z).
+pub fn te_coords(p: &edwards::Point) -> [FpElt; 4] {
+    [
+        p.c.x.clone(),
+        p.c.y.clone(),
+        p.c.t.clone(),
+        p.c.z.clone(),
+    ]
+}
-- 
2.43.0


From 5054b21f669ee783a6fff14930d1043e4272ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 02/21] verif: silence the unexpected-cfg lint for the hook

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 088a7ee..818f345 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,7 @@ pub mod weierstrass;
 
 pub mod instances;
 
+#[allow(unexpected_cfgs)]
 #[cfg(redox_ecc_verif)]
 pub mod verif;
 
-- 
2.43.0


From ec0402cb36723d2e59fc55bd6800002f3514157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 03/21] fix: iterating the bits of the zero scalar underflowed

iter_lr computed l - 1 with l = 0, so multiplying any point by the scalar 0
panicked (debug) instead of returning the identity.
---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..3758dd5 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..5432971 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..e6406ac 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.saturating_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 59ae2f348219becfb79001edf693a5b25e734ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 04/21] fix: decoding a one-byte buffer sliced out of range

decode(&[0]), the encoding of the point at infinity, panicked.
---
 src/montgomery/curve.rs  | 3 ++-
 src/weierstrass/curve.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..b9d7e81 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -100,7 +100,8 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_end = if blen == 1 { 1 } else { size + 1 };
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..x_end]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..b974059 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -98,7 +98,8 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_end = if blen == 1 { 1 } else { size + 1 };
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..x_end]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
-- 
2.43.0


From 3c69cfeaa6e656087dfdbff8f4c2f9197da353af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 05/21] fix: normalize turned the point at infinity into (0,0)

1/0 is 0 here, so normalize produced (0:0:1), which is not on the curve, and
encode() emitted it instead of the single zero byte.
---
 src/montgomery/point.rs  | 5 +++++
 src/weierstrass/point.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..59550ab 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            // the point at infinity has no affine representation.
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..50419c2 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.c.z.is_zero() {
+            // the point at infinity has no affine representation.
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 26cc53241be2241ce36fb08352db545add4e1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 06/21] fix: decode panicked on bytes that are not a point of
 the curve

Off-curve coordinates and x (or y) without a square root reached new_point,
which panics; untrusted input must be answered with an Err.
---
 src/edwards/curve.rs     | 16 +++++++++++++++-
 src/montgomery/curve.rs  | 17 +++++++++++++++--
 src/weierstrass/curve.rs | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..478d7af 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -36,6 +36,20 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn affine_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let t = &x * &y;
+        let z = self.f.one();
+        let e = self.clone();
+        let pt = Point {
+            c: ProyCoordinates { x, y, t, z },
+            e,
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -142,7 +156,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.affine_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index b9d7e81..f61b900 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,19 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn affine_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let z = self.f.one();
+        let e = self.clone();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e,
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -130,7 +143,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.affine_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -155,7 +168,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.affine_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index b974059..f41f083 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,19 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn affine_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let z = self.f.one();
+        let e = self.clone();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e,
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -128,7 +141,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.affine_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -150,7 +163,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.affine_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From b26f0f9d44ec6b6d94e40b71d798a84e56b63a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 07/21] fix: the Edwards point (0,-1) was reported to be the
 identity

is_zero accepted any (0:y:0:z); the identity is the one with y = z.
---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..bdc7773 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
-- 
2.43.0


From e52299f11649818f5e25e8385924f1f89f7f73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 08/21] fix: the order-two point under the
 edwards25519/curve25519 map

push sent (0,-1) to the identity (after is_zero was corrected: to (0:0:0)), and
pull sent (0:0:z) with z != 1 to (0:0:0:0) because is_two_torsion demanded z = 1.
---
 src/instances/rational_maps.rs | 6 ++++++
 src/montgomery/point.rs        | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..bbe8dbb 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -42,6 +44,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // (0,-1), the point of order two, goes to (0,0).
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 59550ab..19308aa 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -118,7 +118,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From 361b0848fcd0bfe282f1e7a50889de0d4b8b21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 09/21] fix: pulling (0,0) of curve448 back to edwards448 gave
 (0:0:0:0)

The point is in the kernel of the 4-isogeny; its image is the identity.
---
 src/instances/rational_maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index bbe8dbb..26f346a 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 4ca2204adf1603e8aa5f8c12b55f1a28244e8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 10/21] fix: isogenies ignored z and had no image for the
 kernel

push evaluated the maps at the projective x and y, panicking for every point
with z != 1 and for the identity, and took 1/0 = 0 on the kernel.
---
 src/instances/rational_maps.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 26f346a..43b8c83 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -218,6 +218,11 @@ impl Isogeny for Isosecp256k1 {
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
         let f = self.e0.get_field();
+        let mut p = p;
+        p.normalize();
+        if p.is_zero() {
+            return self.e1.identity();
+        }
         let x = p.c.x;
         let y = p.c.y;
         let mut x_num = f.zero();
@@ -231,6 +236,10 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() || y_den.is_zero() {
+            // points of the kernel go to the identity.
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -331,6 +340,11 @@ impl Isogeny for IsoBls12381G1 {
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
         let f = self.e0.get_field();
+        let mut p = p;
+        p.normalize();
+        if p.is_zero() {
+            return self.e1.identity();
+        }
         let x = p.c.x;
         let y = p.c.y;
         let mut x_num = f.zero();
@@ -347,6 +361,10 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() || y_den.is_zero() {
+            // points of the kernel go to the identity.
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 55ce4b4e4ed0bff12b90b723091f128a15fdba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 11/21] fix: Fp2 inverse forgot to conjugate

1/(a+ib) is (a-ib)/(a^2+b^2).
---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..23a4d0b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 195dd31807bbae0ba841239ab11676145a4c3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 12/21] fix: Fp2 exponentiation

It started from the unimplemented Fp2Elt::one(), skipped the top bit of every
32-bit digit of the exponent and panicked on negative exponents; square roots
in Fp2 never worked because of it.
---
 src/quadraticfield/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 23a4d0b..d5a4fcf 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -6,6 +6,7 @@ use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
+use num_traits::sign::Signed;
 
 use std::ops;
 use std::ops::{BitXor, Div};
@@ -240,9 +241,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
@@ -258,8 +259,12 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a Fp2Elt {
     type Output = Fp2Elt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.to_biguint().unwrap();
-        self ^ expo
+        let expo = &exp.abs().to_biguint().unwrap();
+        if exp.is_negative() {
+            &self.inv_mod() ^ expo
+        } else {
+            self ^ expo
+        }
     }
 }
 
-- 
2.43.0


From 86f1c910f01212d80af5058e963117c51b3c4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 13/21] fix: zero is a square in Fp2

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index d5a4fcf..5e2c865 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -303,7 +303,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From 0fabee5d94e58cc715194a728208074cd3713829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 14/21] fix: the sign of an Fp2 element

sgn0 returns +1 or -1 here, but Fp2 combined the signs of the coordinates as
if they were bits, giving values such as -1 | 1 for positive elements.
---
 src/quadraticfield/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 5e2c865..9c3b12c 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -329,10 +329,11 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From 531420f16075b3cf356c4acbca60b395219f446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 15/21] fix: Elligator 2 used A*B instead of A/B for the scaled
 curve

---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From d30f1d1cc08d1bc75e81e06d91f1b545ed87decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 16/21] fix: Montgomery point addition ignored the coefficient
 b

The formulas are for b = 1; on any other curve the sum was not on the curve and
the addition panicked.
---
 src/montgomery/point.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 19308aa..57a2274 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -85,18 +85,18 @@ impl Point {
     fn core_add(&self, p: &Point) -> Point {
         let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
         let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
-        let (a_ec, s_ec) = (&self.e.a, &self.e.s);
-        let (t0, t1, t2) = (x1 * x2, y1 * y2, z1 * z2);
+        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);
+        let (t0, t1, t2) = (x1 * x2, b_ec * y1 * y2, z1 * z2);
         let (t3, t4) = (x1 * y2, x2 * y1);
         let (t5, t6) = (y1 * z2, y2 * z1);
         let (t7, t8) = (x1 * z2, x2 * z1);
         let t9 = &t7 + &t8;
         let ta = &t9 + &(&t0 * a_ec);
-        let rr = &t5 + &t6;
+        let rr = (&t5 + &t6) * b_ec;
         let tt = &ta - &t1;
         let vv = t9 * a_ec + &t0 + &t0 + &t0 + &t2;
         let ss = (&t3 - &t4) * s_ec + t0 - t2;
-        let uu = (t7 - t8) * s_ec - t3 - t4;
+        let uu = (t7 - t8) * s_ec - (t3 + t4) * b_ec;
         let ww = (t5 - t6) * s_ec + ta + t1;
         let x3 = &rr * &ss - &tt * &uu;
         let y3 = tt * &ww - &vv * &ss;
-- 
2.43.0


From 08a6f9ed0b2cce940cb2d5afae7ce1c3c7d6ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 17/21] fix: 0 raised to a multiple of p-1 was 1 in Fp

The exponent was reduced modulo p-1, which is not valid for a zero base.
---
 src/primefield/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..3ea0b7f 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,6 +238,9 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        if self.n.is_zero() && !exp.is_zero() {
+            return self.clone(); // Fermat reduction of the exponent is only for units.
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From 28d2990576b8752f4b7eb1c44fe0110866e3618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 18/21] fix: square roots on a field shared between threads
 panicked

The cached constants sat in an AtomicRefCell borrowed mutably on every call, so
two threads calling sqrt() at once hit 'already mutably borrowed'.
---
 src/primefield/mod.rs     | 10 ++++------
 src/quadraticfield/mod.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 3ea0b7f..5f313ba 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! The primefield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use impl_ops::impl_op_ex;
 use num_bigint::{BigInt, BigUint, ToBigInt};
 use num_integer::Integer;
@@ -11,7 +10,7 @@ use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -19,7 +18,7 @@ use crate::ops::{Deserialize, FromFactory, Serialize};
 
 struct Params {
     p: BigInt,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -46,7 +45,7 @@ impl Fp {
         // TODO: verify whether p is prime.
         Fp(Arc::new(Params {
             p: modulus.to_bigint().unwrap(),
-            sqrt_precmp: AtomicRefCell::new(None),
+            sqrt_precmp: OnceLock::new(),
         }))
     }
 }
@@ -259,8 +258,7 @@ impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 9c3b12c..4810dea 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! The quadraticfield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
@@ -10,7 +9,7 @@ use num_traits::sign::Signed;
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -19,7 +18,7 @@ use crate::primefield::{Fp, FpElt};
 
 struct Params {
     base: Fp,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -44,7 +43,7 @@ impl Fp2 {
     /// The `modulus` should be a prime number.
     pub fn new(modulus: BigUint) -> Self {
         let base = Fp::new(modulus);
-        let sqrt_precmp = AtomicRefCell::new(None);
+        let sqrt_precmp = OnceLock::new();
         Fp2(Arc::new(Params { base, sqrt_precmp }))
     }
 }
@@ -279,8 +278,7 @@ impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
-- 
2.43.0


From 0b86743f07593fb3d7119fcdd041dce1c7a46a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 19/21] fix: two compressed encodings were accepted for the
 point (0,0)

For y = 0 only the tag that encode() writes is valid, as in the Edwards decoder.
---
 src/montgomery/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index f61b900..735f91e 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -166,6 +166,9 @@ impl Decode for Curve {
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
                 if tag != deser_tag {
+                    if y.is_zero() {
+                        return Err(Error::new(ErrorKind::Other, "Invalid sign of zero"));
+                    }
                     y = -y;
                 }
                 self.affine_point(x, y)
-- 
2.43.0


From 8e8d27d0a279fc3af4f77d325961b5f8ab9bb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 20/21] fix: Elligator 2 accepted a square Z

The map needs a non-square Z; with a square one map() panicked for about half of
its inputs. SSWU and SVDW already refuse bad parameters at construction.
---
 src/montgomery/elligator2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 449b025..160d9cd 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -15,7 +15,7 @@ pub struct Ell2 {
 
 impl Ell2 {
     pub fn new(e: Curve, z: FpElt) -> Ell2 {
-        if !Ell2::verify(&e) {
+        if !Ell2::verify(&e, &z) {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
@@ -24,10 +24,11 @@ impl Ell2 {
             Ell2 { e, z, ca, cb }
         }
     }
-    fn verify(e: &Curve) -> bool {
+    fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
-        cond1 && cond2
+        let cond3 = !z.is_square(); // Z is non-square
+        cond1 && cond2 && cond3
     }
 }
 
-- 
2.43.0


From 182574b72e2b606f5f2b39591ea2ac6c793df3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 21/21] fix: comparing points of curves over different fields
 panicked

---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index bdc7773..8af4003 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 57a2274..8a4396d 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -126,11 +126,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 50419c2..026e384 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -211,11 +211,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0

