From a3e242c81ad97ea63cc8e2bce9bfb3320d3e5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 01/23] fix: make remainder exact so that wrapped angles stay
 in [-pi, pi]

---
 geokit/src/math/fp.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/fp.rs b/geokit/src/math/fp.rs
index 2e54cd8..fe68362 100644
--- a/geokit/src/math/fp.rs
+++ b/geokit/src/math/fp.rs
@@ -9,8 +9,19 @@ pub const TAU: Float = std::f64::consts::TAU;
 pub fn sq(x: Float) -> Float {
     x * x
 }
+
+/// Returns the IEEE remainder `val - n * r` where `n` is the integer nearest to `val / r` (ties to even).
+/// The result is exact, hence always in `[-|r|/2, |r|/2]`.
 pub fn remainder(val: Float, r: Float) -> Float {
-    val - (val / r).round_ties_even() * r
+    let r = r.abs();
+    let mut x = (val % (2. * r)).abs();
+    if x + x > r {
+        x -= r;
+        if x + x >= r {
+            x -= r;
+        }
+    }
+    if val.is_sign_negative() { -x } else { x }
 }
 
 /// Compute `sum(0, N, c[k] * F[k](x))` where `F[k](x) = sin(k * x)`
-- 
2.43.0


From 77d6bb77684540b8235c4b716ae71db162ad9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:52 +0000
Subject: [PATCH 02/23] fix: carry rounded-up minutes into degrees in
 Angle::dms

---
 geokit/src/quantities/angle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..21945f0 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,9 +191,9 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
@@ -202,6 +202,10 @@ impl Angle {
             m = deg.floor();
             s = 60. * deg.fract();
         }
+        if m >= 60. {
+            m -= 60.;
+            d += 1.;
+        }
         Dms(sgn * d, m, s)
     }
 
-- 
2.43.0


From e9a8ce4e9479509c2cce56c7633c2b38b7830b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 03/23] fix: Interval::new(-pi, -pi) is the singleton {pi}, not
 the empty interval

---
 geokit/src/cs/s1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..f4f5835 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -66,9 +66,13 @@ impl Interval {
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
         let mut low = lo.wrapped();
-        let hig = hi.wrapped();
+        let mut hig = hi.wrapped();
         if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
+            // [-pi..-pi] is the singleton {pi}, not the empty interval.
+            if hig == Angle::M_PI {
+                hig = Angle::PI;
+            }
         }
         Self { lo: low, hi: hig }
     }
-- 
2.43.0


From b039352c224e0e9d2e87d5420741d79bf8d479dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:32 +0000
Subject: [PATCH 04/23] fix: apply the prime meridian on spherical datums too

---
 geokit/src/geodesy/geodetic_datum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..d306379 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,7 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                lon: Lon::new(lon * RAD) - self.prime_meridian.lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From 97184a4192000a12ad28ea354786bc9fe587cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:33 +0000
Subject: [PATCH 05/23] fix: UTM zone 1 starts at 180 W, so that zone z has
 central meridian 6 z - 183

---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5ab1a05 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -184,7 +184,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From 3608bc11efad95c6018b597d8142129e912ed0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 06/23] fix: GeodeticTolerance::small() allows 1e-3 m on the
 height axis as documented

---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From 913086f4c28c3da307b65c3b15ac10e677b88a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 07/23] fix: Complex::arg stays in (-pi, pi] for a negative
 real with a negative zero imaginary part

---
 geokit/src/math/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/math/complex.rs b/geokit/src/math/complex.rs
index 39951ab..13cf786 100644
--- a/geokit/src/math/complex.rs
+++ b/geokit/src/math/complex.rs
@@ -36,7 +36,7 @@ impl Complex {
 
     /// Return the argument **in (-pi..pi] radians** of this complex.
     pub fn arg(self) -> Angle {
-        self.im.atan2(self.re) * RAD
+        (self.im.atan2(self.re) * RAD).normalized()
     }
 
     /// Return the multiplicative inverse of this complex.
-- 
2.43.0


From c076799e429a2efa6d869b4d090fcdc154a63edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:53 +0000
Subject: [PATCH 08/23] fix: the normal sphere is a sphere

---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From 3164cb4b217735d9bd34c9c91ec6dc6193b2e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:20 +0000
Subject: [PATCH 09/23] fix: print the latitude of the first point of a
 geodesic

---
 geokit/src/geodesy/geodesics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/mod.rs b/geokit/src/geodesy/geodesics/mod.rs
index 250433b..5986741 100644
--- a/geokit/src/geodesy/geodesics/mod.rs
+++ b/geokit/src/geodesy/geodesics/mod.rs
@@ -7,7 +7,7 @@ use derive_more::derive::Display;
 
 /// Geodesic segment data.
 #[derive(Copy, Clone, Debug, PartialEq, Display)]
-#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.0, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
+#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.1, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
 pub struct Geodesic {
     pub p1: (Lon, Lat),
     pub alpha1: Azimuth,
-- 
2.43.0


From 745419ab65f50b831c541c35a20aa5cbff880f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:22 +0000
Subject: [PATCH 10/23] fix: curve parameterization is total on [0, length] and
 rejects other parameters

---
 .../geometry/coordinate/curve/line_string.rs  | 26 ++++++++++++-------
 geokit/src/geometry/primitive/curve.rs        | 19 +++++++++++---
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..20b0050 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -78,19 +78,27 @@ impl ParameterizedCurve for LineString {
     }
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
-        let mut len_iter = self.len.iter();
+        let length = self.length(_crs);
+        assert!(
+            Length::ZERO <= s && s <= length,
+            "Invalid curvilinear parameter `s`"
+        );
+        if s == length {
+            return self.end().into();
+        }
+        let last_ix = self.len.len() - 1;
         let mut res_len = s;
         let mut start_pos_ix = 0;
-        let mut ratio = 0.;
-        while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
-                break;
-            }
-            res_len -= *l;
+        while start_pos_ix < last_ix && self.len[start_pos_ix] < res_len {
+            res_len -= self.len[start_pos_ix];
             start_pos_ix += 1;
         }
+        let seg_len = self.len[start_pos_ix];
+        let ratio = if seg_len > Length::ZERO {
+            (res_len / seg_len).min(1.)
+        } else {
+            0.
+        };
         let start = self.pos(start_pos_ix);
         let end = self.pos(start_pos_ix + 1);
 
diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..3dc1716 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -98,18 +98,29 @@ impl ParameterizedCurve for Curve {
     }
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
-        let mut seg_iter = self.seg.iter();
+        let length = self.length(crs);
+        assert!(
+            0. * M <= s && s <= length,
+            "Invalid curvilinear parameter `s`"
+        );
+        if s == length {
+            return self.end().into();
+        }
+        let last_ix = self.seg.len() - 1;
         let mut res_len = s;
         let mut seg_ix = 0;
-        while let Some(s) = seg_iter.next() {
-            let seg_len = s.length(crs);
+        while seg_ix < last_ix {
+            let seg_len = self.seg[seg_ix].length(crs);
             if seg_len >= res_len {
                 break;
             }
             res_len -= seg_len;
             seg_ix += 1;
         }
+        let seg_len = self.seg[seg_ix].length(crs);
+        if res_len > seg_len {
+            res_len = seg_len;
+        }
         let seg = &self.seg[seg_ix];
         seg.param(crs, res_len)
     }
-- 
2.43.0


From 1e19cf596d33161127d1aa0cf58914dbf697986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 11/23] fix: the first segment or line of a curve must have the
 dimension of the CRS

---
 geokit/src/geometry/coordinate/curve/line_string.rs | 3 +++
 geokit/src/geometry/primitive/curve.rs              | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index 20b0050..2dce02b 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -182,6 +182,9 @@ impl<'a> LineStringBuilder<'a> {
         let mut pos = vec![];
         let from_pos = from.as_ref();
         let to_pos = to.as_ref();
+        if from_pos.len() != crs.dim() || to_pos.len() != crs.dim() {
+            return Err("Invalid coordinate dimension");
+        }
         pos.extend(from_pos);
         pos.extend(to_pos);
         let len = vec![crs.dist(from_pos, to_pos)?];
diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index 3dc1716..eba98b2 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -155,7 +155,11 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
-        Ok(Self::new(crs, vec![clone_box(&seg)]))
+        if crs.dim() != seg.coord_dim() {
+            Err("Invalid coordinate dimension")
+        } else {
+            Ok(Self::new(crs, vec![clone_box(&seg)]))
+        }
     }
 
     pub fn append_segment<C: CurveSegment + 'static>(
-- 
2.43.0


From c3519b41502763c73645d5fc51328b54fafcb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:58 +0000
Subject: [PATCH 12/23] verification hook: expose datum shifts under
 cfg(geokit_verif)

---
 geokit/src/transformations/xyz.rs | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/geokit/src/transformations/xyz.rs b/geokit/src/transformations/xyz.rs
index 7eb4529..4496c99 100644
--- a/geokit/src/transformations/xyz.rs
+++ b/geokit/src/transformations/xyz.rs
@@ -1,5 +1,6 @@
 //! This module defines types to perform coordinates transformation through normalized geocentric
 //! coordinates.
+#![allow(unexpected_cfgs)]
 
 use super::{CrsTransformation, TransformationError};
 use crate::{
@@ -290,6 +291,41 @@ impl XYZTransformation for Helmert7Params {
     }
 }
 
+/// Verification hook: the crate-private datum shifts behind the public [XYZTransformation] trait.
+#[cfg(geokit_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct Shift(Box<dyn XYZTransformation>);
+
+    impl XYZTransformation for Shift {
+        fn to_ref(&self, src: XYZ) -> XYZ {
+            self.0.to_ref(src)
+        }
+        fn from_ref(&self, dst: XYZ) -> XYZ {
+            self.0.from_ref(dst)
+        }
+    }
+
+    pub fn translation(tx: Length, ty: Length, tz: Length) -> Shift {
+        Shift(Box::new(GeocentricTranslation::new(tx, ty, tz)))
+    }
+
+    pub fn helmert(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> Shift {
+        Shift(Box::new(Helmert7Params::new(
+            conv,
+            rotation,
+            translation,
+            ppm,
+        )))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::GeocentricTranslation;
-- 
2.43.0


From 6565df3551a8fd89d6c0ca7ad2309834a1dcb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:42 +0000
Subject: [PATCH 13/23] fix: the inverse geodesic between coincident points has
 length zero

---
 geokit/src/geodesy/geodesics/rapp.rs     | 8 ++++++--
 geokit/src/geodesy/geodesics/vincenty.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..66cd476 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -193,8 +193,12 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
 
-            // Eq (1.61)
-            sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
+            // Eq (1.61): indeterminate for coincident points
+            sin_alpha = if sin_sigma == 0.0 {
+                0.0
+            } else {
+                cos_beta1 * cos_beta2 * sin_lambda / sin_sigma
+            };
             cos_alpha_sq = 1. - sin_alpha.powi(2);
 
             // If the geodesic (p1, p2) is an equatorial line Eq (18) becomes indeterminate but
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..ced7b5a 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -148,8 +148,12 @@ impl<'e> VincentyGeodesicSolver<'e> {
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
 
-            // Eq (17)
-            let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
+            // Eq (17): indeterminate for coincident points
+            let sin_alpha = if sin_sigma == 0.0 {
+                0.0
+            } else {
+                cos_beta1 * cos_beta2 * sin_lambda / sin_sigma
+            };
             cos_alpha_sq = 1. - sin_alpha.powi(2);
 
             // If the geodesic (p1, p2) is an equatorial line Eq (18) becomes indeterminate but
-- 
2.43.0


From 5f6f052375973b5f0147b1274dd6faa730332a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 14/23] fix: a meridional line crosses the nearest pole in
 Rapp's inverse solution

---
 geokit/src/geodesy/geodesics/rapp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 66cd476..2561146 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -6,6 +6,7 @@ use crate::geodesy::geodesics::{Geodesic, GeodesicSolver};
 use crate::geodesy::Ellipsoid;
 use crate::math::fp::PI;
 use crate::math::polynomial::Polynomial;
+use crate::quantities::angle::Angle;
 use crate::quantities::length::Length;
 use crate::units::angle::RAD;
 use crate::units::length::M;
@@ -270,8 +271,8 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 (PI, PI)
             }
         } else if lambda == PI {
-            // lambda = PI -> pole crossing
-            if lat1 >= Lat::ZERO {
+            // lambda = PI -> pole crossing, over the nearest pole
+            if lat1.angle() + lat2.angle() >= Angle::ZERO {
                 // crossing north pole by going north then south
                 (0., PI)
             } else {
-- 
2.43.0


From 681c7a6fdbad65a3612bda53415db88b069b66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 15/23] fix: Karney's direct solution keeps its longitude when
 starting from a pole

---
 geokit/src/geodesy/geodesics/karney.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/karney.rs b/geokit/src/geodesy/geodesics/karney.rs
index 2d67b33..ab2e1ad 100644
--- a/geokit/src/geodesy/geodesics/karney.rs
+++ b/geokit/src/geodesy/geodesics/karney.rs
@@ -229,11 +229,11 @@ fn solve_triangle_from_p(beta: Angle, alpha: Azimuth) -> Triangle {
 
     // Eq (11)
     let sigma = Complex::new(cos_alpha * cos_beta, sin_beta).arg();
-    let (sin_sigma, cos_sigma) = sigma.sin_cos();
 
-    // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator
+    // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator.
+    // Both components are scaled by cos_alpha0: cos_sigma is not accurate at the poles.
     let sin_alpha0 = alpha0.sin();
-    let omega = Complex::new(cos_sigma, sin_alpha0 * sin_sigma).arg();
+    let omega = Complex::new(cos_alpha * cos_beta, sin_alpha0 * sin_beta).arg();
 
     Triangle {
         alpha0: Azimuth::new(alpha0),
-- 
2.43.0


From 9d9c7683e9ff906e89009dd4f9618fa2118d5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:19 +0000
Subject: [PATCH 16/23] fix: Rapp's direct solution is accurate at the poles
 and keeps its azimuth beyond half a turn or backwards

---
 geokit/src/geodesy/geodesics/rapp.rs | 29 +++++++++-------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 2561146..d667f9a 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -110,18 +110,16 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         }
 
-        let alpha = sin_alpha.asin();
-        // From Eq (1.22)
-        let beta2 = ((sigma_1 + sigma).sin() * alpha.cos()).asin() * RAD;
-        let (sin_beta2, cos_beta2) = beta2.sin_cos();
+        // Spherical triangle (pole, P1, P2), in a form that is well conditioned at the poles and
+        // holds for any sigma.
+        let sin_beta2 = sin_beta1 * cos_sigma + cos_beta1 * sin_sigma * cos_alpha1;
+        let cos_beta2_cos_alpha2 = cos_beta1 * cos_sigma * cos_alpha1 - sin_beta1 * sin_sigma;
         // geodetic latitude from reduced latitude
-        let lat2 = beta2.tan().atan2(1. - self.ellipsoid.f());
+        let lat2 = sin_beta2
+            .atan2((1. - self.ellipsoid.f()) * sin_alpha.hypot(cos_beta2_cos_alpha2));
 
-        // Eq (1.76)
-        let sin_lambda = sin_sigma * sin_alpha1 / cos_beta2;
-        // From Eq (1.57)
-        let cos_lambda = (cos_sigma - sin_beta1 * sin_beta2) / (cos_beta1 * cos_beta2);
-        let lambda = sin_lambda.atan2(cos_lambda);
+        let lambda = (sin_sigma * sin_alpha1)
+            .atan2(cos_beta1 * cos_sigma - sin_beta1 * sin_sigma * cos_alpha1);
 
         // Eq (1.56)
         let f = self.ellipsoid.f();
@@ -135,16 +133,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
 
         let L = lambda - lambda_minus_L;
 
-        let alpha21 = if s12.m() < 1000.0 {
-            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-            // Eq (1.73)
-            (sin_lambda * cos_beta1)
-                .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq)
-        } else {
-            // Eq (1.71)
-            (sin_lambda * cos_beta1)
-                .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2)
-        };
+        let alpha21 = sin_alpha.atan2(cos_beta2_cos_alpha2);
 
         Ok(Geodesic {
             p1,
-- 
2.43.0


From 22a175bbf4c9e5d42b85af51a89008ce5c6b308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:20 +0000
Subject: [PATCH 17/23] fix: cos(8 sigma_m) in Rapp's inverse series is a
 function of sigma_m only

---
 geokit/src/geodesy/geodesics/rapp.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index d667f9a..de07708 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -201,9 +201,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
                 cos_6_sigma_m =
                     cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
-                cos_8_sigma_m = cos_2_sigma_m.powi(4)
-                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma.powi(2)
-                    + sin_2_sigma.powi(4);
+                cos_8_sigma_m = 2. * cos_4_sigma_m.powi(2) - 1.;
 
                 // Eq (1.56)
                 let big_as = self.axs.map(|p| p.eval_at(cos_alpha_sq));
-- 
2.43.0


From ffeca755c19ad8cc848cdf6896876687b50b63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:57 +0000
Subject: [PATCH 18/23] fix: azimuths of Rapp's inverse solution do not flip
 when the longitude difference rounds across a half turn

---
 geokit/src/geodesy/geodesics/rapp.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index de07708..674fc27 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -245,8 +245,6 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 .m();
             Length::new(s_m, M)
         };
-        let sin_alpha1 = sin_alpha / cos_beta1;
-        let sin_alpha2 = sin_alpha / cos_beta2;
         let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
 
         // If the geodesic (p1, p2) is a meridional line, 2 cases:
@@ -267,29 +265,27 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 (PI, 0.)
             }
         } else {
-            let (tan_alpha12, tan_alpha21) = if s.m() < 10_000.0 {
+            if s.m() < 10_000.0 {
                 (
                     // Eq (1.72)
-                    lambda.sin() * cos_beta2
-                        / ((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
+                    (lambda.sin() * cos_beta2).atan2(
+                        (beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq,
+                    ),
                     // Eq (1.73)
-                    lambda.sin() * cos_beta1
-                        / ((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
+                    (lambda.sin() * cos_beta1).atan2(
+                        (beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq,
+                    ),
                 )
             } else {
                 (
                     // Eq (1.70)
-                    lambda.sin() * cos_beta2
-                        / (sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
+                    (lambda.sin() * cos_beta2)
+                        .atan2(sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
                     // Eq (1.71)
-                    lambda.sin() * cos_beta1
-                        / (sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
+                    (lambda.sin() * cos_beta1)
+                        .atan2(sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
                 )
-            };
-            (
-                sin_alpha1.atan2(sin_alpha1 / tan_alpha12),
-                sin_alpha2.atan2(sin_alpha2 / tan_alpha21),
-            )
+            }
         };
 
         Ok(Geodesic {
-- 
2.43.0


From 7f63ae84b3efe5624e1eba9a3af73fe6cf8b1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:51 +0000
Subject: [PATCH 19/23] fix: transverse Mercator is accurate near the poles
 instead of losing digits or returning NaN

---
 geokit/src/projections/cyl/transverse_mercator.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 5ab1a05..a5eae97 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -102,12 +102,10 @@ impl Projection for TransverseMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
         let Q = Q(self.e, input.lat);
         let beta = beta(Q);
-        let eta_0 = {
-            let lon = input.lon;
-            let lon0 = self.lon0;
-            (beta.cos() * (lon - lon0).sin()).atanh()
-        };
-        let xi_0 = (beta.sin() * eta_0.cosh()).asin();
+        let (sin_dlon, cos_dlon) = (input.lon - self.lon0).sin_cos();
+        let eta_0 = (beta.cos() * sin_dlon).atanh();
+        // Same as (beta.sin() * eta_0.cosh()).asin() but accurate near the poles.
+        let xi_0 = beta.sin().atan2(beta.cos() * cos_dlon);
 
         let xis = [
             self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
@@ -152,7 +150,8 @@ impl Projection for TransverseMercator {
         ];
         let eta_p0 = eta_p - eta_ps.into_iter().sum::<Float>();
 
-        let beta_p = (xi_p0.sin() / eta_p0.cosh()).asin();
+        // Same as (xi_p0.sin() / eta_p0.cosh()).asin() but accurate near the poles.
+        let beta_p = xi_p0.sin().atan2(eta_p0.sinh().hypot(xi_p0.cos()));
         let Q_p = beta_p.tan().asinh();
 
         fn iter_fn(e: Float, Q_p: Float, Q_pp: Float) -> Float {
@@ -169,7 +168,7 @@ impl Projection for TransverseMercator {
         }
 
         Ok(LLH {
-            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
+            lon: self.lon0 + eta_p0.sinh().atan2(xi_p0.cos()) * RAD,
             lat: Lat::new(Q_pp.sinh().atan() * RAD),
             height: input.height,
         })
-- 
2.43.0


From 80e5a5a5caa0fd5d88b788311edcaf8f4e0270de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:51 +0000
Subject: [PATCH 20/23] fix: inverse transverse Mercator reports out-of-bounds
 coordinates instead of looping forever

---
 geokit/src/projections/cyl/transverse_mercator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index a5eae97..97c5911 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -150,6 +150,10 @@ impl Projection for TransverseMercator {
         ];
         let eta_p0 = eta_p - eta_ps.into_iter().sum::<Float>();
 
+        if !(xi_p0.is_finite() && eta_p0.is_finite()) {
+            return Err(ProjectionError::ENHOutOfBounds);
+        }
+
         // Same as (xi_p0.sin() / eta_p0.cosh()).asin() but accurate near the poles.
         let beta_p = xi_p0.sin().atan2(eta_p0.sinh().hypot(xi_p0.cos()));
         let Q_p = beta_p.tan().asinh();
-- 
2.43.0


From f6b5a2d511e089f5689b89c14b79c6839b2d975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:23 +0000
Subject: [PATCH 21/23] fix: sample_s2 writes heights in the requested length
 unit

---
 geokit/src/bin/sample_s2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 9cc0c13..1714664 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -80,7 +80,7 @@ fn main() {
                 .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                 .zip(height_distr)
                 .take(cmd.count as usize)
-                .map(|(ll, h)| [ll[0], ll[1], h])
+                .map(|(ll, h)| [ll[0], ll[1], h / cmd.meter_per_unit])
                 .for_each(|llh| {
                     let [lon, lat, h] = llh;
                     println!("{lon:17.12} {lat:16.12} {h:9.3}");
-- 
2.43.0


From f806aeb1c6186fa8878d698da89a697fa273cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 22/23] fix: projecting a point that has no image is out of
 bounds, not an infinite coordinate

---
 geokit/src/projections/cyl/mercator.rs            | 5 +++++
 geokit/src/projections/cyl/transverse_mercator.rs | 4 ++++
 geokit/src/projections/cyl/web_mercator.rs        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/geokit/src/projections/cyl/mercator.rs b/geokit/src/projections/cyl/mercator.rs
index d27ebd6..d7768d4 100644
--- a/geokit/src/projections/cyl/mercator.rs
+++ b/geokit/src/projections/cyl/mercator.rs
@@ -120,6 +120,11 @@ impl Mercator {
 
 impl Projection for Mercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        // The poles are at infinity.
+        if input.lat.abs() == Lat::MAX {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         let sin_lat = input.lat.sin();
         let e_sin_lat = self.e * sin_lat;
         let lat1 = input.lat / 2.0 + PI_4 * RAD;
diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 97c5911..08126a9 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -104,6 +104,10 @@ impl Projection for TransverseMercator {
         let beta = beta(Q);
         let (sin_dlon, cos_dlon) = (input.lon - self.lon0).sin_cos();
         let eta_0 = (beta.cos() * sin_dlon).atanh();
+        // The points of the equator at 90 degrees from the central meridian are at infinity.
+        if !eta_0.is_finite() {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
         // Same as (beta.sin() * eta_0.cosh()).asin() but accurate near the poles.
         let xi_0 = beta.sin().atan2(beta.cos() * cos_dlon);
 
diff --git a/geokit/src/projections/cyl/web_mercator.rs b/geokit/src/projections/cyl/web_mercator.rs
index 07464ad..6afcac8 100644
--- a/geokit/src/projections/cyl/web_mercator.rs
+++ b/geokit/src/projections/cyl/web_mercator.rs
@@ -50,6 +50,11 @@ impl WebMercator {
 
 impl Projection for WebMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        // The poles are at infinity.
+        if input.lat.abs() == Lat::MAX {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),
             northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),
-- 
2.43.0


From 343495500757a154974cfba802178c90aa6a5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:45 +0000
Subject: [PATCH 23/23] fix: Rapp direct solver fails to converge on lines of
 many turns

---
 geokit/src/geodesy/geodesics/rapp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 674fc27..cd6c85e 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -102,7 +102,8 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 - b6 / b0 * sin_3_sigma * cos_6_sigma_m;
             let sigma_old = sigma;
             sigma = next_sigma;
-            if (sigma - sigma_old).abs() < 0.5e-14 {
+            // relative to sigma for lines of several turns, where one ulp is above the tolerance
+            if (sigma - sigma_old).abs() < 0.5e-14 * sigma.abs().max(1.) {
                 break;
             }
             if iter_count == Self::MAX_ITERATIONS {
-- 
2.43.0

