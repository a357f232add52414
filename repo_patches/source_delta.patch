From 293bcd6fbbb4b04029435bd6c42ed9db793b843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 01/21] hook: expose datum shift constructors under
 cfg(geokit_verif)

---
 geokit/src/transformations/xyz.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geokit/src/transformations/xyz.rs b/geokit/src/transformations/xyz.rs
index 7eb4529..6a7a459 100644
--- a/geokit/src/transformations/xyz.rs
+++ b/geokit/src/transformations/xyz.rs
@@ -266,6 +266,28 @@ impl Helmert7Params {
     }
 }
 
+/// Access to the crate-private datum shifts for external verification harnesses.
+/// Only compiled with `RUSTFLAGS="--cfg geokit_verif"`.
+#[allow(unexpected_cfgs)]
+#[cfg(geokit_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn translation(t: [Length; 3]) -> Box<dyn XYZTransformation> {
+        let [tx, ty, tz] = t;
+        Box::new(GeocentricTranslation::new(tx, ty, tz))
+    }
+
+    pub fn helmert(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> Box<dyn XYZTransformation> {
+        Box::new(Helmert7Params::new(conv, rotation, translation, ppm))
+    }
+}
+
 impl XYZTransformation for Helmert7Params {
     fn to_ref(&self, src: XYZ) -> XYZ {
         let s = Vector3::new(src.x.m(), src.y.m(), src.z.m());
-- 
2.43.0


From ae19accd16e2890042fcacf6f5e6bd3b1e69cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 02/21] fix: carry 60 minutes over to degrees in Angle::dms

---
 geokit/src/quantities/angle.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..a265025 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,9 +191,9 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
@@ -202,6 +202,11 @@ impl Angle {
             m = deg.floor();
             s = 60. * deg.fract();
         }
+        // Rounding up to 60 minutes carries over to the degrees.
+        if m >= 60. {
+            m = 0.0;
+            d += 1.;
+        }
         Dms(sgn * d, m, s)
     }
 
-- 
2.43.0


From 2c5af2dddc551badf0cc23afbc3d95457cb6144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 03/21] fix: keep wrapped and normalized angles within pi

---
 geokit/src/quantities/angle.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index a265025..5884e81 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -75,7 +75,8 @@ impl Angle {
         if a < -PI {
             a = PI;
         }
-        Self(a)
+        // Rounding in `remainder` may also overshoot the upper bound.
+        Self(a.min(PI))
     }
 
     /// Returns this angle value wrapped into (-pi, pi] radians.
@@ -92,16 +93,13 @@ impl Angle {
         if a <= -PI {
             a = PI;
         }
-        Self(a)
+        // Rounding in `remainder` may also overshoot the upper bound.
+        Self(a.min(PI))
     }
 
     /// [Normalize][Self::normalized] in place.
     pub fn normalize(&mut self) {
-        let mut a = remainder(self.0, TAU);
-        if a <= -PI {
-            a = PI;
-        }
-        self.0 = a;
+        *self = self.normalized();
     }
 
     /// Returns this angle value in the given unit.
-- 
2.43.0


From 3c132bc4f759f86957d07866525509487ed44e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 04/21] fix: apply the prime meridian in spherical datum
 conversions

---
 geokit/src/geodesy/geodetic_datum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..21eef84 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,7 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                lon: Lon::new(lon * RAD) - self.prime_meridian().lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From 6ddbf48e121c9dffc570612aff16b977b6eaff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 05/21] fix: UTM zone 1 starts at 180 degrees west

---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5ab1a05 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -184,7 +184,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From 9be356b3a1472606475a43a94409a8ccbaa358b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 06/21] fix: GeodeticTolerance::small allows 1e-3 m on height
 as documented

---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From be5cc804113fd858c81c424bbbb28ada3499e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 07/21] fix: the normal sphere is a sphere

---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From 2e9252d56f431b262e3660b4cdc3d09f6f11478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 08/21] fix: interval from -pi to -pi is a singleton

---
 geokit/src/cs/s1.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..30c92d2 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -66,8 +66,12 @@ impl Interval {
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
         let mut low = lo.wrapped();
-        let hig = hi.wrapped();
-        if low == Angle::M_PI && hig != Angle::PI {
+        let mut hig = hi.wrapped();
+        if low == Angle::M_PI && hig == Angle::M_PI {
+            // The singleton [-pi..-pi], not the empty interval.
+            hig = Angle::PI;
+            low = Angle::PI;
+        } else if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
         }
         Self { lo: low, hi: hig }
-- 
2.43.0


From 075249ffe2895df05ef79d4af328b31019539aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:21 +0000
Subject: [PATCH 09/21] fix: display the start latitude of a geodesic

---
 geokit/src/geodesy/geodesics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/mod.rs b/geokit/src/geodesy/geodesics/mod.rs
index 250433b..5986741 100644
--- a/geokit/src/geodesy/geodesics/mod.rs
+++ b/geokit/src/geodesy/geodesics/mod.rs
@@ -7,7 +7,7 @@ use derive_more::derive::Display;
 
 /// Geodesic segment data.
 #[derive(Copy, Clone, Debug, PartialEq, Display)]
-#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.0, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
+#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.1, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
 pub struct Geodesic {
     pub p1: (Lon, Lat),
     pub alpha1: Azimuth,
-- 
2.43.0


From 0389ff960fd2cf4d89a1130bf91c0d089aafaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:21 +0000
Subject: [PATCH 10/21] fix: reject a first curve segment of the wrong
 dimension

---
 geokit/src/geometry/primitive/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..55e6eae 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -144,6 +144,9 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
+        if crs.dim() != seg.coord_dim() {
+            return Err("Invalid coordinate dimension");
+        }
         Ok(Self::new(crs, vec![clone_box(&seg)]))
     }
 
-- 
2.43.0


From 9baba0263008a076944e99dfcb1c3023c87a9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 11/21] fix: arc length parameterization at repeated positions
 and at the end

---
 .../src/geometry/coordinate/curve/line_string.rs   | 14 ++++++++++++--
 geokit/src/geometry/primitive/curve.rs             | 11 ++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..060a04c 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -78,14 +78,24 @@ impl ParameterizedCurve for LineString {
     }
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
+        let length = self.length(_crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == length && s > Length::ZERO {
+            return self.end().into();
+        }
         let mut len_iter = self.len.iter();
         let mut res_len = s;
         let mut start_pos_ix = 0;
         let mut ratio = 0.;
         while let Some(l) = len_iter.next() {
             if l >= &res_len {
-                ratio = res_len / *l;
+                // `l` is zero when control positions are repeated.
+                ratio = if *l > Length::ZERO { res_len / *l } else { 0. };
+                break;
+            }
+            if start_pos_ix + 1 == self.len.len() {
+                // Rounding errors ran past the last segment.
+                ratio = 1.;
                 break;
             }
             res_len -= *l;
diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index 55e6eae..8620c57 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -98,7 +98,11 @@ impl ParameterizedCurve for Curve {
     }
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
+        let length = self.length(crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == length && s > Length::ZERO {
+            return self.end().into();
+        }
         let mut seg_iter = self.seg.iter();
         let mut res_len = s;
         let mut seg_ix = 0;
@@ -107,6 +111,11 @@ impl ParameterizedCurve for Curve {
             if seg_len >= res_len {
                 break;
             }
+            if seg_ix + 1 == self.seg.len() {
+                // Rounding errors ran past the last segment.
+                res_len = seg_len;
+                break;
+            }
             res_len -= seg_len;
             seg_ix += 1;
         }
-- 
2.43.0


From 0803ef03180ff162759944d1dc65827cd1138edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 12/21] fix: quadrant and polar precision of the transverse
 Mercator projection

---
 .../src/projections/cyl/transverse_mercator.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 5ab1a05..8590d8f 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -102,12 +102,11 @@ impl Projection for TransverseMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
         let Q = Q(self.e, input.lat);
         let beta = beta(Q);
-        let eta_0 = {
-            let lon = input.lon;
-            let lon0 = self.lon0;
-            (beta.cos() * (lon - lon0).sin()).atanh()
-        };
-        let xi_0 = (beta.sin() * eta_0.cosh()).asin();
+        let (sin_dlon, cos_dlon) = (input.lon - self.lon0).sin_cos();
+        let eta_0 = (beta.cos() * sin_dlon).atanh();
+        // Same as asin(beta.sin() * eta_0.cosh()), but keeps the quadrant of points more than 90
+        // degrees away from the central meridian, and its precision at the poles.
+        let xi_0 = beta.sin().atan2(beta.cos() * cos_dlon);
 
         let xis = [
             self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
@@ -152,8 +151,9 @@ impl Projection for TransverseMercator {
         ];
         let eta_p0 = eta_p - eta_ps.into_iter().sum::<Float>();
 
-        let beta_p = (xi_p0.sin() / eta_p0.cosh()).asin();
-        let Q_p = beta_p.tan().asinh();
+        // Same as asin(xi_p0.sin() / eta_p0.cosh()).tan(), but keeps its precision at the poles.
+        let tan_beta_p = xi_p0.sin() / eta_p0.sinh().hypot(xi_p0.cos());
+        let Q_p = tan_beta_p.asinh();
 
         fn iter_fn(e: Float, Q_p: Float, Q_pp: Float) -> Float {
             Q_p + (e * (e * Q_pp.tanh()).atanh())
@@ -169,7 +169,7 @@ impl Projection for TransverseMercator {
         }
 
         Ok(LLH {
-            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
+            lon: self.lon0 + eta_p0.sinh().atan2(xi_p0.cos()) * RAD,
             lat: Lat::new(Q_pp.sinh().atan() * RAD),
             height: input.height,
         })
-- 
2.43.0


From 9b0782ecfbf4c6151d3b938d9e782ce2e2522e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 13/21] fix: report transverse Mercator inputs out of bounds

---
 geokit/src/projections/cyl/transverse_mercator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 8590d8f..0f4d9e6 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -123,6 +123,9 @@ impl Projection for TransverseMercator {
             self.h[3] * (8.0 * xi_0).cos() * (8.0 * eta_0).sinh(),
         ];
         let eta = eta_0 + etas.into_iter().sum::<Float>();
+        if !(xi.is_finite() && eta.is_finite()) {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
 
         Ok(ENH {
             easting: self.false_easting + self.k0 * self.B * eta,
@@ -154,6 +157,9 @@ impl Projection for TransverseMercator {
         // Same as asin(xi_p0.sin() / eta_p0.cosh()).tan(), but keeps its precision at the poles.
         let tan_beta_p = xi_p0.sin() / eta_p0.sinh().hypot(xi_p0.cos());
         let Q_p = tan_beta_p.asinh();
+        if !Q_p.is_finite() {
+            return Err(ProjectionError::ENHOutOfBounds);
+        }
 
         fn iter_fn(e: Float, Q_p: Float, Q_pp: Float) -> Float {
             Q_p + (e * (e * Q_pp.tanh()).atanh())
-- 
2.43.0


From 92882a9f4116e9ebb06b15fdade24fe1fa18ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 14/21] fix: report poles as out of bounds of the Mercator
 projections

---
 geokit/src/projections/cyl/mercator.rs     | 4 ++++
 geokit/src/projections/cyl/web_mercator.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/geokit/src/projections/cyl/mercator.rs b/geokit/src/projections/cyl/mercator.rs
index d27ebd6..b1b327a 100644
--- a/geokit/src/projections/cyl/mercator.rs
+++ b/geokit/src/projections/cyl/mercator.rs
@@ -120,6 +120,10 @@ impl Mercator {
 
 impl Projection for Mercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() == Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
         let sin_lat = input.lat.sin();
         let e_sin_lat = self.e * sin_lat;
         let lat1 = input.lat / 2.0 + PI_4 * RAD;
diff --git a/geokit/src/projections/cyl/web_mercator.rs b/geokit/src/projections/cyl/web_mercator.rs
index 07464ad..967c7a6 100644
--- a/geokit/src/projections/cyl/web_mercator.rs
+++ b/geokit/src/projections/cyl/web_mercator.rs
@@ -50,6 +50,10 @@ impl WebMercator {
 
 impl Projection for WebMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() == Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
         Ok(ENH {
             easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),
             northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),
-- 
2.43.0


From 2abe61e684578164eeb9f85b0ca9eadc002d56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 15/21] fix: longitude of Karney direct geodesics starting at
 or near a pole

---
 geokit/src/geodesy/geodesics/karney.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/karney.rs b/geokit/src/geodesy/geodesics/karney.rs
index 2d67b33..328463a 100644
--- a/geokit/src/geodesy/geodesics/karney.rs
+++ b/geokit/src/geodesy/geodesics/karney.rs
@@ -229,11 +229,12 @@ fn solve_triangle_from_p(beta: Angle, alpha: Azimuth) -> Triangle {
 
     // Eq (11)
     let sigma = Complex::new(cos_alpha * cos_beta, sin_beta).arg();
-    let (sin_sigma, cos_sigma) = sigma.sin_cos();
 
     // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator
+    // sin(sigma) and cos(sigma) are replaced by the terms of Eq (11) they are proportional to:
+    // cos(sigma) has lost its precision for points at the poles.
     let sin_alpha0 = alpha0.sin();
-    let omega = Complex::new(cos_sigma, sin_alpha0 * sin_sigma).arg();
+    let omega = Complex::new(cos_alpha * cos_beta, sin_alpha0 * sin_beta).arg();
 
     Triangle {
         alpha0: Azimuth::new(alpha0),
-- 
2.43.0


From 90cf4958c1a1669b1100b37f0e7adce76319ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 16/21] fix: azimuth beyond half a turn, at the poles and over
 short lengths in Rapp direct

---
 geokit/src/geodesy/geodesics/rapp.rs | 32 ++++++++++------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..bd0a798 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -109,18 +109,17 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         }
 
-        let alpha = sin_alpha.asin();
-        // From Eq (1.22)
-        let beta2 = ((sigma_1 + sigma).sin() * alpha.cos()).asin() * RAD;
-        let (sin_beta2, cos_beta2) = beta2.sin_cos();
+        // Spherical triangle relations of Eq (1.22), (1.57), (1.71) and (1.76) written in terms of
+        // beta1, alpha1 and sigma so that quadrants are kept over a full turn, and precision is kept
+        // at the poles and over short distances.
+        let cos_beta2_cos_alpha2 = cos_beta1 * cos_sigma * cos_alpha1 - sin_beta1 * sin_sigma;
+        let sin_beta2 = sin_beta1 * cos_sigma + cos_beta1 * sin_sigma * cos_alpha1;
+        let cos_beta2 = sin_alpha.hypot(cos_beta2_cos_alpha2);
         // geodetic latitude from reduced latitude
-        let lat2 = beta2.tan().atan2(1. - self.ellipsoid.f());
+        let lat2 = sin_beta2.atan2((1. - self.ellipsoid.f()) * cos_beta2);
 
-        // Eq (1.76)
-        let sin_lambda = sin_sigma * sin_alpha1 / cos_beta2;
-        // From Eq (1.57)
-        let cos_lambda = (cos_sigma - sin_beta1 * sin_beta2) / (cos_beta1 * cos_beta2);
-        let lambda = sin_lambda.atan2(cos_lambda);
+        let lambda = (sin_sigma * sin_alpha1)
+            .atan2(cos_beta1 * cos_sigma - sin_beta1 * sin_sigma * cos_alpha1);
 
         // Eq (1.56)
         let f = self.ellipsoid.f();
@@ -134,22 +133,13 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
 
         let L = lambda - lambda_minus_L;
 
-        let alpha21 = if s12.m() < 1000.0 {
-            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-            // Eq (1.73)
-            (sin_lambda * cos_beta1)
-                .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq)
-        } else {
-            // Eq (1.71)
-            (sin_lambda * cos_beta1)
-                .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2)
-        };
+        let alpha2 = sin_alpha.atan2(cos_beta2_cos_alpha2);
 
         Ok(Geodesic {
             p1,
             alpha1,
             p2: (lon1 + L * RAD, Lat::new(lat2 * RAD)),
-            alpha2: Azimuth::new(alpha21 * RAD),
+            alpha2: Azimuth::new(alpha2 * RAD),
             s: s12,
         })
     }
-- 
2.43.0


From 61fba0452ee0ec5216e2be97cf92a4361a662b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 17/21] fix: coincident points have a zero length inverse
 geodesic

---
 geokit/src/geodesy/geodesics/rapp.rs     | 8 ++++++++
 geokit/src/geodesy/geodesics/vincenty.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index bd0a798..3f4ec93 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -179,6 +179,14 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 + (sin_beta2 * cos_beta1 - sin_beta1 * cos_beta2 * cos_lambda).powi(2))
             .sqrt();
             sigma = sin_sigma.atan2(cos_sigma);
+            if sigma == 0.0 {
+                // Coincident points: Eq (1.61) is indeterminate
+                return Ok(Geodesic {
+                    p1,
+                    p2,
+                    ..Geodesic::default()
+                });
+            }
             sin_2_sigma = 2. * sin_sigma * cos_sigma;
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..58b9d82 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -147,6 +147,14 @@ impl<'e> VincentyGeodesicSolver<'e> {
             // Eq (16): tan(sigma) = sin(sigma) / cos(sigma)
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
+            if sigma == 0.0 {
+                // Coincident points: Eq (17) is indeterminate
+                return Ok(Geodesic {
+                    p1,
+                    p2,
+                    ..Geodesic::default()
+                });
+            }
 
             // Eq (17)
             let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
-- 
2.43.0


From cdebcd3ee36ce12f3a727c8f94652bac790cf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:46 +0000
Subject: [PATCH 18/21] fix: quadrant of Rapp inverse azimuths over a pole

---
 geokit/src/geodesy/geodesics/rapp.rs | 59 ++++++++--------------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 3f4ec93..4b251d5 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -4,7 +4,6 @@ use crate::cs::azimuth::Azimuth;
 use crate::cs::geodetic::{Lat, Lon};
 use crate::geodesy::geodesics::{Geodesic, GeodesicSolver};
 use crate::geodesy::Ellipsoid;
-use crate::math::fp::PI;
 use crate::math::polynomial::Polynomial;
 use crate::quantities::length::Length;
 use crate::units::angle::RAD;
@@ -251,50 +250,26 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 .m();
             Length::new(s_m, M)
         };
-        let sin_alpha1 = sin_alpha / cos_beta1;
-        let sin_alpha2 = sin_alpha / cos_beta2;
+        // The signs of the numerators and denominators of Eq (1.70) to (1.73) give the quadrants,
+        // including for meridional lines with or without pole crossing.
         let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-
-        // If the geodesic (p1, p2) is a meridional line, 2 cases:
-        let (alpha1, alpha2) = if lambda == 0. {
-            // lambda = 0 -> no pole crossing
-            if lat1 < lat2 {
-                (0., 0.)
-            } else {
-                (PI, PI)
-            }
-        } else if lambda == PI {
-            // lambda = PI -> pole crossing
-            if lat1 >= Lat::ZERO {
-                // crossing north pole by going north then south
-                (0., PI)
-            } else {
-                // crossing south pole by going south then north
-                (PI, 0.)
-            }
+        let (alpha1, alpha2) = if s.m() < 10_000.0 {
+            (
+                // Eq (1.72)
+                (sin_lambda * cos_beta2)
+                    .atan2((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
+                // Eq (1.73)
+                (sin_lambda * cos_beta1)
+                    .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
+            )
         } else {
-            let (tan_alpha12, tan_alpha21) = if s.m() < 10_000.0 {
-                (
-                    // Eq (1.72)
-                    lambda.sin() * cos_beta2
-                        / ((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
-                    // Eq (1.73)
-                    lambda.sin() * cos_beta1
-                        / ((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
-                )
-            } else {
-                (
-                    // Eq (1.70)
-                    lambda.sin() * cos_beta2
-                        / (sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
-                    // Eq (1.71)
-                    lambda.sin() * cos_beta1
-                        / (sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
-                )
-            };
             (
-                sin_alpha1.atan2(sin_alpha1 / tan_alpha12),
-                sin_alpha2.atan2(sin_alpha2 / tan_alpha21),
+                // Eq (1.70)
+                (sin_lambda * cos_beta2)
+                    .atan2(sin_beta2 * cos_beta1 - cos_lambda * sin_beta1 * cos_beta2),
+                // Eq (1.71)
+                (sin_lambda * cos_beta1)
+                    .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2),
             )
         };
 
-- 
2.43.0


From 534dea9eb7cfb6b4879438f978c256f315cf2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:42 +0000
Subject: [PATCH 19/21] fix: intervals ending at -pi and pi are equal

---
 geokit/src/cs/s1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index 30c92d2..f17d670 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -73,6 +73,9 @@ impl Interval {
             low = Angle::PI;
         } else if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
+        } else if hig == Angle::M_PI && low != Angle::PI {
+            // Same point as pi: `[lo..-pi]` and `[lo..pi]` are the same interval.
+            hig = Angle::PI;
         }
         Self { lo: low, hi: hig }
     }
-- 
2.43.0


From cdbd9bf10f4b526bbe19a21386f0a7584c0a191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:56 +0000
Subject: [PATCH 20/21] fix: sampled heights in the requested length unit

---
 geokit/src/bin/sample_s2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 9cc0c13..87212b0 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -80,7 +80,7 @@ fn main() {
                 .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                 .zip(height_distr)
                 .take(cmd.count as usize)
-                .map(|(ll, h)| [ll[0], ll[1], h])
+                .map(move |(ll, h)| [ll[0], ll[1], h / cmd.meter_per_unit])
                 .for_each(|llh| {
                     let [lon, lat, h] = llh;
                     println!("{lon:17.12} {lat:16.12} {h:9.3}");
-- 
2.43.0


From aaf24d582e01eb38a58e3da006c7c10265b256e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:57 +0000
Subject: [PATCH 21/21] fix: last term of the Rapp inverse length series

cos(8 sigma_m) was computed with sin(2 sigma) in place of sin(2 sigma_m).
---
 geokit/src/geodesy/geodesics/rapp.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 4b251d5..e9c8de0 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -204,9 +204,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
                 cos_6_sigma_m =
                     cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
-                cos_8_sigma_m = cos_2_sigma_m.powi(4)
-                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma.powi(2)
-                    + sin_2_sigma.powi(4);
+                cos_8_sigma_m = 2. * cos_4_sigma_m.powi(2) - 1.;
 
                 // Eq (1.56)
                 let big_as = self.axs.map(|p| p.eval_at(cos_alpha_sq));
-- 
2.43.0

