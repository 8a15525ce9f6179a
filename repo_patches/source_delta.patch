From feb6d5552b822a3a726959acfeea3348810950ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:07 +0000
Subject: [PATCH 01/22] fix: is_infinite of f32 and f64 answered is_finite

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..1ac0302 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From a801c6a0511e5289bf988c46a9be7ff290437acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:09 +0000
Subject: [PATCH 02/22] fix: pi_upper of f32 was below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1ac0302..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From aabe90faff79cb6b663488a93ff4427cfefed055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:11 +0000
Subject: [PATCH 03/22] fix: upper bound of a product of two intervals that
 straddle zero

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From e558ae7c9a9ef186ced8b3791967bb700b7fbef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:14 +0000
Subject: [PATCH 04/22] fix: square root of an interval whose lower bound was
 rounded below zero

---
 src/math/interval.rs           | 4 +++-
 src/math/interval_as_gfloat.rs | 5 +----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..40b969d 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,9 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // rounding may have pushed the lower bound slightly below zero
+        let inf = self.inf.max(T::zero());
+        Self::new(inf.sqrt().next_down(), self.sup.sqrt().next_up())
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..57c5bb4 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -71,10 +71,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn sqrt(self) -> Self {
-        Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
-            self.sup.sqrt().next_up(),
-        ))
+        Interval::sqrt(self)
     }
 
     fn sin(self) -> Self {
-- 
2.43.0


From 64b0300b0223ac36b00050958e865b5bddde3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:16 +0000
Subject: [PATCH 05/22] fix: sine and cosine of intervals wider than half a
 period missed extrema

---
 src/math/interval_as_gfloat.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 57c5bb4..d986e0f 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -84,6 +84,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // both a minimum and a maximum lie in between
+            if diff >= T::pi() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -107,11 +111,15 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if sin_inf.signum() == sin_sup.signum() {
+            // both a minimum and a maximum lie in between
+            if diff >= T::pi() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
             // minima
-            if sin_inf.is_positive() {
+            if sin_inf.is_positive() || (sin_inf.is_zero() && sin_sup.is_negative()) {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
             // maxima
-- 
2.43.0


From 50488ca7f0416d927e1cc3f82956e18b90a09533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:19 +0000
Subject: [PATCH 06/22] fix: arc sine and arc cosine of intervals were clipped
 to the first quadrant

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index d986e0f..2def6c4 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -140,12 +140,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From bcfc2bb3fd311559e4424bf6331664de7e103818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 07/22] fix: atan2 of intervals on the axes answered zero

---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 2def6c4..f641c1d 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -156,7 +156,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From 633b06fe0b486e0b23711de1140434ed452abd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:23 +0000
Subject: [PATCH 08/22] fix: min_max, clamp and signum of overlapping intervals
 did not contain the pointwise results

---
 src/math/interval.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 40b969d..983c5c3 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -428,11 +428,23 @@ impl<T: GFloat> Scalar for Interval<T> {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
     #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        (Scalar::min(self, other), Scalar::max(self, other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        Scalar::min(Scalar::max(self, lo), hi)
+    }
+    #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0


From 202c78f7e517b0c08dd3994ff5cff6a6d045766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:08 +0000
Subject: [PATCH 09/22] fix: map_normal multiplied the third term by the normal
 a second time

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 1e07a4da2b0114ac0274069b02d0142265f77bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:11 +0000
Subject: [PATCH 10/22] fix: mapping an interval vector panicked on the
 rounding of its zero w

---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..3edecc7 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    // intervals can only be compared to zero up to rounding
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From f38622bfa6c28044132aea7510a521082c17d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 11/22] fix: map_bbox accumulated rows into columns

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From b02561496052bf72042bc0ce82b966f571680485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:50 +0000
Subject: [PATCH 12/22] fix: ray-box intersection of rays parallel to a face
 and of empty boxes

---
 src/geometry/bbox.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..0a531cc 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -134,15 +134,29 @@ impl Bbox3 {
     /// Performs ray-box intersection and returns the intersection period of
     /// the ray
     pub fn intersect_ray(self, ray: Rayf) -> Option<(Float, Float)> {
-        // should we store the reciprocal of ray.direction?
-        let tmin = (self.pmin - ray.origin) / ray.direction;
-        let tmax = (self.pmax - ray.origin) / ray.direction;
+        let mut tnear = Float::lowest();
+        let mut tfar = Float::highest();
 
-        let t1 = tmin.min(tmax);
-        let t2 = tmin.max(tmax);
+        for i in 0..3 {
+            if self.pmin[i] > self.pmax[i] {
+                // the box is empty
+                return None;
+            }
+            if ray.direction[i].is_zero() {
+                // the ray stays on one side of both planes, 0 / 0 can't tell
+                if ray.origin[i] < self.pmin[i] || ray.origin[i] > self.pmax[i] {
+                    return None;
+                }
+                continue;
+            }
 
-        let tnear = t1.x().max(t1.y()).max(t1.z());
-        let tfar = t2.x().min(t2.y()).min(t2.z());
+            // should we store the reciprocal of ray.direction?
+            let tmin = (self.pmin[i] - ray.origin[i]) / ray.direction[i];
+            let tmax = (self.pmax[i] - ray.origin[i]) / ray.direction[i];
+
+            tnear = tnear.max(tmin.min(tmax));
+            tfar = tfar.min(tmin.max(tmax));
+        }
 
         if tnear > ray.tmax || tfar < Float::zero() || tnear > tfar {
             None
-- 
2.43.0


From 69918e717925943a1e38df78cda3c8186a96b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:53 +0000
Subject: [PATCH 13/22] fix: polar angles of the lower half of a sphere were
 clipped to the equator

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 35b6318c8abf63cfda1a2901d5ed1c6e411889d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:56 +0000
Subject: [PATCH 14/22] fix: the area of a sphere ignored that azimuths start
 at -pi

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..202921e 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From 0e19ecd3e9ffe47e06062d08e00059369a198586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 15/22] fix: the normal at the poles of a sphere was NaN

---
 src/geometry/sphere.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 202921e..e88ca80 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -6,7 +6,7 @@ use crate::{
     },
     math::{
         scalar::{Float, GFloat, Scalar, SignedScalar},
-        vector::{Point2f, Point3f, Vector3f},
+        vector::{Normal3f, Point2f, Point3f, Vector3f},
     },
 };
 
@@ -157,8 +157,14 @@ impl IntersectsRay for Sphere {
         let dpdv = Vector3f::new(p.z() * cos_phi, p.z() * sin_phi, -self.radius * sin_theta)
             * (theta_max_minus_theta_min);
 
-        let surface_interaction =
-            SurfaceInteraction::new(intersection_params.p, Point2f::new(u, v), dpdu, dpdv);
+        // dpdu vanishes at the poles, so the normal can't be computed from it
+        let surface_interaction = SurfaceInteraction {
+            p,
+            n: Normal3f::from(Vector3f::from(p).normalize()),
+            uv: Point2f::new(u, v),
+            dpdu,
+            dpdv,
+        };
 
         Some(IntersectionResult {
             surface_interaction,
-- 
2.43.0


From 2073702293775619e0d56ed372e9f3bc7b680a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 16/22] fix: a transformed primitive reported its interaction
 in object space

---
 src/geometry/primitive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..5135002 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,18 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        let object_result = self.primitive.intersect(transformed_ray)?;
+        let interaction = object_result.surface_interaction;
+        Some(IntersectionResult {
+            surface_interaction: SurfaceInteraction {
+                p: self.object_to_world(interaction.p),
+                n: self.object_to_world(interaction.n).normalize(),
+                uv: interaction.uv,
+                dpdu: self.object_to_world(interaction.dpdu),
+                dpdv: self.object_to_world(interaction.dpdv),
+            },
+            t_ray: object_result.t_ray,
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From c98ec329acd8c805b4aa12da4246cef9fa437506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:28 +0000
Subject: [PATCH 17/22] fix: a primitive list returned its last hit instead of
 the nearest

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 5135002..b4ebdee 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -162,7 +162,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From d08be8423b7ecae692a656d187f11da032c44a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 18/22] fix: the film of the thin-lens camera was four times
 too small for its field of view

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..043c253 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::from_f32(2.0) * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 72620389ca8205546218e582eedfc523db0d09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:32 +0000
Subject: [PATCH 19/22] fix: the thin-lens camera focused short of the focal
 plane

---
 src/cameras/thin_lens.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 043c253..4673bd8 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -88,11 +88,8 @@ impl Camera for ThinLensCamera {
         // the ray passing from p_film to p_lens will refract and intersect with
         // the ray passing from p_film to the center of the lens at the focal
         // plane
-        let film_to_lens = Rayf::new(
-            p_film,
-            Point3f::new(Float::zero(), Float::zero(), Float::zero()) - p_film,
-            Float::zero(),
-        );
+        let lens_center = Point3f::new(Float::zero(), Float::zero(), Float::zero());
+        let film_to_lens = Rayf::new(lens_center, lens_center - p_film, Float::zero());
 
         // find t at z = -focal_distance
         let t = -self.focal_distance / film_to_lens.direction.z();
-- 
2.43.0


From 8e75713e3d1e890e8260c35508cebb5660b9c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:30 +0000
Subject: [PATCH 20/22] fix: the area of a sphere counted the z range beyond
 the sphere

---
 src/geometry/sphere.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index e88ca80..53ddfc4 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,10 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
+        // only the part of the z range within the sphere has a surface
+        let z_min = Float::clamp(self.z_min, -self.radius, self.radius);
+        let z_max = Float::clamp(self.z_max, -self.radius, self.radius);
+        (self.phi_max + Float::pi()) * self.radius * (z_max - z_min)
     }
 }
 
-- 
2.43.0


From 614d45167cc7b8d9d31d726fc56ad4ca3f561137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:45 +0000
Subject: [PATCH 21/22] fix: Interval::nan() returns NaN instead of panicking

---
 src/math/interval_as_gfloat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index f641c1d..ed02d95 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -38,7 +38,11 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        // Interval::new refuses NaN
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From bcf011b6e39da8c6f47dff427975457e10affdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:53 +0000
Subject: [PATCH 22/22] fix: the image of an empty box is empty

Mapping an inverted box swapped its bounds, so the box of a placed list
without members was (nearly) all of space.
---
 src/geometry/bbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 0a531cc..41add22 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,6 +298,11 @@ impl TransformMap<Bbox3> for Transformf {
 
 #[inline(always)]
 fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
+    // nothing is mapped to nothing, adding up inverted ranges would swap them
+    if (0..3).any(|i| bbox.pmin[i] > bbox.pmax[i]) {
+        return Bbox3::default();
+    }
+
     // Graphics Gems: Transforming Axis-aligned Bounding Boxes
     // by James Arvo 1990
     let mut pmin = m.col(3);
-- 
2.43.0

