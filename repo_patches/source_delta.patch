From 71e60330159c077c6c1ca737420c36b9730acba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 01/12] fix: pose Jacobian with respect to the pose had a
 translation in its constant row

The derivative of the output homogeneous coordinate in respect to the pose is zero, but the
4x6 Jacobian was assembled from the rows of translation * J and transposed, which put the
translation there. Skew3::jacobian_self also returned hat(y) where the documentation (and the
derivative of exp(w) y) is -hat(y).
---
 cv-core/src/pose.rs | 20 ++++++++++----------
 cv-core/src/so3.rs  |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..9da5e97 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -1,8 +1,7 @@
 use crate::{CameraPoint, FeatureMatch, FeatureWorldMatch, Projective, Skew3, WorldPoint};
 use derive_more::{AsMut, AsRef, From, Into};
 use nalgebra::{
-    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Matrix6x4, Rotation3, Vector3, Vector4,
-    Vector6,
+    zero, IsometryMatrix3, Matrix3x4, Matrix4, Matrix4x6, Rotation3, Vector3, Vector4, Vector6,
 };
 use sample_consensus::Model;
 
@@ -162,15 +161,16 @@ fn pose_jacobian_self<P: Pose>(
     let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
-    Matrix6x4::<f64>::from_rows(&[
-        dp_dt.row(0),
-        dp_dt.row(1),
-        dp_dt.row(2),
-        dp_ds.row(0),
-        dp_ds.row(1),
-        dp_ds.row(2),
+    //
+    // Each column is the derivative in respect to one degree of freedom of the pose.
+    Matrix4x6::<f64>::from_columns(&[
+        dp_dt.column(0),
+        dp_dt.column(1),
+        dp_dt.column(2),
+        dp_ds.column(0),
+        dp_ds.column(1),
+        dp_ds.column(2),
     ])
-    .transpose()
 }
 
 /// This contains a world pose, which is a pose of the world relative to the camera.
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..9ef10b6 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -241,7 +241,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From 35727a55d462fc73f18f94db9236063716dde77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 02/12] fix: logarithm of a half turn was zero

---
 cv-core/src/so3.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 9ef10b6..f8b7fa4 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -263,7 +265,8 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The axis of the matrix vanishes for half turns, so it is taken from the quaternion.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From f263183b80071ca47952a6953668cea9784b2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 03/12] fix: uncalibrate with K1 distortion was NaN at the
 principal point and for k1 = 0

---
 cv-pinhole/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..8730b2a 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,9 +226,9 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
+        let q = self.k1 * u2;
+        // This is actually r^2 * k1, written so that it is defined without distortion (q = 0).
+        let r2_mul_k1 = 2.0 * q / (1.0 - 2.0 * q + Float::sqrt(1.0 - 4.0 * q));
         let distorted = undistorted * (1.0 + r2_mul_k1);
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
-- 
2.43.0


From 392c3d99988717b507a049bbe69cc43085b21af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 04/12] fix: centered principal point was computed from the
 size of a pixel instead of the pixel count

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index 8730b2a..1bad6f8 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -279,7 +279,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 899f91cae572b555100c3109f0f25096b3afd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 05/12] fix: cheirality was tested from the world origin
 instead of from each camera

---
 cv-geom/src/triangulation.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..cf41768 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -121,9 +121,10 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
+                    pose.transform(*point)
+                        .bearing()
+                        .dot(&bearing)
+                        .is_sign_positive()
                 })
             })
     }
@@ -354,9 +355,10 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 point.bearing().dot(&a).is_sign_positive()
-                    && point
+                    && relative_pose
+                        .transform(*point)
                         .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
+                        .dot(&b)
                         .is_sign_positive()
             })
     }
@@ -433,9 +435,10 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         .filter(|point| {
             // Ensure the cheirality constraint.
             pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
+                pose.transform(*point)
+                    .bearing()
+                    .dot(&bearing)
+                    .is_sign_positive()
             })
         })
     }
@@ -524,7 +527,10 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // The bearing `a` starts at `translation`, not at the origin.
+            let h = point.homogeneous();
+            (h.xyz() - translation * h.w).dot(&a).is_sign_positive()
+                && point.bearing().dot(&b).is_sign_positive()
         })
     }
 }
@@ -600,7 +606,10 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // The bearing `a` starts at `translation`, not at the origin.
+            let h = point.homogeneous();
+            (h.xyz() - translation * h.w).dot(&a).is_sign_positive()
+                && point.bearing().dot(&b).is_sign_positive()
         })
     }
 }
-- 
2.43.0


From b2967a325617f735efc8d35ad4cedef70b79cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 06/12] fix: five-point solver reads the x, y, z, 1 rows of the
 eigenvector

The monomial basis ends in x, y, z, 1 (rows 6 to 9); rows 5 to 8 are zz, x, y, z,
so no returned essential matrix satisfied the epipolar constraints.
---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From 9cadab25c470aed1ceacfa0a31339af1f6eaf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 07/12] fix: five-point solver terminates when the Schur
 decomposition does not converge

Matrix::complex_eigenvalues iterates without a limit; some exact samples never returned.
---
 nister-stewenius/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..7d28098 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,7 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, OMatrix, OVector, Schur, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -36,6 +36,7 @@ const BASIS_1: usize = 19;
 const EIGEN_CONVERGENCE: f64 = 1e-12;
 const EIGEN_ITERATIONS: usize = 1000;
 const EIGEN_THRESHOLD: f64 = 1e-12;
+const SCHUR_ITERATIONS: usize = 1000;
 const SVD_CONVERGENCE: f64 = 1e-12;
 const SVD_ITERATIONS: usize = 1000;
 /// The threshold which the singular value must be below for it
@@ -220,10 +221,13 @@ fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
 ) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
-        .filter_map(move |i| {
-            let e = eigenvalues[i];
+    // The iterations are limited because the decomposition does not converge for every matrix.
+    let eigenvalues =
+        Schur::try_new(at, f64::EPSILON, SCHUR_ITERATIONS).map(|schur| schur.complex_eigenvalues());
+    eigenvalues
+        .into_iter()
+        .flat_map(|eigenvalues| (0..eigenvalues.len()).map(move |i| eigenvalues[i]))
+        .filter_map(move |e| {
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-- 
2.43.0


From 7ad33ccd9366b706f34630ed43a4a6402c2bdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 08/12] fix: five-point solver returns no pose for a degenerate
 sample

It went on with an all-zero action matrix and null space, which produced up to
40 poses unrelated to the matches.
---
 nister-stewenius/src/lib.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 7d28098..627f8d6 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -241,28 +241,20 @@ fn essentials_from_action_ebasis(
 }
 
 /// Takes in two sets of normalized key points.
-/// Returns all essential matrix solutions.
+/// Returns all essential matrix solutions, or `None` if the sample is degenerate.
 fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
-) -> impl Iterator<Item = EssentialMatrix> {
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -280,7 +272,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    essentials_from_action_ebasis(at, e_basis)
+    Some(essentials_from_action_ebasis(at, e_basis))
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
@@ -325,6 +317,8 @@ impl Estimator<FeatureMatch> for NisterStewenius {
         }
         assert!(count == 5);
         five_points_relative_pose(&a, &b)
+            .into_iter()
+            .flatten()
             .filter_map(|essential| {
                 essential.possible_unscaled_poses(self.epsilon, self.iterations)
             })
-- 
2.43.0


From ea04d5c2ff5c1bfd918cdb7f6617777f2ea68195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 09/12] fix: three-point solver converges when the pose is a
 half turn

The iteration that extracts the rotation started from the identity, where a half turn is a stationary point, so most poses returned for a half turn were not even close to a solution.
---
 lambda-twist/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..9078c15 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -303,13 +303,17 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // `rot` is nearly a rotation already. Starting from the identity would not converge
+                // for a half turn, as that is a stationary point of the iteration.
+                let guess =
+                    UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rot));
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        guess.to_rotation_matrix(),
                     ),
                 )
             })
-- 
2.43.0


From adbf1b1b285a6392ef84e90e577471c1c470ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 10/12] fix: single-view L1 optimization gave a NaN pose when
 every landmark is at infinity

---
 cv-optimize/src/single_view_optimizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..aa4e326 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,11 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // If every landmark is at infinity, there is nothing to optimize against.
+        if ts == 0.0 {
+            break;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From 07647062ebf01772da1bb9bde6d2b10449c4d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:57 +0000
Subject: [PATCH 11/12] fix: let the reordering of a one-step diffusion cycle
 terminate

With n = 1 kappa was 0, and the index of the reordering underflowed (a panic
in debug builds, an endless loop in release), e.g. with 16 sublevels.
---
 akaze/src/fed_tau.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/akaze/src/fed_tau.rs b/akaze/src/fed_tau.rs
index 9cdfe58..7d9531e 100644
--- a/akaze/src/fed_tau.rs
+++ b/akaze/src/fed_tau.rs
@@ -70,7 +70,7 @@ fn fed_tau_internal(n: usize, scale: f64, tau_max: f64, reordering: bool) -> Vec
         // Permute list of time steps according to chosen reordering function
         // Choose kappa cycle with k = n/2
         // This is a heuristic. We can use Leja ordering instead!
-        let kappa = n / 2;
+        let kappa = (n / 2).max(1);
         let mut prime = n + 1;
         while !primal::is_prime(prime as u64) {
             prime += 1;
-- 
2.43.0


From daea6d5704d9e87fdf1c475d3fc2188eeb67de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:56 +0000
Subject: [PATCH 12/12] fix: the contrast factor of an image without gradients
 was zero

Its conductivities, and with them the whole scale space, were then NaN.
---
 akaze/src/contrast_factor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akaze/src/contrast_factor.rs b/akaze/src/contrast_factor.rs
index db1a225..8f87a58 100644
--- a/akaze/src/contrast_factor.rs
+++ b/akaze/src/contrast_factor.rs
@@ -56,7 +56,8 @@ pub fn compute_contrast_factor(
         "hmax: {}, threshold: {}, num_elements: {}",
         hmax, threshold, num_elements
     );
-    if num_elements >= threshold {
+    // Without any gradient k is 0, which is no contrast to divide by.
+    if k > 0 && num_elements >= threshold {
         hmax * (k as f64) / (num_bins as f64)
     } else {
         0.03
-- 
2.43.0

