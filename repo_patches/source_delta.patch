From 9d1e13fb47f8e1402b60b27f564ac1a3601efe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 01/19] fix: SE2 exp/log small-angle branch for negative and
 near-zero angles

---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..e6ce51f 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 37d273b262fbabc769d9e4f7f7c2d727127943df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 02/19] fix: SE2 vee reads the translation entries

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index e6ce51f..74eaad5 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -180,7 +180,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From fee2ded96aae330cfdc9c5f29168ed542ccd9c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 03/19] fix: SE2 adjoint indexed out of bounds and used the
 wrong tangent order

---
 src/variables/se2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 74eaad5..438ac83 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,11 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        // Tangent space is ordered as (theta, x, y)
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From 38c1fae56692bdc25a8f1043f7d946bfd4020b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 04/19] fix: SO3 log sign for quaternions with negative scalar
 part

---
 src/variables/so3.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..45c27ab 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,13 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        let mut xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
+        let mut w = self.xyzw.w;
+        // q and -q are the same rotation, use the one with positive w
+        if w < T::from(0.0) {
+            xi = -xi;
+            w = -w;
+        }
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From 818b136c103a3e258951dd1cb51ad778720e80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 05/19] fix: SO3 exp for rotation angles beyond 2 pi

---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index 45c27ab..42105f0 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From e7b3518c4ec4b9af102fc4da8d100c2c6b0c0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 06/19] fix: numerical Jacobians of later variables overwrote
 the first variable's columns

---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From 989f32dd85e423c79543b0a8fb288952e85239d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 07/19] fix: forward_prop_derivative did not seed the
 derivative

---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..5dc97b0 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From 6039dc2578e399a84e59d1af0a82fc161f134da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:50 +0000
Subject: [PATCH 08/19] fix: optimizers reused a symbolic factorization from a
 previous variable ordering

---
 src/optimizers/gauss_newton.rs        | 3 +++
 src/optimizers/levenberg_marquardt.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/optimizers/gauss_newton.rs b/src/optimizers/gauss_newton.rs
index df0390d..6b568ce 100644
--- a/src/optimizers/gauss_newton.rs
+++ b/src/optimizers/gauss_newton.rs
@@ -54,6 +54,9 @@ impl<S: LinearSolver> Optimizer for GaussNewton<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // Any cached symbolic factorization belongs to a previous variable ordering
+        self.solver = S::default();
+
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..c8949aa 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -81,6 +81,9 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // Any cached symbolic factorization belongs to a previous variable ordering
+        self.solver = S::default();
+
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
-- 
2.43.0


From da4a47a9f74409fa1b45d53d3d1c7e1239ed5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:15 +0000
Subject: [PATCH 09/19] fix: Levenberg-Marquardt damping leaked from one
 optimization into the next

---
 src/optimizers/levenberg_marquardt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index c8949aa..ff4e95c 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -11,6 +11,9 @@ use crate::{
     linear::{CholeskySolver, LinearSolver, LinearValues},
 };
 
+// Damping used for the first step of an optimization
+const LAMBDA_INIT: dtype = 1e-5;
+
 pub struct LevenParams {
     pub lambda_min: dtype,
     pub lambda_max: dtype,
@@ -59,7 +62,7 @@ impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
             params_base: OptParams::default(),
             params_leven: LevenParams::default(),
             observers: OptObserverVec::default(),
-            lambda: 1e-5,
+            lambda: LAMBDA_INIT,
             graph_order: None,
         }
     }
@@ -83,6 +86,8 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     fn init(&mut self, _values: &Values) {
         // Any cached symbolic factorization belongs to a previous variable ordering
         self.solver = S::default();
+        // Start from fresh damping, a previous run may have left it beyond lambda_max
+        self.lambda = LAMBDA_INIT;
 
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
-- 
2.43.0


From da42791994a7e9c378d9b8b0708a530620b430ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:40 +0000
Subject: [PATCH 10/19] fix: Values::remove dropped the entry when the type did
 not match

---
 src/containers/values.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/containers/values.rs b/src/containers/values.rs
index 84eeeca..e14ee0a 100644
--- a/src/containers/values.rs
+++ b/src/containers/values.rs
@@ -143,8 +143,11 @@ impl Values {
         S: TypedSymbol<V>,
         V: VariableUmbrella,
     {
+        // Leave the entry alone if it isn't of the requested type
+        let key = symbol.into();
+        self.values.get(&key)?.downcast_ref::<V>()?;
         self.values
-            .remove(&symbol.into())
+            .remove(&key)
             .and_then(|value| value.downcast::<V>().ok())
             .map(|value| *value)
     }
-- 
2.43.0


From ff8e78c5df66f7098d6ec5a7cd120fc4b7b432a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:09 +0000
Subject: [PATCH 11/19] fix: converting a key back to a symbol truncated the
 character

---
 src/containers/symbol.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..23d564e 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
+            .unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From d95a147211eb0dee871314a98103b4e49a9c06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:50 +0000
Subject: [PATCH 12/19] fix: load_g20 put the prior on the second vertex
 instead of the first

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..43b2003 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -87,7 +87,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From 17b680929a63920d3ac97a15ef4d527bb363fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:15 +0000
Subject: [PATCH 13/19] fix: load_g20 only accepted single spaces between
 fields

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 43b2003..994fdb4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -28,8 +28,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
 
     for line in BufReader::new(file).lines() {
         let line = line.expect("Missing line");
-        let parts = line.split(" ").collect::<Vec<&str>>();
-        match parts[0] {
+        let parts = line.split_whitespace().collect::<Vec<&str>>();
+        match parts.first().copied().unwrap_or("") {
             "VERTEX_SE2" => {
                 let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                 let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
-- 
2.43.0


From 7510039fd00a365272844bf0de99009203d0c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:49 +0000
Subject: [PATCH 14/19] fix: load_g20 SE2 information matrix coordinate order

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 994fdb4..3af499f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders (x, y, theta), our tangent space is (theta, x, y)
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From 479165a9e3e88e99f5577ddbb2f30c7d1d61fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 15/19] fix: load_g20 SE3 information matrix cross block was
 transposed

---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3af499f..1bb2275 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From a6780ea1f4952b57a7c3fc59b2f51a48578fc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 16/19] fix: IMU preintegration propagated gyro noise with the
 gyro bias covariance

---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 55c309699cb40e0255d91a26c7f3f5312e1fc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:28 +0000
Subject: [PATCH 17/19] fix: IMU factor weighted world-frame velocity and
 position errors with the local-frame covariance

---
 src/residuals/imu_preint/residual.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 15b2438..b2ec429 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -337,9 +337,12 @@ impl Residual6 for ImuPreintegrationResidual {
         // Because of how the noise is integrated,
         // we have to use the right version of ominus here
         // This won't matter so much for the vector elements (right = left for vectors)
+        // The noise of the velocity and position lives in the frame of x1 though,
+        // so bring their differences there
+        let r1_inv = x1.rot().inverse();
         let r_r = r2_meas.ominus_right(x2.rot());
-        let r_vel = v2_meas.ominus_right(&v2);
-        let r_p = p2_meas.ominus_right(&p_2);
+        let r_vel = r1_inv.apply((v2_meas.0 - v2.0).as_view());
+        let r_p = r1_inv.apply((p2_meas.0 - p_2.0).as_view());
         let r_bias = b2_meas.ominus_right(&b2);
 
         let mut residual = VectorX::zeros(15);
-- 
2.43.0


From 2fae66fcea405d39230fee4f83cd30a817963c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:21 +0000
Subject: [PATCH 18/19] fix: fac! rejected a single key written as a call, as
 in the README

---
 factrs-proc/src/fac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/fac.rs b/factrs-proc/src/fac.rs
index 9b21744..e82b4bc 100644
--- a/factrs-proc/src/fac.rs
+++ b/factrs-proc/src/fac.rs
@@ -60,7 +60,7 @@ impl Parse for Factor {
             // in parentheses
             Expr::Tuple(t) => t.elems.clone(),
             // a single key for unary factors
-            Expr::Path(_) => {
+            Expr::Path(_) | Expr::Call(_) => {
                 let mut p = Punctuated::<Expr, Token![,]>::new();
                 p.push(input[1].clone());
                 p
-- 
2.43.0


From 673a11150679b4417d3e99c1684535dbb0b0b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:32 +0000
Subject: [PATCH 19/19] fix: assert_variable_eq! accepts variables by value and
 comparator options

---
 src/variables/macros.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/variables/macros.rs b/src/variables/macros.rs
index 8ddf10d..c611299 100644
--- a/src/variables/macros.rs
+++ b/src/variables/macros.rs
@@ -4,9 +4,12 @@
 /// [ominus](crate::variables::Variable::ominus)
 #[macro_export]
 macro_rules! assert_variable_eq {
-    ($x:expr, $y:expr) => {
-        matrixcompare::assert_matrix_eq!($crate::variables::Variable::ominus($x, &$y), $crate::linalg::VectorX::zeros($crate::variables::Variable::dim($x)));
-    };
+    ($x:expr, $y:expr) => {{
+        #[allow(unused_imports)]
+        use $crate::variables::Variable as _;
+        let diff = $x.ominus(&$y);
+        matrixcompare::assert_matrix_eq!(diff, $crate::linalg::VectorX::zeros(diff.len()));
+    }};
     ($x:expr, $y:expr, comp = exact) => {
         matrixcompare::assert_matrix_eq!($x.ominus(&$y), $crate::linalg::VectorX::zeros($x.dim()), comp = exact);
     };
@@ -34,7 +37,7 @@ macro_rules! assert_variable_eq {
             $x.ominus(&$y),
             $crate::linalg::VectorX::zeros($x.dim()),
             comp = float,
-            $($key:ident = $val:expr),+
+            $($key = $val),+
         );
     };
 }
-- 
2.43.0

