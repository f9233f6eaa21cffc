From 6d728bb1d0f2bd438da4cc1c89d8ff5b1d59b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 01/15] fix: find_idx stops only at a repeated knot that equals
 the parameter

---
 src/curve/knots/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..36a93b3 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,7 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    if Uk[i] == u && Uk[i + 1] == u {
                         break;
                     }
                 }
@@ -247,7 +247,7 @@ impl Knots {
 
                 while u <= Uk[i - 1] && i > pk {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    if Uk[i] == u && Uk[i - 1] == u {
                         break;
                     }
                 }
-- 
2.43.0


From eb7bc938a1897d134ac85f2e3532e1aa80b43c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 02/15] fix: find_idx RightOrEqual checks the lower limit
 before reading the knot

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 36a93b3..ccde4bc 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -245,7 +245,7 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
                     if Uk[i] == u && Uk[i - 1] == u {
                         break;
-- 
2.43.0


From 892a99b38bff6cff61575a3cfb8a47ebdf2aafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 03/15] fix: prepend_constrained pairs each curve with its own
 constraints

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..6748c34 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From 2e8bf375c2e035de66ba287704c5996bc26fb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 04/15] fix: merge adjusts the second curve with its own
 segment count

---
 src/manipulation/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..88e2327 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -521,6 +521,7 @@ fn adjust_shifted_control_points_of_both_splines(
 ) -> (MatD, MatD) {
     let p = a.degree();
     let n = a.segments();
+    let o = Tshifted.ncols() - 1;
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
@@ -532,7 +533,7 @@ fn adjust_shifted_control_points_of_both_splines(
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, o, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From f6d879724a869e3fe480d2900086efaa4b223d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 05/15] fix: merge stores derivative points at the index of
 their order

---
 src/manipulation/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 88e2327..a771871 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,8 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    // The derivative point of order zero is the control point that is already stored.
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From e03ce274573e2d9fc8372914efc9cfee94267f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 06/15] fix: insert rejects NaN parameters

---
 src/manipulation/insert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..2a3889d 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From de106bdaf0d5d2ac177070fa9b2421b88e2c79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 07/15] fix: split rejects NaN parameters

---
 src/manipulation/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..1e5dc7a 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From 154e81b526f295c8d11c3225d4733e53d4abd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 08/15] fix: get_derivative_curve calculates the derivatives of
 the returned curve

---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 6748c34..f870b54 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut curve = Curve { knots, points };
+        curve.calculate_derivatives();
+        curve
     }
 }
 
-- 
2.43.0


From 033c68cdbdc403618ed168c2de74851b1090ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 09/15] fix: fits reject a NaN penalization parameter

---
 src/curve/points/methods/fit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..8280e8e 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -80,7 +80,7 @@ pub fn compute_svd(
 
     match penalization {
         Some(penalization) => match penalization.lambda {
-            l if l < 0.0 => return Err(FitError::NegativeLambda { lambda: l }),
+            l if !(l >= 0.0) => return Err(FitError::NegativeLambda { lambda: l }),
             l if l > 0.0 && !is_uniform(knots).unwrap() /*TODO refactor errors and eliminate unwrap*/ => return Err(FitError::NonUniformKnots),
             l => {
                 let delta_mat = calculate_finite_difference_matrix(penalization.kappa, knots);
-- 
2.43.0


From 90cff546c338be80965fb62063950b8a60633549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 10/15] fix: the fixed fit rejects a kappa that leaves no
 finite difference of the internal points

---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..86c551f 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,6 +20,14 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    // The finite differences are taken over the `n - 1` internal control points.
+    match (knots.segments(), &penalization) {
+        (n, Some(pen)) if pen.kappa + 2 > n => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa })
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 55e8c3ff4d01a76541411abe7b383830f3b1fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 11/15] fix: the fixed fit of a single segment returns the end
 points

---
 src/curve/points/methods/fit/fixed.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 86c551f..1741573 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -28,13 +28,6 @@ pub fn fit(
         _ => {}
     }
 
-    let Q = generate_qvectors(knots, points, params);
-    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
-    let Nmat = calculate_coefficient_matrix(knots, points, params);
-
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
-
     let n = knots.segments();
     let m = points.segments();
     let mut control_points = MatD::zeros(points.dimension(), n + 1);
@@ -43,6 +36,18 @@ pub fn fit(
     control_points.column_mut(0).copy_from(&points.get(0));
     control_points.column_mut(n).copy_from(&points.get(m));
 
+    // A single segment has no internal control points.
+    if n == 1 {
+        return Ok(control_points);
+    }
+
+    let Q = generate_qvectors(knots, points, params);
+    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
+    let Nmat = calculate_coefficient_matrix(knots, points, params);
+
+    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+
     // TODO copy matrix view instead of individual columns
     for i in 1..=n - 1 {
         control_points.column_mut(i).copy_from(&internal_control_points.column(i - 1));
-- 
2.43.0


From 08b9def9b2f424932a486c1713fd2856fd2aadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 12/15] fix: de_boor spreads the knots over all parameters

---
 src/curve/knots/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..a238764 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,7 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    let d = U_bar.len() as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From 31235780bedea59c1cf6ce817e8bb4c2acea8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 13/15] fix: Curve::new rejects knots and control points whose
 counts do not fit together

---
 src/curve/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index f870b54..c5c4b0b 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -57,6 +57,12 @@ pub enum CurveError {
     )]
     DegreeAndSegmentsMismatch { p: usize, n: usize },
 
+    #[error(
+        "The number of knots `{knots}` must be equal to the number of control points `{points}` \
+        plus the curve degree `p = {p}` plus one."
+    )]
+    KnotAndControlPointCountMismatch { knots: usize, points: usize, p: usize },
+
     #[error("The derivative order `k = {k}` cannot be greater than curve degree `p = {p}.")]
     DegreeAndDerivativeOrderMismatch { p: usize, k: usize },
 
@@ -105,6 +111,9 @@ impl Curve {
 
         match (knots.degree(), points.segments()) {
             (p, n) if n < p => Err(CurveError::DegreeAndSegmentsMismatch { p, n }),
+            (p, n) if knots.len(0) != n + p + 2 => {
+                Err(CurveError::KnotAndControlPointCountMismatch { knots: knots.len(0), points: n + 1, p })
+            }
             _ => {
                 let mut c = Self { knots, points };
                 c.calculate_derivatives();
-- 
2.43.0


From cecde5eb2e7357aa6aa059bd09b08c3c38d4a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 14/15] fix: find_idx RightOrEqual does not look below the
 first domain knot

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index ccde4bc..3e7d3d5 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -247,7 +247,7 @@ impl Knots {
 
                 while i > pk && u <= Uk[i - 1] {
                     i -= 1;
-                    if Uk[i] == u && Uk[i - 1] == u {
+                    if i > pk && Uk[i] == u && Uk[i - 1] == u {
                         break;
                     }
                 }
-- 
2.43.0


From e0766ef89094f85bb6f4cbbf04e42bd81389f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 15/15] fix: Knots::segments_derivative does not underflow for
 high derivatives

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 3e7d3d5..c67b5e5 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0

