From cd9668138e0da26cb8a689c039829a283cadb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 01/12] fix: matrix exponential no longer loops forever when a
 finite matrix has an overflowing column sum

---
 crates/multicalc/src/linear_algebra/expm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..af627cf 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -35,6 +35,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // A column of finite entries can still sum past the largest float, which no halving undoes.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From 2e32e0a029cc2dba0505f28ee92f83e8ec7f6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 02/12] fix: counting the real roots of a constant polynomial
 no longer underflows

---
 crates/multicalc/src/polynomial/roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..4215ec0 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -447,7 +447,8 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             }
         }
 
-        while length < COEFFICIENT_COUNT {
+        // A flat line is a chain of its own: with a single entry there is nothing to divide.
+        while length >= 2 && length < COEFFICIENT_COUNT {
             // Each new entry is what is left over from dividing the two before it, with the sign
             // turned around.
             let previous = chain.get(length - 2).copied().unwrap_or_default();
-- 
2.43.0


From 8722ebc93e6095edd7ad1f00268a1cd38b4058e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 03/12] fix: a line integral over a component the field does
 not have returns an error instead of panicking

---
 crates/multicalc/src/vector_field/line_integral.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..787105b 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -24,6 +24,9 @@ fn get_partial<T: Numeric, const N: usize>(
     total_iterations: u64,
     idx: usize,
 ) -> Result<T, IntegrateError> {
+    if idx >= N {
+        return Err(IntegrateError::IndexOutOfRange);
+    }
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
@@ -133,6 +136,7 @@ pub fn line_integral_2d_custom<T: Numeric>(
 /// [`line_integral_2d_custom`] and the flux integral.
 ///
 /// # Errors
+/// [`IntegrateError::IndexOutOfRange`] if `idx` names no component of the field,
 /// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
@@ -208,6 +212,7 @@ pub fn line_integral_3d_custom<T: Numeric>(
 /// [`line_integral_3d_custom`] and the flux integral.
 ///
 /// # Errors
+/// [`IntegrateError::IndexOutOfRange`] if `idx` names no component of the field,
 /// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
-- 
2.43.0


From 7925adad28fc4d3307fe4644fd6623814d50e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 04/12] fix: a floating joint's slide columns follow the
 rotation of its mount, as its forward kinematics do

---
 crates/multicalc/src/kinematics/kinematic_tree.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..2614fee 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,15 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
-                        // included, by the same amount, in that fixed world direction — no
-                        // turning. Unlike every other joint's own axis, this one is not carried
-                        // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // Sliding along an axis of the joint's mount carries every point in the
+                        // subtree, tool included, by the same amount, in that fixed direction —
+                        // no turning. Unlike every other joint's own axis, this one is not
+                        // carried by the joint's own orientation: a floating joint's slide
+                        // reading is a position in its mount, which is the world itself when the
+                        // mount is the identity (MuJoCo's own free-joint convention), so axis 0
+                        // always means the same direction, whichever way the body is turned.
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((joint.origin().rotation().act(basis), Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From bd0218dce63611473c8044333be190901dc293e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 05/12] fix: end the last adaptive Rk45 step exactly on
 time_final so solve_on_grid accepts its last time

---
 crates/multicalc/src/ode/rk45.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..6dc8c48 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -368,9 +368,12 @@ impl<T: Numeric> Rk45<T> {
                 let delta = h - kahan_c;
                 let tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // The last step ends on `time_final` itself, not a rounding short of it.
+                let finished =
+                    (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
                 let step = Step {
                     time_start: time,
-                    time_end: tnew,
+                    time_end: if finished { time_final } else { tnew },
                     state_start: y,
                     state_end: state5,
                     derivative_start: stage1,
@@ -380,7 +383,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if finished {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From ad8a4c0662a90b6d36f24a566bb70db6cced6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 06/12] fix: multinomial and residual resampling never pick a
 zero-weight particle on a draw of exactly zero

---
 crates/multicalc/src/estimation/particle_filter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..4908d41 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -174,20 +174,20 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
     }
 }
 
-/// The smallest source whose cumulative weight reaches `draw`.
+/// The smallest source whose cumulative weight passes `draw`, so one of zero weight is never drawn.
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
     weights.len() - 1
 }
 
-/// The smallest source whose cumulative fractional remainder reaches `draw`.
+/// The smallest source whose cumulative fractional remainder passes `draw`.
 #[must_use]
 fn draw_from_remainders<T: Numeric>(
     weights: &[T],
@@ -199,7 +199,7 @@ fn draw_from_remainders<T: Numeric>(
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
         running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-- 
2.43.0


From 17b7b39d7a16da70961b324746ef1b665c3196e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 07/12] fix: a PID with a negative integral gain holds its
 integral when the step pushes a saturated output deeper

---
 crates/multicalc/src/control/pid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/control/pid.rs b/crates/multicalc/src/control/pid.rs
index e205e01..831e79b 100644
--- a/crates/multicalc/src/control/pid.rs
+++ b/crates/multicalc/src/control/pid.rs
@@ -199,7 +199,8 @@ impl<T: Numeric> Pid<T> {
         self.previous_error = error;
         self.has_previous_measurement = true;
 
-        let candidate_integral = self.integral + self.integral_gain * error * self.timestep;
+        let integral_step = self.integral_gain * error * self.timestep;
+        let candidate_integral = self.integral + integral_step;
         let unsaturated = proportional_term + candidate_integral + derivative_term;
         let output = unsaturated
             .max(self.output_minimum)
@@ -207,8 +208,10 @@ impl<T: Numeric> Pid<T> {
 
         let saturated_high = unsaturated > self.output_maximum;
         let saturated_low = unsaturated < self.output_minimum;
-        let pushing_deeper =
-            (saturated_high && error > T::ZERO) || (saturated_low && error < T::ZERO);
+        // The step's own sign says which way it pushes: with a negative integral gain it pushes
+        // against the error.
+        let pushing_deeper = (saturated_high && integral_step > T::ZERO)
+            || (saturated_low && integral_step < T::ZERO);
         if !pushing_deeper {
             self.integral = candidate_integral;
         }
-- 
2.43.0


From 3bfd3ffdb8c654fa02e93104fb230cf183399cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 08/12] fix: the real roots of a cubic repeat a triple root
 three times, as they do a double root

---
 crates/multicalc/src/polynomial/roots.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4215ec0..4164926 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -208,7 +208,13 @@ impl<T: Numeric> Polynomial<4, T> {
 
         let mut roots = RealRoots::new();
         if reduced_linear == T::ZERO {
-            roots.push((-reduced_constant).cbrt() + slide);
+            let root = (-reduced_constant).cbrt() + slide;
+            roots.push(root);
+            // With both reduced terms gone the curve is a shifted y³, whose one root counts thrice.
+            if reduced_constant == T::ZERO {
+                roots.push(root);
+                roots.push(root);
+            }
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
         {
-- 
2.43.0


From 8a25a69ffee00baea9d4578d35005c3eb8ab0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 09/12] fix: refuse a band-pass or notch whose band is as wide
 as half the sampling rate, which was unstable

---
 crates/multicalc/src/signal_processing/biquad.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..1435a00 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the width of the band, `center_hz / quality_factor`, does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -146,7 +146,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the width of the band, `center_hz / quality_factor`, does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -317,6 +317,13 @@ impl<T: Numeric> BiquadCoefficients<T> {
         timestep: T,
     ) -> Result<Self, SignalError> {
         Self::check_design(frequency_hz, quality_factor, timestep)?;
+        // A band this wide takes the tangent below past its pole, and the filter would grow without
+        // bound.
+        if matches!(design, Design::BandPass | Design::Notch)
+            && frequency_hz * timestep >= T::HALF * quality_factor
+        {
+            return Err(SignalError::FrequencyOutOfRange);
+        }
 
         let angle = T::TWO * T::PI * frequency_hz * timestep;
         let cosine = angle.cos();
-- 
2.43.0


From b2c845df166b2ce1112e4319bb1e6147e9b80e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 10/12] fix: the 2D flux integral is taken across the curve,
 not along it

---
 .../multicalc/src/vector_field/flux_integral.rs   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..fb72e93 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -4,7 +4,8 @@ use crate::scalar::Numeric;
 
 use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
 
-/// Computes the flux integral of a 2D vector field across a parametrized curve.
+/// Computes the flux integral of a 2D vector field across a parametrized curve, outward for a
+/// closed curve run counter-clockwise.
 ///
 /// The curve is described by a parameter `t`: the transforms map `t` to each coordinate, and
 /// the field is sampled at the resulting curve position. Uses the default iteration count;
@@ -59,18 +60,22 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
+    // the outward normal of a counter-clockwise curve is (dy, -dx), so each component is integrated
+    // along the other one's axis
+    let crossed = [vector_field[1], vector_field[0]];
+
     Ok(line_integral_partial_2d(
-        vector_field,
+        &crossed,
         transformations,
         integration_limit,
         total_iterations,
-        0,
+        1,
     )? - line_integral_partial_2d(
-        vector_field,
+        &crossed,
         transformations,
         integration_limit,
         total_iterations,
-        1,
+        0,
     )?)
 }
 
-- 
2.43.0


From 35d08bb7ecf86187abaa2043e7ab0126861767c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 11/12] fix: a point with a coordinate that is not a number is
 in no cell of a map

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..6e9cce7 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // A coordinate that is not a number is nowhere on the map, but would cast to index zero.
+        if column.is_nan() || row.is_nan() || column < 0.0 || row < 0.0 {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
-- 
2.43.0


From 817483da268df0e593d653e5c2ba5426174b0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 12/12] fix: inverse kinematics reports the residual and the
 reason of the configuration it returns

A last step that arrived was reported as an exhausted budget with the target unmet, and an empty budget reported residuals of zero wherever the tool was.
---
 .../src/kinematics/inverse_kinematics.rs      | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..4e3d127 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -394,20 +392,25 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         }
 
         // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        // The last step the budget allowed may have been the one that arrived.
+        let arrived = position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance;
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination: if arrived {
+                InverseKinematicsTermination::Converged
+            } else {
+                InverseKinematicsTermination::IterationBudget
+            },
         })
     }
 
-- 
2.43.0

