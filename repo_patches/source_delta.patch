From aabedc8f74616fb03f77549df622f65ef574d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 1/8] fix: use the configured displacer diameter in the rhombic
 drive

---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From efde202e5770fa8cdd2b23e84274714054b06d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 2/8] fix: return the state that matches the converged values

---
 src/engine/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..d07d54c 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the `State`
+    /// that corresponds to `values` is returned as `Err(self)`, with the
+    /// temperatures that were used to calculate them.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,8 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we return them unchanged
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From 500ba1bee82cc3ca82c29858b90c8c84edb52a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 3/8] fix: include working-space heat exchange in the gas
 energy balance

---
 src/engine/run.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..8c5a0fd 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -22,6 +22,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     pres: Pressure,
     solver: PhantomData<U>,
     temp: Temperatures,
+    thermal_res: ws::ThermalResistance,
     vol_chx: f64,
     vol_hhx: f64,
     vol_regen: f64,
@@ -48,6 +49,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
         let ws_parasitics = components.ws.parasitics(&ws_state);
+        let thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -56,6 +58,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             pres: state.pres,
             solver: PhantomData,
             temp: state.temp,
+            thermal_res,
             vol_chx,
             vol_hhx,
             vol_regen,
@@ -75,7 +78,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            // heat flow from fluid in compression space, including the heat it exchanges with the chx
+            Q_dot: self.ws_parasitics.comp.thermal + (temp - self.temp.chx) / self.thermal_res.comp,
         }
     }
 
@@ -127,7 +131,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            // heat flow from fluid in expansion space, including the heat it exchanges with the hhx
+            Q_dot: self.ws_parasitics.exp.thermal + (temp - self.temp.hhx) / self.thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From 485aac959ced4b4689fe8e366bf5e78c6fbe530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 4/8] fix: refuse a time resolution that cannot span a period

---
 src/state_equations/integrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..fc99f2b 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,6 +21,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        ensure!(num_points >= 2, "a period needs at least two points");
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
-- 
2.43.0


From c262331a0d63aea8de7a13811d934a92fd7fd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 5/8] fix: keep the last sample of the period whatever its
 length

---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index fc99f2b..91241ab 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -36,7 +36,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period + 1e-3 * dx, // margin for the rounding error that accumulates over the points
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From ffc820af3d99e2201884b9cc67035631244c02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 6/8] fix: report unsolvable state equations as an error
 instead of panicking

---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 72 +++++++++++++++----------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..b754be2 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -22,7 +22,7 @@ pub trait Cycle: Sized {
         initial_conditions: Conditions,
         num_points: u32,
         tol: OdeTolerance,
-    ) -> Result<Integration<Self>> {
+    ) -> Result<Integration> {
         Integration::try_from(self, initial_conditions, num_points, tol)
     }
 
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 91241ab..b10e3e0 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::{ensure, Result};
+use anyhow::{ensure, Error, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -8,23 +8,24 @@ use crate::types::{ConvergenceTolerance, OdeTolerance};
 use super::{flow_direction::FlowDirection, solver::solve, Conditions, Cycle, Values};
 
 /// Represents an integration of the state equations over a cycle
-pub struct Integration<'a, T: Cycle> {
-    cycle: &'a T,
-    points: Vec<Point>,
+pub struct Integration {
+    points: Vec<Values>,
 }
 
-impl<'a, T: Cycle> Integration<'a, T> {
+impl Integration {
     /// Attempt to integrate the state equations
-    pub fn try_from(
-        cycle: &'a T,
+    pub fn try_from<T: Cycle>(
+        cycle: &T,
         initial_conditions: Conditions,
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
         ensure!(num_points >= 2, "a period needs at least two points");
+        let error = RefCell::new(None);
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
+            error: &error,
         };
         let period = cycle.period();
         let dx = period / f64::from(num_points - 1);
@@ -43,7 +44,11 @@ impl<'a, T: Cycle> Integration<'a, T> {
             tol.abs,
         );
         stepper.integrate()?;
+        if let Some(error) = error.take() {
+            return Err(error);
+        }
 
+        let mut flow_dir = FlowDirection::default();
         let mut points = Vec::with_capacity(num_points as usize);
         for (&time, variables) in stepper.x_out().iter().zip(stepper.y_out().iter()) {
             let conditions = Conditions {
@@ -51,10 +56,17 @@ impl<'a, T: Cycle> Integration<'a, T> {
                 T_c: variables[1],
                 T_e: variables[2],
             };
-            points.push(Point { time, conditions });
+            let inputs = cycle.calculate_inputs(time, conditions);
+            let solution = solve::<T::Solver>(inputs, flow_dir)?;
+            flow_dir = FlowDirection::from_solution(&solution);
+            points.push(Values {
+                time,
+                conditions,
+                solution,
+            });
         }
 
-        Ok(Self { cycle, points })
+        Ok(Self { points })
     }
 
     /// Check if the integration over the cycle is converged
@@ -84,47 +96,29 @@ impl<'a, T: Cycle> Integration<'a, T> {
         last_point.conditions
     }
 
-    /// Calculate state equation values at each point
+    /// Return the state equation values at each point
     ///
     /// This function consumes the `Integration`.
     pub fn into_state_values(self) -> Vec<Values> {
-        let mut flow_dir = FlowDirection::default();
         self.points
-            .into_iter()
-            .map(|point| {
-                let Point { time, conditions } = point;
-                let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
-                flow_dir = FlowDirection::from_solution(&solution);
-                Values {
-                    time,
-                    conditions,
-                    solution,
-                }
-            })
-            .collect()
     }
 }
 
-/// The conditions within the cycle at a point in time
-struct Point {
-    time: f64,
-    conditions: Conditions,
-}
-
-/// The variables being integrated
-///
-/// The order is [`P`, `T_c`, `T_e`].
 type StateVariables = Vector3<f64>;
 
 struct IntegrationState<'a, T: Cycle> {
     cycle: &'a T,
     last_flow_dir: RefCell<FlowDirection>,
+    error: &'a RefCell<Option<Error>>, // `System` cannot return an error, so the first one is kept here
 }
 
 impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
     fn system(&self, time: f64, y: &StateVariables, dy: &mut StateVariables) {
+        if self.error.borrow().is_some() {
+            dy.fill(0.0); // the integration has already failed
+            return;
+        }
+
         let conditions = Conditions {
             P: y[0],
             T_c: y[1],
@@ -132,8 +126,14 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let solution = match solve::<T::Solver>(inputs, flow_dir_hint) {
+            Ok(solution) => solution,
+            Err(error) => {
+                self.error.replace(Some(error));
+                dy.fill(0.0);
+                return;
+            }
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
-- 
2.43.0


From a449f965b55495acd218c5ffed78c211afc67f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 7/8] fix: give up the SVD iteration on matrices that are not
 finite

---
 src/state_equations/solver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..f7d9b2f 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -233,7 +233,9 @@ pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
         let eps = 1e-12;
-        a.svd_unordered(true, true)
+        let max_iters = 1000; // without a limit, a matrix that is not finite is iterated on forever
+        a.try_svd_unordered(true, true, 5.0 * f64::EPSILON, max_iters)
+            .context("unable to decompose matrix with SVD")?
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
-- 
2.43.0


From a0040386d8f2645d827475f61206471e7da0acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 8/8] fix: scale the SVD cutoff with the matrix

---
 src/state_equations/solver.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index f7d9b2f..afd906e 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,11 +232,12 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
         let max_iters = 1000; // without a limit, a matrix that is not finite is iterated on forever
-        a.try_svd_unordered(true, true, 5.0 * f64::EPSILON, max_iters)
-            .context("unable to decompose matrix with SVD")?
-            .solve(b, eps)
+        let svd = a
+            .try_svd_unordered(true, true, 5.0 * f64::EPSILON, max_iters)
+            .context("unable to decompose matrix with SVD")?;
+        let eps = f64::EPSILON * svd.singular_values.max(); // the matrix of a small engine has small singular values
+        svd.solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
 }
-- 
2.43.0

