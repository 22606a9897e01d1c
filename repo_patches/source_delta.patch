From db522f28f49c0ba19376dcbc59b2c028d43657fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 01/31] fix: implicit ASIF must not jit the scipy based
 integrator by default

The compose() documentation states that pred_state and integrate default to False;
with True every implicit optimization RTA raises TracerArrayConversionError.
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..710295f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -517,7 +517,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From f6600ab9a9011aa9ddab98311ac2390b127e134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 02/31] fix: implicit ASIF subsampling must account for slack
 variable columns

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 710295f..0146e0e 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -720,7 +720,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From 0bf8c555669b27b6ee876d169f9b611d48eb8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 03/31] fix: pass constraint params when checking safety in
 sample testing

---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From 4d8c4ba316ae4efdf5f7a15b8075f883e5aecc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 04/31] fix: reset the simplex latch timer on reset

Otherwise the first latch of a new episode is shortened by the time latched in the previous one.
---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..702febf 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -37,6 +37,7 @@ class SimplexModule(BackupControlBasedRTA):
         Also calls reset on the backup controller
         """
         super().reset()
+        self.latched_elapsed = 0.
         self.reset_backup_controller()
 
     def compose(self):
-- 
2.43.0


From 4559570d87a11e3d2f610f9eb60417943bea9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 05/31] fix: CascadedRTA.reset must reset the cascaded rta
 modules

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..a8efcec 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -364,6 +364,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the rta module and every rta in the cascade to the initial state at the beginning of an episode
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From abafe60d28fdbba7938db43a1056cd9c32dabe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 06/31] fix: simplex must monitor the control that will
 actually be applied

The monitor predicted with the unclipped desired control while filter_control returns the
clipped one, so an out of bounds desired control could be passed on although its clipped
version violates a constraint.
---
 run_time_assurance/rta/simplex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 702febf..fe0a7d8 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -72,6 +72,9 @@ class SimplexModule(BackupControlBasedRTA):
         If latched, returns backup control.
         Otherwise returns backup control if monitor returns True
         """
+        # Only the clipped control can be applied, so it is the control that has to be verified
+        control = self._clip_control_jax(control)
+
         latched = False
         if self.intervening:
             if self.latched_elapsed >= self.latch_time:
-- 
2.43.0


From ba724a9b616797b818f45e29e133ac891c032765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 07/31] fix: a disabled rta module must not report that it is
 intervening

When disabled the desired control is passed through, but the intervening flag of the last
enabled call was kept. A later simplex intervention starts with a full latch period.
---
 run_time_assurance/rta/base.py    | 1 +
 run_time_assurance/rta/simplex.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index a8efcec..2e4371e 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index fe0a7d8..b74c7fc 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -90,6 +90,7 @@ class SimplexModule(BackupControlBasedRTA):
             self.intervening = self.monitor(state, step_size, control)
 
             if self.intervening:
+                self.latched_elapsed = 0.
                 return self.backup_control(state, step_size)
 
         return control
-- 
2.43.0


From 4965e064e8c7223cf917e1fdd7af43dbbd0cfd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 08/31] fix: HOCBFConstraint with relative degree 1 raised
 UnboundLocalError

---
 run_time_assurance/constraint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..5dae905 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -413,6 +413,7 @@ class HOCBFConstraint(ConstraintModule):
     ):
         self.initial_constraint = constraint
         hocbf_constraint_dict = {"constraint_0": constraint}
+        psi: ConstraintModule = constraint
         for i in range(1, relative_degree):
             psi = HOCBFConstraintHelper(
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
-- 
2.43.0


From cd9aaf51f871191e040d2d0749e165c12e64c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 09/31] fix: discrete inspection RTA propagated the sun in the
 wrong direction

The sun angle rate is sun_vel (Inspection1v1RTA.compute_state_dot and the angular velocity of
the keep out cone), so the next sun angle is sun_angle + sun_vel * dt.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..ca9cfbf 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 9c610bd22c4be35764445d1b166db79d82d93d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 10/31] fix: ConstraintPSMDeputy.get_array vmap axes did not
 match the arguments

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..81b5c1c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From a79cdb86daf60229bef8cdd3bb5981a1087b8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 11/31] fix: deputy passively safe maneuver must use the
 deputy-deputy collision radius

The two spacecraft involved are both deputies, see deputy_collision.
---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 81b5c1c..4b3a40f 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -233,7 +233,7 @@ class InspectionRTA(ExplicitASIFModule):
                 alpha=PolynomialConstraintStrengthener([0, 0, 0, 0.1]),
             )
             constraint_dict[f"deputy_PSM_{i}"] = ConstraintPSMDeputy(
-                collision_radius=self.chief_radius + self.deputy_radius,
+                collision_radius=self.deputy_radius * 2,
                 m=self.m,
                 n=self.n,
                 dt=1,
-- 
2.43.0


From 695e02b64339ec3f2a0e423676aa7d94c422a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 12/31] fix: the discrete ASIF integrator must be
 differentiable with jax

The inherited step uses the scipy integrator, which cannot be traced: every call of a
DiscreteASIFIntegratorModule raised ConcretizationTypeError.
---
 run_time_assurance/rta/asif.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 0146e0e..ce43978 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1116,3 +1117,10 @@ class DifferentiableODESolver(ODEDynamics):
 
     def _compute_state_dot(self, t, state, control):
         return self.state_dot_fn(t, state, control)
+
+    def step(self, step_size, state, control):
+        def state_dot(x, t, u):
+            return self.state_dot_fn(t, x, u)
+
+        next_state = odeint(state_dot, state, jnp.array([0., step_size]), control)[-1]
+        return next_state, state_dot(next_state, step_size, control)
-- 
2.43.0


From 2d37e869f738f17a83a228042f3d63f3bbed6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 13/31] fix: discrete ASIF must accept element specific control
 bounds

---
 run_time_assurance/rta/asif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index ce43978..f96a4ec 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -979,7 +979,9 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        low = np.broadcast_to(-np.inf if self.control_bounds_low is None else self.control_bounds_low, self.control_dim)
+        high = np.broadcast_to(np.inf if self.control_bounds_high is None else self.control_bounds_high, self.control_dim)
+        self.opt_bounds = list(zip(low, high)) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From a054a3e0fa4a39870dbe5176254531b758d4922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:11 +0000
Subject: [PATCH 14/31] fix: ASIF reported the constraints of an earlier call
 as causing intervention

When the solver finds no solution, and after a reset, the list of the last solved call was kept.
---
 run_time_assurance/rta/asif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index f96a4ec..d6d7541 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -98,6 +98,12 @@ class ASIFModule(BaseOptimizationModule):
         self.constraints_causing_intervention = None
         self.constraint_names += list(self.constraints.keys()) + list(self.direct_inequality_constraints.keys())
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraints_causing_intervention = None
+
     def _update_direct_inequality_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.direct_inequality_constraints.items():
@@ -244,6 +250,7 @@ class ASIFModule(BaseOptimizationModule):
             Actual control solved by QP
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
+        self.constraints_causing_intervention = []
         try:
             opt = quadprog.solve_qp(
                 obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
@@ -251,7 +258,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From 1f4d8cd536ccc3f284f289438051c7ab4a5ca822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:11 +0000
Subject: [PATCH 15/31] fix: subsampling must not drop the backup trajectory
 point after num_check_all

With num_check_all = N >= 0 point N was never checked, even with skip_length = 1 (no skipping).
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d6d7541..5e8faf1 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -740,7 +740,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 790caffad8bfecfc9a9e4ac378bf48ec9ef54177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:11 +0000
Subject: [PATCH 16/31] fix: implicit ASIF attributed intervention to the wrong
 constraint when subsampling

The row names assumed one row per trajectory point; with subsampling the names were shifted,
or the lookup failed with an IndexError.
---
 run_time_assurance/rta/asif.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 5e8faf1..02d5095 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -610,7 +610,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
         for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+            self.constraint_names += [k] * self._num_subsampled_points(self.constraints[k], num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
@@ -706,6 +706,19 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         """Return zeros when constraint is disabled"""
         return jnp.zeros(point_ineq_weight.shape), jnp.zeros(point_ineq_constant.shape)
 
+    def _get_check_points(self, constraint: ConstraintModule, num_steps: int) -> list[int]:
+        """Get indices of the trajectory points to check from num_check_all and skip_length"""
+        config = constraint.subsample_config
+        return [*range(0, config.num_check_all), *range(max(config.num_check_all, 0), num_steps, config.skip_length)]
+
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of barrier constraints that remain for a constraint after subsampling"""
+        config = constraint.subsample_config
+        num_points = len(self._get_check_points(constraint, num_steps))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def subsample_constraints(self, ineq_weight_barrier, ineq_constant_barrier, constraint_vals, num_steps):
         """Subsample constraints individually based on the constraint's subsample_config attribute
 
@@ -737,12 +750,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             tmp_constraint_vals = constraint_vals[i]
 
             # Get points to check from num_check_all and skip_length
-            check_points = jnp.hstack(
-                (
-                    jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
-                )
-            ).astype(int)
+            check_points = jnp.array(self._get_check_points(c, num_steps), dtype=int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
             tmp_ineq_constant_barrier = tmp_ineq_constant_barrier[check_points]
             tmp_constraint_vals = tmp_constraint_vals[check_points]
-- 
2.43.0


From d2aa7c5d661f6361f8588bf6001f35fa8c40e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 17/31] fix: backup window lost its last step to floating point
 truncation

int(0.3 / 0.1) is 2: the last step of the window was never checked.
---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 02d5095..84ce73d 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -596,7 +596,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(round(self.backup_window / step_size, 6)) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index b74c7fc..66ad846 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -300,7 +300,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(round(self.backup_window / step_size, 6))
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From 8a2358957d3c08c2ff35ee05f7c83b0e21362278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 18/31] fix: delta v limit RTA reported intervention but passed
 on the desired control

The backup control computed when the limit is first predicted to be exceeded was overwritten
by the desired control, and the error integral was advanced once per remaining prediction step.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index ca9cfbf..bdb2e21 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -697,6 +697,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
     def compute_filtered_control(
         self, input_state, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        out = control_desired
         if not self.latched:
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
@@ -712,11 +713,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
             )
+            self.intervening = True
             out = ub
         return out
 
-- 
2.43.0


From 27214f8b3b9a4210250f0eb4fe37eb2b787c29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 19/31] fix: delta v limit RTA stayed latched after a reset

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index bdb2e21..c9f8f99 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode"""
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 2f6879f9f581fb00fbdc20d8ad7970d6864c19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 20/31] fix: combined inspection RTA default must match the
 number of deputies

The default deputy rta was one shared instance built for 5 deputies, so any other number failed
and the state of the deputy rta was shared between all combined modules.
---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 4b3a40f..5d193df 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From 6e914efdd665def8d6652612c6bb9990053ef9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 21/31] fix: combined inspection RTA never reported that it is
 intervening

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 5d193df..3a0967a 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -514,12 +514,15 @@ class CombinedInspectionRTA(RTAModule):
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
         u_act = np.zeros(self.num_deputies * 3)
+        self.intervening = False
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
             x_new = self.get_agent_state(input_state, i)
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 804ffef497157feaff9c84ba234d2769fa23edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 22/31] fix: combined inspection RTA must reset the deputy rta

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 3a0967a..028f4f1 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -510,6 +510,11 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the rta module and the deputy rta to the initial state at the beginning of an episode"""
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 050d7a0fca6ab2a5977af9c5b1fbd38e22ec7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 23/31] fix: state setters assigned into an immutable jax array

Every setter of the state wrappers raised TypeError.
---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index c9f8f99..875bb56 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From 802a63ea3cefcb76ecee1cc7d0157e40b1d381af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:04 +0000
Subject: [PATCH 24/31] fix: conic keep out zone was NaN on the cone axis,
 which disabled the whole filter

For a position on the cone axis (e.g. on the x axis with sun angle 0) the constraint and its
gradient were NaN: quadprog then returned the desired control although other constraints were
about to be violated. The norm gets the same small delta as the relative velocity constraint, and
the distance to the cone is computed without arccos.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 875bb56..003c0bc 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -24,7 +24,7 @@ from run_time_assurance.rta import (
     RTAModule,
 )
 from run_time_assurance.state import RTAStateWrapper
-from run_time_assurance.utils import to_jnp_array_jit
+from run_time_assurance.utils import norm_with_delta, to_jnp_array_jit
 from run_time_assurance.zoo.cwh.docking_3d import ConstraintCWH3dRelativeVelocity
 from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
 
@@ -866,8 +866,10 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
         theta = params["fov"] / 2
 
         pos_cone = pos - jnp.dot(pos, cone_unit_vec) * cone_unit_vec
+        # the delta keeps the constraint differentiable on the cone axis
+        mag_pos_cone = norm_with_delta(pos_cone, 1e-5)
         mult = jnp.cos(theta) * (
-            jnp.linalg.norm(pos_cone) - jnp.tan(theta) * jnp.dot(pos, cone_unit_vec)
+            mag_pos_cone - jnp.tan(theta) * jnp.dot(pos, cone_unit_vec)
         )
         proj = (
             pos
@@ -875,15 +877,14 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
             + mult
             * jnp.cos(theta)
             * (jnp.dot(pos, cone_unit_vec) * cone_unit_vec - pos)
-            / jnp.linalg.norm(pos_cone)
+            / mag_pos_cone
         )
         vel_proj = jnp.cross(cone_ang_vel, proj)
 
         delta_p = pos - proj
         delta_v = vel - vel_proj
-        mag_delta_p = jnp.linalg.norm(pos) * jnp.sin(
-            jnp.arccos(jnp.dot(cone_unit_vec, pos / jnp.linalg.norm(pos))) - theta
-        )
+        # distance to the cone, |pos| * sin(angle between pos and the cone axis - theta)
+        mag_delta_p = mult
 
         h = lax.cond(
             mag_delta_p >= 0,
-- 
2.43.0


From a8a544fdf614bedacfeaa43c7c1346977c1d91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:05 +0000
Subject: [PATCH 25/31] fix: reset clears the constraint values of the previous
 episode

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 2e4371e..fcd2faf 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -205,6 +205,13 @@ class ConstraintBasedRTA(RTAModule):
         self.constraint_enabled_dict = dict.fromkeys(self.constraints.keys())
         self._update_params()
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraint_values = {}
+        self.is_stale_constraints = False
+
     def _update_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.constraints.items():
-- 
2.43.0


From ebf8dd48905d7ae007223fb0717a9e1ab1c2ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:54 +0000
Subject: [PATCH 26/31] fix: reset the RTA module at the start of each sample
 testing episode

---
 run_time_assurance/utils/sample_testing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index a51929b..53c293a 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -279,6 +279,11 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
+        # Episodes are independent: latches and controller states of earlier episodes must not influence this one
+        enable = self.rta.enable
+        self.rta.reset()
+        self.rta.enable = enable
+
         done = False
         current_time = 0.
 
-- 
2.43.0


From da6376fe5e23dc5a2eadabb210f0ac030a313811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:30 +0000
Subject: [PATCH 27/31] fix: make the Riccati equation of the delta-v limiter
 solvable for the default arguments

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 003c0bc..039f4c8 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -666,8 +666,14 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         C = np.eye(6)
         self.A, self.B = generate_cwh_matrices(m, self.n, mode="3d")
 
+        # The integral of the velocity is the position, which leaves modes at zero that no control can move. The small
+        # leak of the integrators makes these modes stable, the Riccati equation has no stabilizing solution otherwise
+        leak = 1e-8
         A_int = np.vstack(
-            (np.hstack((self.A, np.zeros((6, 6)))), np.hstack((C, np.zeros((6, 6)))))
+            (
+                np.hstack((self.A, np.zeros((6, 6)))),
+                np.hstack((C, -leak * np.eye(6))),
+            )
         )
         B_int = np.vstack((self.B, np.zeros((6, 3))))
         # Solve the Algebraic Ricatti equation for the given system
-- 
2.43.0


From d54c49b293216c0773cb0a5ab49963fcc89b873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:59 +0000
Subject: [PATCH 28/31] fix: stateful backup controllers crashed with the
 default jit_enable=True (controller state as static jit argument)

---
 run_time_assurance/controller.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 8740176..49f49a9 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -25,10 +25,9 @@ class RTABackupController(abc.ABC):
 
     def _compose(self):
         if self.jit_enable:
-            self._jacobian = jit(
-                jacfwd(self._generate_control, has_aux=True), static_argnums=[1, 2], static_argnames=['step_size', 'controller_state']
-            )
-            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size', 'controller_state'])
+            # controller states are (dictionaries of) arrays and therefore cannot be static arguments
+            self._jacobian = jit(jacfwd(self._generate_control, has_aux=True), static_argnums=[1], static_argnames=['step_size'])
+            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size'])
         else:
             self._jacobian = jacfwd(self._generate_control, has_aux=True)
             self._generate_control_fn = self._generate_control
-- 
2.43.0


From 541e00a08e27e6f2f9e9c18f65f94dc0c729b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:50 +0000
Subject: [PATCH 29/31] fix: logging value of the conic keep-out zone was NaN
 on the cone axis

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 039f4c8..9e91ca4 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -908,7 +908,9 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
         cone_vec = self.get_cone_vec(state)
         p_hat = pos / jnp.linalg.norm(pos)
         c_hat = cone_vec / jnp.linalg.norm(cone_vec)
-        h = jnp.arccos(jnp.dot(p_hat, c_hat)) - params["fov"] / 2
+        # rounding can push the cosine past 1 on the cone axis
+        cos_angle = jnp.clip(jnp.dot(p_hat, c_hat), -1.0, 1.0)
+        h = jnp.arccos(cos_angle) - params["fov"] / 2
         return h
 
     def positive_distance_constraint(self, delta_p, delta_v, mag_delta_p, a_max):
-- 
2.43.0


From 6d344e9efcc4ca38e64c861e9495345452bd1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:35 +0000
Subject: [PATCH 30/31] fix: deputies exactly on the sun axis were treated as
 outside the keep-out cone (arccos of a rounded cosine)

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 028f4f1..fdaea50 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -293,7 +293,7 @@ class InspectionRTA(ExplicitASIFModule):
         p_hat = pos / jnp.linalg.norm(pos)
         c_hat = cone_vec / jnp.linalg.norm(cone_vec)
         return lax.cond(
-            jnp.arccos(jnp.dot(p_hat, c_hat)) > jnp.pi / 2, lambda x: -1, lambda x: 1, 0
+            jnp.dot(p_hat, c_hat) < 0, lambda x: -1, lambda x: 1, 0
         )
 
 
-- 
2.43.0


From 94a99e6875b64f39551313116ac69f3d12aaf652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 31/31] fix: optimization filters could hang forever when two
 constraints were equal (quadprog cycles between duplicated rows)

---
 run_time_assurance/rta/asif.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 84ce73d..f9e4da0 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -251,15 +251,19 @@ class ASIFModule(BaseOptimizationModule):
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
         self.constraints_causing_intervention = []
+        ineq_weight = np.array(ineq_weight, dtype=np.float64)
+        ineq_constant = np.array(ineq_constant, dtype=np.float64)
+        # The solver can cycle forever between constraints that are equal
+        unique_idxs = get_unique_ineq_constraint_idxs(ineq_weight, ineq_constant)
         try:
             opt = quadprog.solve_qp(
-                obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
+                obj_weight, obj_constant, np.ascontiguousarray(ineq_weight[:, unique_idxs]), ineq_constant[unique_idxs], 0
             )
             u = opt[0]
 
             # Get constraints causing intervention
             for i in opt[5]:
-                key = self.constraint_names[i - 1]
+                key = self.constraint_names[unique_idxs[i - 1]]
                 if key not in self.constraints_causing_intervention:
                     self.constraints_causing_intervention.append(key)
 
@@ -970,6 +974,27 @@ def get_lower_bound_ineq_constraint_mats(bound: Union[int, float, np.ndarray, jn
     return c, b
 
 
+def get_unique_ineq_constraint_idxs(ineq_weight: np.ndarray, ineq_constant: np.ndarray) -> np.ndarray:
+    """Get the indices of inequality constraints C.T x >= b that differ from each other (up to their scale)
+
+    Parameters
+    ----------
+    ineq_weight : np.ndarray
+        matix C.T of quadprog inequality constraint C.T x >= b
+    ineq_constant : np.ndarray
+        vector b of quadprog inequality constraint C.T x >= b
+
+    Returns
+    -------
+    np.ndarray
+        indices of the first constraint of each group of equal ones, in ascending order
+    """
+    norm = np.linalg.norm(ineq_weight, axis=0)
+    rows = np.vstack((ineq_weight, ineq_constant)) / np.where(norm > 0, norm, 1.)
+    _, idxs = np.unique(np.round(rows, 12), axis=1, return_index=True)
+    return np.sort(idxs)
+
+
 class ASIFODESolver(ControlAffineODEDynamics):
     """Control Affine ODE solver for ASIF"""
 
-- 
2.43.0

