From cbfc65ea5ab31a6cbea0de8df6a2bd8e2e94dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 01/60] fix: Broyden with maxiter=0 and the default
 history_size raised IndexError

---
 jaxopt/_src/broyden.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..10c3b2d 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -417,4 +417,5 @@ class Broyden(base.IterativeSolver):
     self.reference_signature = self.fun
 
     if self.history_size is None:
-      self.history_size = self.maxiter
+      # `run` always traces one update, which needs at least one slot.
+      self.history_size = max(self.maxiter, 1)
-- 
2.43.0


From 5008baf8416a96baf50abcc927f8420a3fd4b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 02/60] fix: Hager-Zhang returned the initial stepsize instead
 of the accepted point when the bracket was already acceptable

---
 jaxopt/_src/hager_zhang_linesearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..54f4519 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,9 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    # If the search was already done (e.g., the initial bracket has an
+    # acceptable end point), low and high are unchanged, and so is best_point.
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From 4e643de64ef3ca23d24ff20644a511346df7ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 03/60] fix: Hager-Zhang lost the failure flag on NaN values,
 and raised it on successful searches

---
 jaxopt/_src/hager_zhang_linesearch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 54f4519..71a2566 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -248,9 +248,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
           x, new_low, new_high, c, approx_wolfe_threshold_value,
           descent_direction, args, kwargs)
 
-    failed, new_low, new_high, num_fun_grad_calls_update = jax.lax.cond(
+    new_failed, new_low, new_high, num_fun_grad_calls_update = jax.lax.cond(
         on_left_boundary | on_right_boundary,
         _reupdate, lambda: (failed, new_low, new_high, 0))
+    failed = failed | new_failed
     num_fun_grad_calls += num_fun_grad_calls_update
     return failed, new_low, new_high, num_fun_grad_calls
 
@@ -499,10 +500,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
           params, new_low, new_high, c, approx_wolfe_threshold_value,
           descent_direction, fun_args, fun_kwargs)
 
-    failed, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
+    new_failed, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
         ~state.done & ((new_high - new_low) >
                        (self.shrinkage_factor * (state.high - state.low))),
         _reupdate, lambda: (failed, new_low, new_high, 0))
+    failed = failed | new_failed
     new_num_fun_eval += num_fun_grad_calls
     new_num_grad_eval += num_fun_grad_calls
 
@@ -540,7 +542,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
                           approx_wolfe_threshold_value,
                           descent_direction))
     done = state.done | (error <= self.tol)
-    failed = failed | ((state.iter_num + 1 == self.maxiter) & ~done)
+    # A NaN error ends the search, so it has to be reported as a failure. On the
+    # other hand, a NaN met on the way to an acceptable point is not a failure.
+    failed = ~done & (
+        failed | jnp.isnan(error) | (state.iter_num + 1 == self.maxiter))
 
     new_state = HagerZhangLineSearchState(
         iter_num=state.iter_num + 1,
-- 
2.43.0


From 18d548f1220abdd1da4ac5ac6bebe6d156e32e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 04/60] fix: Bisection with has_aux=True failed in init_state

---
 jaxopt/_src/bisection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..7d9dd9c 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -90,8 +90,8 @@ class Bisection(base.IterativeSolver):
     lower = jnp.asarray(self.lower, float)
     upper = jnp.asarray(self.upper, float)
 
-    lower_value = self.optimality_fun(lower, *args, **kwargs)
-    upper_value = self.optimality_fun(upper, *args, **kwargs)
+    lower_value, _ = self._fun_with_aux(lower, *args, **kwargs)
+    upper_value, _ = self._fun_with_aux(upper, *args, **kwargs)
 
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
-- 
2.43.0


From a8039751c5f075628cb7ec1f3f7b1d646d8c01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:59 +0000
Subject: [PATCH 05/60] fix: Bisection missed a root located at the lower end
 of the bracket

---
 jaxopt/_src/bisection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 7d9dd9c..e328582 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -96,9 +96,10 @@ class Bisection(base.IterativeSolver):
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
     # sign = 0: the root is not contained in [lower, upper]
-    sign = jnp.where((lower_value < 0) & (upper_value >= 0),
+    # Both end points may be the root themselves.
+    sign = jnp.where((lower_value <= 0) & (upper_value >= 0),
                      1,
-                     jnp.where((lower_value > 0) & (upper_value <= 0), -1, 0))
+                     jnp.where((lower_value >= 0) & (upper_value <= 0), -1, 0))
 
     if self.check_bracket:
       # Not jittable...
-- 
2.43.0


From 93545267493369e3eb84c9bff2136462d33f0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 06/60] fix: projection_l1_sphere left the sphere when a zero
 coordinate receives mass

---
 jaxopt/_src/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..0062f56 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -222,7 +222,9 @@ def projection_l1_sphere(x: jnp.ndarray, value: float = 1.0) -> jnp.ndarray:
   Returns:
     output array, with the same shape as ``x``.
   """
-  return jnp.sign(x) * projection_simplex(jnp.abs(x), value)
+  # Zero coordinates can receive some mass too, so jnp.sign cannot be used.
+  sign = jnp.where(x < 0, -1, 1)
+  return sign * projection_simplex(jnp.abs(x), value)
 
 
 def projection_l1_ball(x: jnp.ndarray, max_value: float = 1.0) -> jnp.ndarray:
-- 
2.43.0


From 03e78fa859c0f7f107a07b7fab6613b14a499c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 07/60] fix: gradient of projection_l2_ball at zero was NaN

---
 jaxopt/_src/projection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 0062f56..aa2ca10 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -284,8 +284,13 @@ def projection_l2_ball(x: Any, max_value: float = 1.0) -> Any:
     output pytree, with the same structure as ``x``.
   """
   l2_norm = tree_util.tree_l2_norm(x)
-  factor = max_value / l2_norm
-  return jax.lax.cond(l2_norm <= max_value,
+  inside = l2_norm <= max_value
+  # The norm is not differentiable at zero: do not differentiate through it
+  # unless it is needed.
+  x_safe = tree_util.tree_map(
+      lambda leaf: jnp.where(inside, jnp.ones_like(leaf), leaf), x)
+  factor = max_value / tree_util.tree_l2_norm(x_safe)
+  return jax.lax.cond(inside,
                       lambda _: x,
                       lambda _: tree_util.tree_scalar_mul(factor, x),
                       operand=None)
-- 
2.43.0


From 868e0b41f95ca87cfa8cb62a6317c69bf9ee49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:52 +0000
Subject: [PATCH 08/60] fix: projection_box did not accept scalar bounds with a
 pytree input

---
 jaxopt/_src/projection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index aa2ca10..4ed0b84 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -69,6 +69,7 @@ def projection_box(x: Any, hyperparams: Tuple) -> Any:
     projected pytree, with the same structure as ``x``.
   """
   lower, upper = hyperparams
+  x, lower, upper = tree_util.broadcast_pytrees(x, lower, upper)
   return tree_util.tree_map(_clip_safe, x, lower, upper)
 
 
-- 
2.43.0


From d7b87338a8372675813ba6348ce78c9797e71835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 09/60] fix: unchecked Bisection (projection_box_section) went
 to the wrong end when rounding puts the root just outside the bracket

---
 jaxopt/_src/bisection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index e328582..eca194e 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -107,6 +107,12 @@ class Bisection(base.IterativeSolver):
         raise ValueError("The root is not contained in [lower, upper]. "
                          "`optimality_fun` evaluated at lower and upper should "
                          "have opposite signs.")
+    else:
+      # When a root is an end point of the bracket, rounding errors can leave it
+      # just outside: head for the end that is closest to a root.
+      toward_low = jnp.abs(lower_value) < jnp.abs(upper_value)
+      slope = jnp.where(toward_low == (lower_value > 0), 1, -1)
+      sign = jnp.where(sign == 0, slope, sign)
 
     return BisectionState(iter_num=jnp.asarray(0),
                           value=jnp.asarray(jnp.inf),
-- 
2.43.0


From d90fd58538828a11b49177a1ca45896426957340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 10/60] fix: prox_elastic_net rejected scalar hyperparameters
 other than Python floats on pytrees

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..9cc473c 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -126,9 +126,9 @@ def prox_elastic_net(x: Any,
     hyperparams = (1.0, 1.0)
 
   lam = tree_util.tree_map(lambda y: hyperparams[0]*jnp.ones_like(
-      y), x) if type(hyperparams[0]) == float else hyperparams[0]
+      y), x) if jnp.isscalar(hyperparams[0]) else hyperparams[0]
   gam = tree_util.tree_map(lambda y: hyperparams[1]*jnp.ones_like(
-      y), x) if type(hyperparams[1]) == float else hyperparams[1]
+      y), x) if jnp.isscalar(hyperparams[1]) else hyperparams[1]
 
   def prox_l1(u, lambd): return jnp.sign(u) * jax.nn.relu(jnp.abs(u) - lambd)
 
-- 
2.43.0


From f741ab967c82e84798b790ddef85f7fb6bac0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 11/60] fix: gradient of prox_group_lasso at zero was NaN

---
 jaxopt/_src/prox.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 9cc473c..663e876 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -161,8 +161,13 @@ def prox_group_lasso(x: Any,
     l2reg = 1.0
 
   l2_norm = tree_util.tree_l2_norm(x)
-  factor = 1 - l2reg * scaling / l2_norm
-  factor = jnp.where(factor >= 0, factor, 0)
+  is_zero = l2_norm <= l2reg * scaling
+  # The norm is not differentiable at zero: do not differentiate through it
+  # when the output is zero.
+  x_safe = tree_util.tree_map(
+      lambda leaf: jnp.where(is_zero, jnp.ones_like(leaf), leaf), x)
+  factor = 1 - l2reg * scaling / tree_util.tree_l2_norm(x_safe)
+  factor = jnp.where(is_zero, 0, factor)
   return tree_util.tree_scalar_mul(factor, x)
 
 
-- 
2.43.0


From a785ca3d3e8d8907e7202aee6e0879b22dac4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:26 +0000
Subject: [PATCH 12/60] fix: documentation of prox_ridge and
 prox_non_negative_ridge missed the factor 1/2

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 663e876..860ea4a 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -179,7 +179,7 @@ def prox_ridge(x: Any,
   .. math::
 
     \underset{y}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \frac{1}{2} \cdot \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
 
   Args:
     x: input pytree.
@@ -204,7 +204,7 @@ def prox_non_negative_ridge(x: Any,
   .. math::
 
     \underset{y \ge 0}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \frac{1}{2} \cdot \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
 
   Args:
     x: input pytree.
-- 
2.43.0


From 2e7eb84b29e83c7d5bf7cc21813d8734a0130e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 13/60] fix: isotonic_l2_pav truncated block means of integer
 inputs

---
 jaxopt/_src/isotonic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaxopt/_src/isotonic.py b/jaxopt/_src/isotonic.py
index a0c9c23..b273fa2 100644
--- a/jaxopt/_src/isotonic.py
+++ b/jaxopt/_src/isotonic.py
@@ -119,6 +119,9 @@ def isotonic_l2_pav(y, y_min=-jnp.inf, y_max=jnp.inf, increasing=True):
   Returns:
     The solution, an array of the same size as y.
   """
+  y = jnp.asarray(y)
+  if not jnp.issubdtype(y.dtype, jnp.inexact):
+    y = y.astype(float)  # Block means of integers need not be integers.
   sign = -1 if increasing else 1
   sol = _isotonic_l2_pav(y * sign) * sign
   sol = jnp.clip(sol, y_min, y_max)
-- 
2.43.0


From 31fa6be364de7085d9a1b8cb5e0d4edde9a0bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 14/60] fix: MulticlassLinearSvmDual column-wise Lipschitz
 constants ignored l2reg (block coordinate descent diverged for small l2reg)

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From 620eb094f0fd0c49212cc74328ea9b5bf1f6939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:09 +0000
Subject: [PATCH 15/60] fix: BlockCoordinateDescent returned NaN when a column
 of the design matrix is zero

---
 jaxopt/_src/block_cd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/block_cd.py b/jaxopt/_src/block_cd.py
index f1616ff..11c2a2e 100644
--- a/jaxopt/_src/block_cd.py
+++ b/jaxopt/_src/block_cd.py
@@ -126,7 +126,9 @@ class BlockCoordinateDescent(base.IterativeSolver):
       (params, state)
     """
     linop = self.fun.make_linop(*args, **kwargs)
-    stepsizes = 1.0 / self.fun.columnwise_lipschitz_const(*args, **kwargs)
+    lipschitz = self.fun.columnwise_lipschitz_const(*args, **kwargs)
+    # Any stepsize is valid for blocks on which the function is linear.
+    stepsizes = 1.0 / jnp.where(lipschitz == 0, 1.0, lipschitz)
 
     # todo: ability to permute block order.
 
-- 
2.43.0


From 8bcc91592e556df935d9b58b8c06d85310dc6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 16/60] fix: BoxOSQP stepsize became NaN when Ax = 0 (or Q = 0,
 c = 0)

---
 jaxopt/_src/osqp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..dca2d64 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -517,10 +517,11 @@ class BoxOSQP(base.IterativeSolver):
   def _update_stepsize(self, rho_bar, solver_state, primal_residuals, dual_residuals, Q, c, A, x, y):
     """Update stepsize based on the ratio between primal and dual residuals."""
     Ax, ATy     = A.matvec_and_rmatvec(x, y)
-    primal_coef = tree_inf_norm(primal_residuals) / tree_inf_norm(Ax)
     max_inf     = jnp.maximum(tree_inf_norm(Q(x)), jnp.maximum(tree_inf_norm(ATy), tree_inf_norm(c)))
-    dual_coef   = tree_inf_norm(dual_residuals) / max_inf
-    eps_div     = jnp.finfo(dual_coef.dtype).eps
+    eps_div     = jnp.finfo(max_inf.dtype).eps
+    # eps_div avoids 0/0 (e.g. all iterates in the null space of A).
+    primal_coef = tree_inf_norm(primal_residuals) / (tree_inf_norm(Ax) + eps_div)
+    dual_coef   = tree_inf_norm(dual_residuals) / (max_inf + eps_div)
     coef        = jnp.sqrt(primal_coef / (dual_coef + eps_div))
     rho_bar     = jnp.clip(rho_bar * coef, self.rho_min, self.rho_max)
     solver_state = self._eq_qp_solve_impl.update_stepsize(solver_state, rho_bar)
-- 
2.43.0


From 799c8feec0d058c0e39b307d19ee804defbcd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 17/60] fix: BoxOSQP reported primal/dual infeasibility for
 feasible bounded problems (zero certificates accepted)

---
 jaxopt/_src/osqp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index dca2d64..50d884d 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -554,7 +554,8 @@ class BoxOSQP(base.IterativeSolver):
     certif_u   = tree_map(lambda adxi,ui: jnp.all(adxi <= ui), Adx, tree_where(unbounded_u, jnp.inf, criterion))
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
-    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    # c^T dx must be negative: dx = 0 (or a flat direction) is not a certificate of unboundedness.
+    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c < -criterion), certif_A)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -576,7 +577,8 @@ class BoxOSQP(base.IterativeSolver):
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    # The support function must be negative: dy = 0 (no active constraint) is not a certificate of infeasibility.
+    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From ac46c4adedb2e4c7f00dcf5f8aa39783a8a98857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 18/60] fix: BoxOSQP with eq_qp_solve='cg+jacobi' rejected
 pytrees

---
 jaxopt/_src/osqp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 50d884d..c178fbd 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -217,7 +217,7 @@ class OSQPIndirectSolver:
     _, (_, _, sigma, rho_bar), (precond_Q, precond_A) = solver_state
 
     diag_precond = tree_add_scalar_mul(precond_Q, rho_bar, precond_A)
-    diag_precond = tree_add(diag_precond, sigma)
+    diag_precond = tree_map(lambda m_diag: m_diag + sigma, diag_precond)
     inv_diag = tree_map(lambda m_diag: 1/m_diag, diag_precond)
     return tree_mul(inv_diag, x)
 
-- 
2.43.0


From c0efedfa36204a3051336e8be4e4780254ba38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:47 +0000
Subject: [PATCH 19/60] fix: BoxCDQP never moved coordinates on which the
 objective is linear

---
 jaxopt/_src/cd_qp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/cd_qp.py b/jaxopt/_src/cd_qp.py
index e159879..aecec7f 100644
--- a/jaxopt/_src/cd_qp.py
+++ b/jaxopt/_src/cd_qp.py
@@ -40,8 +40,11 @@ def fori_loop_body_fun(i, tup):
   g_i = jnp.dot(Q[i], x) + c[i]
   # i-th diagonal element of the Hessian
   h_i = Q[i, i]
-  # Newton-update and avoid division by zero
-  update = jnp.where(h_i == 0, 0, g_i / h_i)
+  # Newton-update and avoid division by zero. If the objective is linear in x_i,
+  # the minimizer is the bound in the direction of -g_i.
+  update = jnp.where(h_i == 0,
+                     jnp.where(g_i == 0, 0, jnp.sign(g_i) * jnp.inf),
+                     g_i / jnp.where(h_i == 0, 1, h_i))
   # Newton-update + clipping to satisfy the box constraint
   x_i_new = jnp.clip(x[i] - update, l[i], u[i])
   delta_i = x_i_new - x[i]
-- 
2.43.0


From f2a78109493fac137f6ce19b5658c54effc22a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:47 +0000
Subject: [PATCH 20/60] fix: BoxOSQP/OSQP with fun: optimality error and
 implicit differentiation passed (x, z) to fun

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index c178fbd..d8426f7 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From cc5d0e79262603e8c5172957e98fd26858b26af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:09 +0000
Subject: [PATCH 21/60] fix: BoxOSQP reported primal infeasibility when dual
 iterates move away from an infinite bound

---
 jaxopt/_src/osqp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index d8426f7..db70a11 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -574,13 +574,19 @@ class BoxOSQP(base.IterativeSolver):
   def _check_primal_infeasability(self, error, status, delta_y, ATdy, l, u):
     criterion = self.primal_infeasible_tol * tree_inf_norm(delta_y)
     certif_A  = tree_inf_norm(ATdy)
-    bounded_l = tree_where(tree_map(lambda li: li == -jnp.inf, l), 0., l)  # replace inf bounds by zero
-    bounded_u = tree_where(tree_map(lambda ui: ui == jnp.inf, u), 0., u)
+    unbounded_l = tree_map(lambda li: li == -jnp.inf, l)
+    unbounded_u = tree_map(lambda ui: ui == jnp.inf, u)
+    bounded_l = tree_where(unbounded_l, 0., l)  # replace inf bounds by zero
+    bounded_u = tree_where(unbounded_u, 0., u)
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
+    # The support function is infinite if delta_y points towards an infinite bound.
+    finite_lu = jnp.maximum(tree_inf_norm(tree_where(unbounded_l, dy_minus, 0.)),
+                            tree_inf_norm(tree_where(unbounded_u, dy_plus, 0.))) <= criterion
     # The support function must be negative: dy = 0 (no active constraint) is not a certificate of infeasibility.
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion)
+    certif_primal_infeasible = jnp.logical_and(jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion),
+                                               finite_lu)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 5192c617f6e8f62c9ae9cc34528d8cf3b69ba65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:52 +0000
Subject: [PATCH 22/60] fix: IterativeRefinement ignored its initial guess in
 the first residual

---
 jaxopt/_src/iterative_refinement.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..ddd6ef9 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -65,8 +65,8 @@ class IterativeRefinement(base.IterativeSolver):
 
   This is a meta-algorithm for solving the linear system ``Ax = b`` based on
   a provided linear system solver. Our implementation is a slight generalization
-  of the standard algorithm.  It starts with :math:`(r_0, x_0) = (b, 0)` and
-  iterates
+  of the standard algorithm.  It starts with :math:`r_0 = b - A x_0`, where
+  :math:`x_0` is the initial guess (:math:`0` by default), and iterates
 
   .. math::
 
@@ -124,12 +124,13 @@ class IterativeRefinement(base.IterativeSolver):
                  A: Any,
                  b: Any,
                  A_bar: Any = None):
+    matvec_A = self.matvec_A(A)
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      target_residuals=tree_sub(b, matvec_A(init_params)),
+      init=self.init_params(A, b, A_bar),
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From 47c063c7ef32a4293dde409a4508916294de0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:12 +0000
Subject: [PATCH 23/60] fix: EqualityConstrainedQP with fun rejected pytrees

---
 jaxopt/_src/eq_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/eq_qp.py b/jaxopt/_src/eq_qp.py
index 0e97a3a..8f0a5ae 100644
--- a/jaxopt/_src/eq_qp.py
+++ b/jaxopt/_src/eq_qp.py
@@ -292,7 +292,7 @@ class EqualityConstrainedQP(base.Solver):
         # nabla_x f(x) = Q x + c
         # Qx = nabla_x f(x) - c
         def fun_minus_cx(xx):
-          return self.fun(xx, params_Q) - jnp.sum(c*xx)
+          return self.fun(xx, params_Q) - tree_vdot(c, xx)
         Qx = jax.grad(fun_minus_cx)(x)
         return Qx
       self.matvec_Q = matvec_Q
-- 
2.43.0


From b54e4db8f64c64a80146ba01a5aced8d2470828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 24/60] fix: GaussNewton and LevenbergMarquardt could not be
 differentiated with keyword arguments

---
 jaxopt/_src/gauss_newton.py        | 1 +
 jaxopt/_src/levenberg_marquardt.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..0cd4f1e 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -150,6 +150,7 @@ class GaussNewton(base.IterativeSolver):
       residual = self._fun(params, *args, **kwargs)
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
+    self.reference_signature = self.residual_fun
 
   def _jtj_op(self, params, vec, *args, **kwargs):
     """Product with J.T J"""
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..b5f4ae8 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -480,6 +480,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     else:
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw), None)
+    self.reference_signature = self.residual_fun
 
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
-- 
2.43.0


From b032c9a58ae05c777c3305c0ea524fe6dd8f6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 25/60] fix: ScipyRootFinding and ScipyLeastSquares with
 has_aux=True recursed forever

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..f76475a 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -22,6 +22,7 @@
 """
 
 from dataclasses import dataclass
+import functools
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -560,13 +561,15 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
+      fun_with_aux = self.optimality_fun
+      @functools.wraps(fun_with_aux)
       def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+        return fun_with_aux(x, *args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -709,7 +712,8 @@ class ScipyLeastSquares(ScipyWrapper):
           self.options[k] = v
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From 15797c0c9c42870e7d350e7d15ab11ede8d268a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 26/60] fix: SciPy wrappers altered the user's options (and the
 shared defaults), so options could not be reused

---
 jaxopt/_src/scipy_wrappers.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index f76475a..fca9602 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -402,8 +402,7 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    self.options = {} if self.options is None else dict(self.options)
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -704,12 +703,7 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       fun_with_aux = self.fun
-- 
2.43.0


From 7b18beff6ff0a2aefc61b17128d123f4a5940a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 27/60] fix: ScipyLeastSquares optimality with loss='huber'
 ignored large negative residuals

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fca9602..a03169d 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -583,7 +583,8 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(jnp.abs(z) <= 1, z ** 2,
+                                 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From 1273feef41f9038821fa99d536a5ebf61f7215ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 28/60] fix: ScipyLeastSquares could not be differentiated when
 residuals are a pytree

---
 jaxopt/_src/scipy_wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index a03169d..df5cca1 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -633,6 +633,8 @@ class ScipyLeastSquares(ScipyWrapper):
 
   def _cost_fun(self, params, *args, **kwargs):
     residuals = self.fun(params, *args, **kwargs)
+    residuals = jnp.concatenate([jnp.ravel(leaf) for leaf
+                                 in tree_util.tree_leaves(residuals)])
     # NOTE: `self._rho` includes the squaring of residuals in its definition.
     losses = self._rho(residuals / self.options['f_scale'])
     return 0.5 * jnp.square(self.options['f_scale']) * jnp.mean(losses)
-- 
2.43.0


From 2561f7a6c2e189977edc0a2853cfd47f4e128121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 29/60] fix: SciPy wrappers could not be differentiated with
 keyword arguments

---
 jaxopt/_src/scipy_wrappers.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index df5cca1..789b777 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -23,6 +23,7 @@
 
 from dataclasses import dataclass
 import functools
+import inspect
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -242,6 +243,16 @@ def pytree_topology_from_example(x_jnp: Any) -> PyTreeTopology:
   return PyTreeTopology(treedef=treedef, shapes=shapes, dtypes=dtypes)
 
 
+def _signature_with_bounds(fun):
+  """Signature of `fun`, with `bounds` inserted as second parameter."""
+  parameters = list(inspect.signature(fun).parameters.values())
+  if parameters[0].kind == inspect.Parameter.VAR_POSITIONAL:
+    return None  # cannot be resolved
+  parameters.insert(1, inspect.Parameter(
+      name="bounds", kind=inspect.Parameter.POSITIONAL_OR_KEYWORD))
+  return inspect.Signature(parameters)
+
+
 @dataclass(eq=False)
 class ScipyWrapper(base.Solver):
   """Wraps over `scipy.optimize` methods with PyTree and implicit diff support.
@@ -269,11 +280,17 @@ class ScipyWrapper(base.Solver):
     raise NotImplementedError(
         'ScipyWrapper subclasses must implement `optimality_fun` as needed.')
 
+  def _reference_signature(self):
+    # The signature that keyword arguments of `run` are resolved with (the
+    # signature of `optimality_fun` by default).
+    return None
+
   def __post_init__(self):
     # Set up implicit diff.
     decorator = idf.custom_root(self.optimality_fun,
                                 has_aux=True,
-                                solve=self.implicit_diff_solve)
+                                solve=self.implicit_diff_solve,
+                                reference_signature=self._reference_signature())
     # pylint: disable=g-missing-from-attributes
     self.run = decorator(self.run)
 
@@ -316,6 +333,9 @@ class ScipyMinimize(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.minimize`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -433,6 +453,9 @@ class ScipyBoundedMinimize(ScipyMinimize):
     step = tree_sub(sol, self._grad_fun(sol, *args, **kwargs))
     return projection.projection_box(step, bounds)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
@@ -643,6 +666,9 @@ class ScipyLeastSquares(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_cost_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.least_squares`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -763,6 +789,9 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
     step = tree_sub(sol, self._grad_cost_fun(sol, *args, **kwargs))
     return projection.projection_box(step, bounds)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
-- 
2.43.0


From 64cff5f35789fdc1a76cdfb0ee3f23fa5b484a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 30/60] fix: ProjectedGradient ignored implicit_diff_solve

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From 8f0bb40af5bf4a0b9be4c8e329c983de315b362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 31/60] fix: solve_cholesky failed on matrix right-hand sides

---
 jaxopt/_src/linear_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..ca56b33 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,6 +95,7 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
     return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
-- 
2.43.0


From 82032aa025c1e54550ae2335f5ad18b7ad2c6a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 32/60] fix: LBFGSB mixed up the order of curvature pairs once
 its history buffer wrapped around

---
 jaxopt/_src/lbfgsb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..d29eb36 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -407,6 +407,12 @@ class LBFGSB(base.IterativeSolver):
     upper_flat = _flatten_and_concat(upper)
     s_history_flat = _flatten_and_concat(state.s_history, batch_ndims=1)
     y_history_flat = _flatten_and_concat(state.y_history, batch_ndims=1)
+    # The compact representation needs the pairs from the oldest to the newest,
+    # while the oldest pair of a full circular buffer is the next overwritten.
+    oldest = jnp.where(state.num_updates > self.history_size,
+                       state.num_updates % self.history_size, 0)
+    s_history_flat = jnp.roll(s_history_flat, -oldest, axis=0)
+    y_history_flat = jnp.roll(y_history_flat, -oldest, axis=0)
 
     # Construct the limited-memory BFGS matrix from [1], section 3.
     w_flat = jnp.transpose(
-- 
2.43.0


From 6d6f43c811ccb1508464ac850a3643cb3d116609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 33/60] fix: Broyden took inner products leaf by leaf on
 pytrees

---
 jaxopt/_src/broyden.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 10c3b2d..ab4d1b8 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -38,29 +38,6 @@ from jaxopt.tree_util import tree_l2_norm
 from jaxopt._src.tree_util import tree_single_dtype
 
 
-def matvec(d_history, c_history, x, indices):
-  # CD^T x
-  # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
-
-
 def inv_jacobian_product(pytree: Any,
                          d_history: Any,
                          c_history: Any,
@@ -84,10 +61,17 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  history_size = jax.tree_util.tree_leaves(d_history)[0].shape[0]
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  # gamma * x + C D^T x, where j is the history dimension and the inner products
+  # D^T x run over all leaves.
+  dtx = sum(jax.tree_util.tree_leaves(tree_map(
+      lambda d, x: jnp.einsum('j..., ... -> j', d[indices], x),
+      d_history, pytree)))
+  return tree_map(
+      lambda x, c: gamma * x + jnp.einsum('j..., j -> ...', c[indices], dtx),
+      pytree, c_history)
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From efc1d704b0831d557d2d26f4def16e1b38f6dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 34/60] fix: Broyden update divided by zero when the residual
 did not change

---
 jaxopt/_src/broyden.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index ab4d1b8..cd6aeb4 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -345,7 +345,9 @@ class Broyden(base.IterativeSolver):
     delta_x = tree_sub(new_params, params)
     v = jac_rprod(delta_x)
     delta_g = tree_sub(new_value, value)
-    denom = 1 / tree_vdot(v, delta_g)
+    vdot_vg = tree_vdot(v, delta_g)
+    # When there is no curvature information, keep the approximation unchanged.
+    denom = jnp.where(vdot_vg == 0, 0, 1 / jnp.where(vdot_vg == 0, 1, vdot_vg))
     d = tree_scalar_mul(denom, v)
     c = tree_sub(delta_x, jac_prod(delta_g))
 
-- 
2.43.0


From 8939cd294e6a9cbcafe3c6bfc4670534cbb07684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 35/60] fix: NonlinearCG reported the gradient norm of the
 previous iterate as its error

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From 1a8894cb612638d9463ab03defcb4f1bac405184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 36/60] fix: the line search of ProximalGradient accepted steps
 leading to a NaN value

---
 jaxopt/_src/proximal_gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..743e8eb 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -65,7 +65,8 @@ def fista_line_search(
     # where the terms have been reordered for numerical stability.
     fun_decrease = stepsize * (fun(next_x, *args, **kwargs) - x_fun_val)
     condition = stepsize * tree_vdot(diff_x, x_fun_grad) + 0.5 * sqdist
-    return fun_decrease > condition + eps
+    # Written so that steps leading to a NaN value are rejected too.
+    return jnp.logical_not(fun_decrease <= condition + eps)
 
   def body_fun(pair):
     stepsize = pair[1]
-- 
2.43.0


From 64305887d8c14313881822dc3f737f1eb37cdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 37/60] fix: ProximalGradient scaled its error by the next
 trial stepsize, so it stopped too early when stepsizes are tiny

---
 jaxopt/_src/proximal_gradient.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 743e8eb..ab3d5b2 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -222,16 +222,16 @@ class ProximalGradient(base.IterativeSolver):
 
     if not isinstance(self.stepsize, Callable) and self.stepsize <= 0:
       # with line search
-      next_x, next_stepsize = self._fista_line_search(self.maxls, x, x_fun_val,
-                                                      x_fun_grad, stepsize,
-                                                      self.decrease_factor,
-                                                      hyperparams_prox, args,
-                                                      kwargs)
+      next_x, stepsize = self._fista_line_search(self.maxls, x, x_fun_val,
+                                                 x_fun_grad, stepsize,
+                                                 self.decrease_factor,
+                                                 hyperparams_prox, args,
+                                                 kwargs)
       # If step size becomes too small, we restart it to 1.0.
       # Otherwise, we attempt to increase it.
-      next_stepsize = jnp.where(next_stepsize <= 1e-6, 1.0,
-                                next_stepsize / self.decrease_factor)
-      return next_x, next_stepsize
+      next_stepsize = jnp.where(stepsize <= 1e-6, 1.0,
+                                stepsize / self.decrease_factor)
+      return next_x, stepsize, next_stepsize
     else:
       # without line search
       if isinstance(self.stepsize, Callable):
@@ -239,7 +239,7 @@ class ProximalGradient(base.IterativeSolver):
       else:
         next_stepsize = self.stepsize
       next_x = self._prox_grad(x, x_fun_grad, next_stepsize, hyperparams_prox)
-      return next_x, next_stepsize
+      return next_x, next_stepsize, next_stepsize
 
   def _update(self, x, state, hyperparams_prox, args, kwargs):
     dtype = tree_single_dtype(x)
@@ -247,9 +247,10 @@ class ProximalGradient(base.IterativeSolver):
     stepsize = state.stepsize
     (x_fun_val, aux), x_fun_grad = self._value_and_grad_with_aux(x, *args,
                                                                  **kwargs)
-    next_x, next_stepsize = self._iter(iter_num, x, x_fun_val, x_fun_grad,
-                                       stepsize, hyperparams_prox, args, kwargs)
-    error = self._error(tree_sub(next_x, x), next_stepsize)
+    next_x, stepsize, next_stepsize = self._iter(
+        iter_num, x, x_fun_val, x_fun_grad, stepsize, hyperparams_prox, args,
+        kwargs)
+    error = self._error(tree_sub(next_x, x), stepsize)
     next_state = ProxGradState(iter_num=iter_num + 1,
                                stepsize=jnp.asarray(next_stepsize, dtype=dtype),
                                error=jnp.asarray(error, dtype=dtype),
@@ -264,12 +265,13 @@ class ProximalGradient(base.IterativeSolver):
     stepsize = state.stepsize
     (y_fun_val, aux), y_fun_grad = self._value_and_grad_with_aux(y, *args,
                                                                  **kwargs)
-    next_x, next_stepsize = self._iter(iter_num, y, y_fun_val, y_fun_grad,
-                                       stepsize, hyperparams_prox, args, kwargs)
+    next_x, stepsize, next_stepsize = self._iter(
+        iter_num, y, y_fun_val, y_fun_grad, stepsize, hyperparams_prox, args,
+        kwargs)
     next_t = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2))
     diff_x = tree_sub(next_x, x)
     next_y = tree_add_scalar_mul(next_x, (t - 1) / next_t, diff_x)
-    next_error = self._error(diff_x, next_stepsize)
+    next_error = self._error(diff_x, stepsize)
     next_state = ProxGradState(iter_num=iter_num + 1, velocity=next_y, t=next_t,
                                stepsize=jnp.asarray(next_stepsize, dtype=dtype),
                                error=jnp.asarray(next_error, dtype=dtype),
-- 
2.43.0


From 286bbf5abf5467e2d89a898e2a6ba169d3503fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 38/60] fix: Hager-Zhang line search failed on single precision
 parameters when x64 is enabled

---
 jaxopt/_src/hager_zhang_linesearch.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 71a2566..f73830a 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -130,25 +130,25 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     # Armijo condition
     # armijo = value_c <= value_initial + self.c1 * c * gd_vdot
     armijo = value_c - (value_initial + self.c1 * c * gd_vdot)
-    armijo_error = jax.lax.max(armijo, 0.)
+    armijo_error = jnp.maximum(armijo, 0.)
     # Curvature condition
     # curvature = gd_vdot_c >= self.c2 * gd_vdot
     curvature = self.c2 * gd_vdot - gd_vdot_c
-    wolfe_error = jax.lax.max(armijo_error, curvature)
+    wolfe_error = jnp.maximum(armijo_error, curvature)
 
     # Approximate Wolfe
     # approx_wolfe = (2 * self.c1 - 1.) * gd_vdot >= gd_vdot_c
     approx_wolfe = gd_vdot_c - (2 * self.c1 - 1.) * gd_vdot
-    approx_wolfe_error = jax.lax.max(approx_wolfe, 0.)
-    approx_wolfe_error = jax.lax.max(approx_wolfe_error, curvature)
+    approx_wolfe_error = jnp.maximum(approx_wolfe, 0.)
+    approx_wolfe_error = jnp.maximum(approx_wolfe_error, curvature)
     # Finally only enable the approximate wolfe conditions when we are close in
     # value.
-    approx_wolfe_error = jax.lax.max(
+    approx_wolfe_error = jnp.maximum(
         approx_wolfe_error,
         (value_c - approx_wolfe_threshold_value))
     # We succeed if we either satisfy the Wolfe conditions or the approximate
     # Wolfe conditions.
-    return jax.lax.min(wolfe_error, approx_wolfe_error)
+    return jnp.minimum(wolfe_error, approx_wolfe_error)
 
   def _update(
       self, x, low, high, middle, approx_wolfe_threshold_value,
@@ -339,12 +339,12 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
         body_fn,
         (done,
          failed,
-         jnp.array(0.),
+         jnp.zeros_like(c),
          c,
          c,
          value_c,
          grad_c,
-         jnp.array(0.),
+         jnp.zeros_like(c),
          0))
     num_fun_grad_calls += new_num_fun_grad_calls
     return failed, final_low, final_high, num_fun_grad_calls
-- 
2.43.0


From d000d9c637cfa8bbda61eb20938068c5b0f0e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 39/60] fix: LBFGSB left the box when the line search steps
 past the minimizer of the model

---
 jaxopt/_src/lbfgsb.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index d29eb36..982a53c 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -497,6 +497,31 @@ class LBFGSB(base.IterativeSolver):
       new_num_linesearch_iter = state.num_linesearch_iter + ls_state.iter_num
       new_num_grad_eval = state.num_grad_eval + ls_state.num_grad_eval
       new_num_fun_eval = state.num_fun_eval + ls_state.num_fun_eval
+
+      # A stepsize of 1 leads to the feasible `x_subspace_min`, but the line
+      # search can go further: such steps are cut at the boundary of the box.
+      d_flat = x_subspace_min - x_flat
+      safe_d_flat = jnp.where(d_flat == 0, 1., d_flat)
+      bound_flat = jnp.where(d_flat > 0, upper_flat, lower_flat)
+      max_feasible_stepsize = jnp.maximum(1., jnp.min(jnp.where(
+          d_flat == 0, jnp.inf, (bound_flat - x_flat) / safe_d_flat)))
+
+      def _cut_step():
+        stepsize = max_feasible_stepsize.astype(new_stepsize.dtype)
+        p = tree_add_scalar_mul(params, stepsize, descent_direction)
+        p = tree_map(jnp.clip, p, lower, upper)
+        (value, aux), grad = self._value_and_grad_with_aux(p, *args, **kwargs)
+        return stepsize, p, value, grad, aux, 1
+
+      new_stepsize, new_params, new_value, new_grad, new_aux, num_eval = (
+          jax.lax.cond(
+              new_stepsize > max_feasible_stepsize,
+              _cut_step,
+              lambda: (new_stepsize, new_params, new_value, new_grad, new_aux, 0)
+          )
+      )
+      new_num_grad_eval = new_num_grad_eval + num_eval
+      new_num_fun_eval = new_num_fun_eval + num_eval
     else:
       if isinstance(self.stepsize, Callable):
         new_stepsize = self.stepsize(state.iter_num)
-- 
2.43.0


From ea34166aa540dd051065cdc72aefa126c0185dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 40/60] fix: LBFGSB returned infeasible parameters when started
 outside of the box

---
 jaxopt/_src/lbfgsb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 982a53c..afa25c9 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -356,12 +356,14 @@ class LBFGSB(base.IterativeSolver):
           theta=jnp.asarray(self.theta, dtype=dtype),
       )
 
-    (value, aux), grad = self._value_and_grad_with_aux(
-        init_params, *args, **kwargs
-    )
     if bounds is None:
       bounds = (tree_map(lambda x: -jnp.inf * jnp.ones_like(x), init_params),
                 tree_map(lambda x: jnp.inf * jnp.ones_like(x), init_params))
+    # Iterations start from the projection of `init_params` on the box.
+    init_params = tree_map(jnp.clip, init_params, *bounds)
+    (value, aux), grad = self._value_and_grad_with_aux(
+        init_params, *args, **kwargs
+    )
     init_error = _get_error(init_params, grad, *bounds)
     return LbfgsbState(
         value=value,
@@ -401,6 +403,7 @@ class LBFGSB(base.IterativeSolver):
       bounds = (tree_map(lambda x: -jnp.inf * jnp.ones_like(x), params),
                 tree_map(lambda x: jnp.inf * jnp.ones_like(x), params))
     lower, upper = bounds
+    params = tree_map(jnp.clip, params, lower, upper)
     x_flat = _flatten_and_concat(params)
     g_flat = _flatten_and_concat(state.grad)
     lower_flat = _flatten_and_concat(lower)
-- 
2.43.0


From 13d9e37ee69ffa78246eb650c2e7bbabd09528d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 41/60] fix: a rejected step with a non-finite residual
 poisoned the state of LevenbergMarquardt

---
 jaxopt/_src/levenberg_marquardt.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index b5f4ae8..4e9de9a 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # Select (rather than blend) as a rejected step may have a non-finite residual.
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From b668532b573daaec6bc99161755792c51452b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 42/60] fix: stop_criterion 'madsen-nielsen' of
 LevenbergMarquardt had the wrong sign in its step test

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 4e9de9a..7619dab 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From 5ee84fc3a41aa0acd67b1b823d826ab507834a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 43/60] fix: LevenbergMarquardt ignored jac_fun
 (AttributeError) with materialize_jac=True

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 7619dab..08168bd 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -485,14 +485,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From 9afd39a3fc7e09472bcf43d6818a75834e43eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 44/60] fix: LevenbergMarquardt did not keep the precision of
 float32 parameters when x64 is enabled (or failed)

---
 jaxopt/_src/levenberg_marquardt.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 08168bd..d9f9f78 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -270,7 +270,7 @@ class LevenbergMarquardt(base.IterativeSolver):
         hess_res = None
         gradient = self._jt_op(params, residual, *args, **kwargs)
 
-      damping_factor = damping_factor * jax.lax.max(1 / 3, 1 -
+      damping_factor = damping_factor * jnp.maximum(1 / 3, 1 -
                                                     (2 * gain_ratio - 1)**3)
       increase_factor = 2
 
@@ -368,13 +368,13 @@ class LevenbergMarquardt(base.IterativeSolver):
       # lower number of floating point operations and therefore less numerical
       # error which can be helpful for the case of single precision arithmatics.
       if self.solver == 'qr':
-        damping_term = jnp.sqrt(state.damping_factor) * jnp.identity(params.size)
+        damping_term = jnp.sqrt(state.damping_factor) * jnp.identity(params.size, dtype=params.dtype)
         aug_jac = jnp.vstack([state.jac, damping_term])
-        aug_res = jnp.hstack([state.residual, jnp.zeros(params.size)])
+        aug_res = jnp.hstack([state.residual, jnp.zeros(params.size, dtype=params.dtype)])
         q, r = jsp.linalg.qr(aug_jac, mode='economic')
         velocity = jsp.linalg.solve_triangular(r, q.T @ aug_res)
       else:
-        damping_term = state.damping_factor * jnp.identity(params.size)
+        damping_term = state.damping_factor * jnp.identity(params.size, dtype=params.dtype)
         jtj_corr = state.jtj + damping_term
         if self.solver == 'lu':
           velocity = jnp.linalg.solve(jtj_corr, state.gradient)
@@ -389,7 +389,7 @@ class LevenbergMarquardt(base.IterativeSolver):
         # Note the same as above here that we could use inverse of jtj_corr but
         # chose to use solve for higher performance and lower numerical error.
         if self.solver == 'qr':
-          aug_rpp = jnp.hstack([rpp, jnp.zeros(params.size)])
+          aug_rpp = jnp.hstack([rpp, jnp.zeros(params.size, dtype=params.dtype)])
           acceleration = jsp.linalg.solve_triangular(r, q.T @ aug_rpp)
         elif self.solver == 'lu':
           acceleration = jnp.linalg.solve(jtj_corr, state.jt) @ rpp
@@ -478,8 +478,8 @@ class LevenbergMarquardt(base.IterativeSolver):
 
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
-    self.damping_factor_max = jnp.asarray(2**32, dtype=float)
-    self.increase_factor_max = jnp.asarray(2**32, dtype=float)
+    self.damping_factor_max = 2.**32
+    self.increase_factor_max = 2.**32
 
     # For geodesic acceleration, we define Hessian of the residual function.
     if self.materialize_jac:
@@ -523,7 +523,7 @@ class LevenbergMarquardt(base.IterativeSolver):
   def _jtj_diag_op(self, params, *args, **kwargs):
     """Diagonal elements of J^T.J, where J is jacobian of fun at params."""
     diag_op = lambda v: v.T @ self._jtj_op(params, v, *args, **kwargs)
-    return jax.vmap(diag_op)(jnp.eye(len(params))).T
+    return jax.vmap(diag_op)(jnp.eye(len(params), dtype=params.dtype)).T
 
   def _d2fvv_op(self, primals, tangents1, tangents2, *args, **kwargs):
     """Product with d2f.v1v2."""
-- 
2.43.0


From 6aff400f302d148a5248b4f67b65be1fa85151b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 45/60] fix: LevenbergMarquardt with geodesic acceleration
 accepted steps that increase the cost

---
 jaxopt/_src/levenberg_marquardt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index d9f9f78..f868677 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -325,7 +325,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     # Current value of loss function F=0.5*||f||^2.
     loss_next = 0.5 * jnp.sum(jnp.square(residual_next))
 
-    gain_ratio = (loss_curr - loss_next) / gain_ratio_denom
+    # The geodesic acceleration can turn the step into an ascent direction of the
+    # model, in which case both differences are negative: reject these steps.
+    gain_ratio = jnp.where(gain_ratio_denom > 0,
+                           (loss_curr - loss_next) / gain_ratio_denom, 0.)
 
     gain_ratio_test_init_state = (params, damping_factor, increase_factor,
                                   residual, gradient, jac, jt, jtj, hess_res,
-- 
2.43.0


From c0a3f9521a5a03740bf64ce976ea9b8602b4b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 46/60] fix: Anderson acceleration failed on single precision
 parameters when x64 is enabled

---
 jaxopt/_src/anderson.py         | 17 ++++++++++++-----
 jaxopt/_src/anderson_wrapper.py |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/anderson.py b/jaxopt/_src/anderson.py
index ef153bb..f00a55b 100644
--- a/jaxopt/_src/anderson.py
+++ b/jaxopt/_src/anderson.py
@@ -35,10 +35,11 @@ from jaxopt._src.tree_util import tree_map
 def minimize_residuals(residual_gram, ridge):
   """Return the solution to the linear system with slack variable."""
   m = residual_gram.shape[0]
-  residual_gram = residual_gram + ridge * jnp.eye(m) # avoid ill-posed systems
-  H = jnp.block([[jnp.zeros((1, 1)), jnp.ones((1, m))],
-                  [ jnp.ones((m, 1)), residual_gram  ]])
-  c = jnp.zeros((m+1)).at[0].set(1)
+  dtype = residual_gram.dtype
+  residual_gram = residual_gram + ridge * jnp.eye(m, dtype=dtype) # avoid ill-posed systems
+  H = jnp.block([[jnp.zeros((1, 1), dtype), jnp.ones((1, m), dtype)],
+                  [ jnp.ones((m, 1), dtype), residual_gram  ]])
+  c = jnp.zeros((m+1), dtype).at[0].set(1)
   alphas = jnp.linalg.solve(H, c)
   return alphas
 
@@ -75,6 +76,12 @@ def pytree_replace_elem(tree_batched, index, new_elems):
   return tree_map(at_set, tree_batched, new_elems)
 
 
+def init_residual_gram(params, history_size):
+  """Gram matrix of zero residuals, in the (real) precision of the parameters."""
+  dtype = jnp.finfo(jnp.result_type(*jax.tree_util.tree_leaves(params))).dtype
+  return jnp.zeros((history_size, history_size), dtype)
+
+
 def update_history(pos, params_history, residuals_history,
                    residual_gram, extrapolated, residual):
   params_history = pytree_replace_elem(params_history, pos, extrapolated)
@@ -175,7 +182,7 @@ class AndersonAcceleration(base.IterativeSolver):
     params_history = tree_map(lambda x: jnp.tile(x, [m]+[1]*x.ndim),
                               init_params)
     residuals_history = tree_map(jnp.zeros_like, params_history)
-    residual_gram = jnp.zeros((m,m))
+    residual_gram = init_residual_gram(init_params, m)
 
     _, aux = self._value_with_aux(init_params, *args, **kwargs)
 
diff --git a/jaxopt/_src/anderson_wrapper.py b/jaxopt/_src/anderson_wrapper.py
index 8f3dbe4..744768a 100644
--- a/jaxopt/_src/anderson_wrapper.py
+++ b/jaxopt/_src/anderson_wrapper.py
@@ -27,7 +27,7 @@ import jax.numpy as jnp
 
 from jaxopt._src import base
 from jaxopt._src.tree_util import tree_sub, tree_map
-from jaxopt._src.anderson import anderson_step, update_history
+from jaxopt._src.anderson import anderson_step, init_residual_gram, update_history
 
 
 class AndersonWrapperState(NamedTuple):
@@ -91,7 +91,7 @@ class AndersonWrapper(base.IterativeSolver):
     params_history = tree_map(lambda x: jnp.tile(x, [m]+[1]*x.ndim),
                               init_params)
     residuals_history = tree_map(jnp.zeros_like, params_history)
-    residual_gram = jnp.zeros((m,m))
+    residual_gram = init_residual_gram(init_params, m)
     return AndersonWrapperState(iter_num=jnp.asarray(0),
                                 solver_state=solver_state,
                                 error=solver_state.error,
-- 
2.43.0


From c69e13b69336c3e5641e066fd965f56bef7bdc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 47/60] fix: PolyakSGD (SPS_max) turned the parameters into NaN
 when a batch attains fun_min with a zero gradient

---
 jaxopt/_src/polyak_sgd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/polyak_sgd.py b/jaxopt/_src/polyak_sgd.py
index 22ed6c3..0f70a63 100644
--- a/jaxopt/_src/polyak_sgd.py
+++ b/jaxopt/_src/polyak_sgd.py
@@ -213,8 +213,16 @@ class PolyakSGD(base.StochasticSolver):
 
     grad_sqnorm = tree_l2_norm(grad, squared=True)
     if self.variant == "SPS_max":
-      stepsize = jnp.minimum(
-          (value - self.fun_min) / (grad_sqnorm + self.delta), self.max_stepsize
+      denom = grad_sqnorm + self.delta
+      # a zero gradient gives a zero step, rather than 0 / 0 when fun_min is hit
+      is_zero = denom == 0
+      stepsize = jnp.where(
+          is_zero,
+          0.0,
+          jnp.minimum(
+              (value - self.fun_min) / jnp.where(is_zero, 1.0, denom),
+              self.max_stepsize,
+          ),
       )
     elif self.variant == "SPS+":
       # if grad_sqnorm is smaller than machine epsilon, we set the stepsize to 0
-- 
2.43.0


From 3b6d6cd079d7f37e2b8874df9f3b4618f0b864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 48/60] fix: ArmijoSGD accepted steps to points where the
 objective is NaN

---
 jaxopt/_src/armijo_sgd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/armijo_sgd.py b/jaxopt/_src/armijo_sgd.py
index c9b79b9..93f8553 100644
--- a/jaxopt/_src/armijo_sgd.py
+++ b/jaxopt/_src/armijo_sgd.py
@@ -38,7 +38,8 @@ from jaxopt._src import loop
 
 def wolfe_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
   eps = jnp.finfo(f_next.dtype).eps
-  return stepsize * coef * grad_sqnorm > f_cur - f_next + eps
+  # written as a negation so that a NaN value counts as a violation
+  return ~(stepsize * coef * grad_sqnorm <= f_cur - f_next + eps)
 
 
 def curvature_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
-- 
2.43.0


From 8d3ccc1f51ef2797b04239cc065723851fae9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 49/60] fix: ScipyMinimize raised AttributeError with COBYLA,
 which does not report a number of iterations

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 789b777..d84ace2 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -388,7 +388,7 @@ class ScipyMinimize(ScipyWrapper):
     info = ScipyMinimizeInfo(fun_val=jnp.asarray(res.fun),
                              success=res.success,
                              status=res.status,
-                             iter_num=res.nit,
+                             iter_num=getattr(res, 'nit', None),
                              hess_inv=hess_inv,
                              num_fun_eval=nev_dict['nfev'],
                              num_jac_eval=nev_dict['njev'],
-- 
2.43.0


From 177ccffaf4ef44e1c46802013fdfa1c2461c619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 50/60] fix: the callback of ScipyMinimize raised TypeError
 with trust-constr, which passes it a second argument

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index d84ace2..d09ccd1 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -344,7 +344,7 @@ class ScipyMinimize(ScipyWrapper):
 
     # wrap the callback so its arguments are of the same kind as fun
     if self.callback is not None:
-      def scipy_callback(x_onp: onp.ndarray):
+      def scipy_callback(x_onp: onp.ndarray, *unused_args):
         x_jnp = onp_to_jnp(x_onp)
         return self.callback(x_jnp)
     else:
-- 
2.43.0


From 20611c33aade9fe7a0d2c8125b3f996c755890d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 51/60] fix: ScipyRootFinding and ScipyLeastSquares failed with
 their default method (None)

---
 jaxopt/_src/scipy_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index d09ccd1..f3ff25f 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -552,11 +552,12 @@ class ScipyRootFinding(ScipyWrapper):
     # Argument `args` is unused but must be not None to ensure that some sanity checks are performed
     # correctly in Scipy for optimizers that don't use the Jacobian (such as Broyden).
     # See the related issue: https://github.com/google/jaxopt/issues/290
+    method = 'hybr' if self.method is None else self.method  # SciPy's default
     res = osp.optimize.root(scipy_fun, jnp_to_onp(init_params, self.dtype),
                             args=(None,),
                             jac=True,
                             tol=self.tol,
-                            method=self.method,
+                            method=method,
                             options=self.options)
 
     params = tree_util.tree_map(jnp.asarray, onp_to_jnp(res.x))
@@ -696,11 +697,12 @@ class ScipyLeastSquares(ScipyWrapper):
     else:
       bounds = (-onp.inf, onp.inf)
 
+    method = 'trf' if self.method is None else self.method  # SciPy's default
     res = osp.optimize.least_squares(scipy_fun,
                                      jnp_to_onp(init_params, self.dtype),
                                      jac=scipy_jac,
                                      bounds=bounds,
-                                     method=self.method,
+                                     method=method,
                                      loss=self.loss,
                                      **self.options)
 
-- 
2.43.0


From 0a48e48248fa0ce00d2ac4181602818ba1042924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 52/60] fix: ScipyRootFinding failed with df-sane, which
 expects the residual alone and reports no status

---
 jaxopt/_src/scipy_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index f3ff25f..66568cf 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -546,6 +546,8 @@ class ScipyRootFinding(ScipyWrapper):
       del scipy_args  # unused
       x_jnp = onp_to_jnp(x_onp)
       value_jnp = self.optimality_fun(x_jnp, *args, **kwargs)
+      if self.method == 'df-sane':  # does not support `jac`
+        return jnp_to_onp(value_jnp, self.dtype)
       jacs_jnp = self._jac_fun(x_jnp, *args, **kwargs)
       return jnp_to_onp(value_jnp, self.dtype), jac_jnp_to_onp(jacs_jnp)
 
@@ -555,7 +557,7 @@ class ScipyRootFinding(ScipyWrapper):
     method = 'hybr' if self.method is None else self.method  # SciPy's default
     res = osp.optimize.root(scipy_fun, jnp_to_onp(init_params, self.dtype),
                             args=(None,),
-                            jac=True,
+                            jac=self.method != 'df-sane',
                             tol=self.tol,
                             method=method,
                             options=self.options)
@@ -578,7 +580,7 @@ class ScipyRootFinding(ScipyWrapper):
 
     info = ScipyRootInfo(fun_val=jnp.asarray(res.fun),
                          success=res.success,
-                         status=res.status,
+                         status=getattr(res, 'status', None),
                          iter_num=iter_num,
                          num_fun_eval=num_fun_eval)
     return base.OptStep(params, info)
-- 
2.43.0


From dfc1fdab9f82bd66851e15851ddab4f08de037d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 53/60] fix: solutions of ScipyBoundedMinimize and
 ScipyBoundedLeastSquares without bounds were not differentiable

---
 jaxopt/_src/scipy_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 66568cf..9ed43d8 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -451,7 +451,7 @@ class ScipyBoundedMinimize(ScipyMinimize):
 
   def _fixed_point_fun(self, sol, bounds, args, kwargs):
     step = tree_sub(sol, self._grad_fun(sol, *args, **kwargs))
-    return projection.projection_box(step, bounds)
+    return step if bounds is None else projection.projection_box(step, bounds)
 
   def _reference_signature(self):
     return _signature_with_bounds(self.fun)
@@ -791,7 +791,7 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
 
   def _fixed_point_fun(self, sol, bounds, args, kwargs):
     step = tree_sub(sol, self._grad_cost_fun(sol, *args, **kwargs))
-    return projection.projection_box(step, bounds)
+    return step if bounds is None else projection.projection_box(step, bounds)
 
   def _reference_signature(self):
     return _signature_with_bounds(self.fun)
-- 
2.43.0


From c3828a1d9f79a1c99e60f32f5ea6fa6709325119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 54/60] fix: ScipyLeastSquares rejected x_scale given as a
 NumPy array or an integer

---
 jaxopt/_src/scipy_wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 9ed43d8..d2dea97 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -743,8 +743,7 @@ class ScipyLeastSquares(ScipyWrapper):
       self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
-    if self.options['x_scale'] != 'jac' and not isinstance(
-        self.options['x_scale'], float):
+    if not isinstance(self.options['x_scale'], (str, int, float)):
       self.options['x_scale'] = jnp_to_onp(self.options['x_scale'], self.dtype)
 
     # Pre-compile useful functions.
-- 
2.43.0


From 71e847f3306382099c044e58d4e8f7708c145003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 55/60] fix: the derivative of make_perturbed_fun dropped the
 axes of size one of the output

---
 jaxopt/_src/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..3319ee7 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -264,7 +264,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
@@ -279,7 +279,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - output, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   if control_variate:
-- 
2.43.0


From 493e55ceb74b9788edb816da86222f1a89cde876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 56/60] fix: the control variate of make_perturbed_fun failed
 on outputs with several elements

---
 jaxopt/_src/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 3319ee7..f1a1e15 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -271,7 +271,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
     output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
-    output = fun(inputs)
+    output = fun(inputs)[..., jnp.newaxis]
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
-- 
2.43.0


From 41a7c25a855d53ec938273dedc2e2cd6048fad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 57/60] fix: init_state of ProximalGradient stored the gradient
 as aux when fun returns ((value, aux), grad)

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index ab3d5b2..6f7ce02 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -180,7 +180,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -330,11 +330,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From d87f4f8d1e6c839a47fbff499b855fbed3c8d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:01 +0000
Subject: [PATCH 58/60] fix: dense linear solvers did not keep the precision of
 b, and failed on complex b (solve_lu, solve_qr)

---
 jaxopt/_src/linear_solve.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index ca56b33..5ee6895 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -28,7 +28,10 @@ from jaxopt._src.tree_util import tree_add_scalar_mul
 
 def _materialize_array(matvec, shape, dtype=None):
   """Materializes the matrix A used in matvec(x) = Ax."""
-  x = jnp.zeros(shape, dtype)
+  # jacfwd requires real floating-point inputs. The columns of A, which may be
+  # complex, are the images of real vectors.
+  dtype = jnp.result_type(float if dtype is None else dtype, float)
+  x = jnp.zeros(shape, dtype).real
   return jax.jacfwd(matvec)(x)
 
 
@@ -87,7 +90,7 @@ def solve_cholesky(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
@@ -118,13 +121,13 @@ def solve_inv(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
-    A = _materialize_array(matvec, b.shape)
+    A = _materialize_array(matvec, b.shape, b.dtype)
     return jnp.dot(jnp.linalg.inv(A), b)
   else:
     raise NotImplementedError
@@ -147,7 +150,7 @@ def solve_qr(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
@@ -155,7 +158,7 @@ def solve_qr(matvec: Callable,
   elif len(b.shape) == 1:
     # TODO: consider passing mode='economic' instead of current 'full'.
     q, r = jsp.linalg.qr(A)
-    return jsp.linalg.solve_triangular(r, q.T @ b)
+    return jsp.linalg.solve_triangular(r, q.T.conj() @ b)
   else:
     # TODO: support for 2D b arrays.
     raise NotImplementedError
-- 
2.43.0


From a9f567ce132d92b79597a507811257f95b60f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 59/60] fix: solve_normal_cg used the transpose instead of the
 adjoint of complex operators

---
 jaxopt/_src/linear_solve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 5ee6895..6249d27 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -24,6 +24,7 @@ import jax.numpy as jnp
 import jax.scipy as jsp
 
 from jaxopt._src.tree_util import tree_add_scalar_mul
+from jaxopt._src.tree_util import tree_conj
 
 
 def _materialize_array(matvec, shape, dtype=None):
@@ -189,13 +190,14 @@ def solve_cg(matvec: Callable,
 
 def _make_rmatvec(matvec, x):
   transpose = jax.linear_transpose(matvec, x)
-  return lambda y: transpose(y)[0]
+  # The conjugations turn the transpose into the adjoint (no-op if real).
+  return lambda y: tree_conj(transpose(tree_conj(y))[0])
 
 
 def _normal_matvec(matvec, x):
-  """Computes A^T A x from matvec(x) = A x."""
+  """Computes A^T A x (A^H A x if complex) from matvec(x) = A x."""
   matvec_x, vjp = jax.vjp(matvec, x)
-  return vjp(matvec_x)[0]
+  return tree_conj(vjp(tree_conj(matvec_x))[0])
 
 
 def solve_normal_cg(matvec: Callable,
@@ -205,6 +207,8 @@ def solve_normal_cg(matvec: Callable,
                     **kwargs) -> Any:
   """Solves the normal equation ``A^T A x = A^T b`` using conjugate gradient.
 
+  For complex inputs, ``A^T`` is the conjugate transpose of ``A``.
+
   This can be used to solve Ax=b using conjugate gradient when A is not
   hermitian, positive definite.
 
-- 
2.43.0


From 3ca4c4398c114b7d9baa039fcec5bfadb7ff41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:26 +0000
Subject: [PATCH 60/60] fix: Hager-Zhang's bisection (U3) could return an
 interval without opposite slopes

---
 jaxopt/_src/hager_zhang_linesearch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index f73830a..440ab5e 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -178,14 +178,16 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
       # Note that ~done implies grad_middle < 0. which is necessary for this
       # check.
       new_low = jnp.where(~done & update_left_endpoint, middle, low)
-      done = done | update_left_endpoint
+      # Once in U3 (it > 0), the slope at the right endpoint is negative, so we
+      # need to continue until a point with a nonnegative slope is found.
+      done = done | (update_left_endpoint & (it == 0))
 
       # Correspond to U3 in the paper.
-      new_high = jnp.where(~done, middle, new_high)
+      new_high = jnp.where(~done & ~update_left_endpoint, middle, new_high)
       done = done | jnp.isneginf(value_middle)
 
       # TODO(srvasude): Allow this parameter to be varied.
-      new_middle = jnp.where(~done, (low + high) / 2., middle)
+      new_middle = jnp.where(~done, (new_low + new_high) / 2., middle)
 
       new_value_middle, new_grad_middle = self._value_and_grad_on_line(
           x, new_middle, descent_direction, *fun_args, **fun_kwargs)
-- 
2.43.0

