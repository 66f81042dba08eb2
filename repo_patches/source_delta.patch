From 7f7a76658464101caa6d2ca98bda3ef1f933225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:57 +0000
Subject: [PATCH 01/17] fix: keep subproblem solutions inside the unit sphere

The gqtpar solvers only satisfy the norm constraint up to the relative
tolerance k_easy, so candidates could lie outside the trust region and, if
bounds are close to but not inside the trust region, outside the bounds.
---
 src/tranquilo/solve_subproblem.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..72157c0 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -204,8 +204,12 @@ def _solve_subproblem_template(
             x_candidate=old_x_unit,
         )
 
+    # make sure the solution is feasible. Sphere solvers can stop slightly outside the
+    # unit sphere because they only satisfy the norm constraint up to a tolerance.
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    else:
+        raw_result["x"] = _project_into_unit_sphere(raw_result["x"])
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
@@ -237,6 +241,13 @@ def _solve_subproblem_template(
     return result
 
 
+def _project_into_unit_sphere(x):
+    """Project a point that lies outside of the unit sphere onto its hull."""
+    norm = np.linalg.norm(x)
+    out = x / norm if norm > 1 else x
+    return out
+
+
 class SubproblemResult(NamedTuple):
     """Result of the subproblem solver."""
 
-- 
2.43.0


From 22fc24542b3f2bf2c003aecf02c506ceea6d9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 02/17] fix: do not lose the level of finite values when
 clipping infinities

If all finite values in a column were equal, the sign of their range was zero
and infinities were replaced by 1 or -1, i.e. potentially by a value that is
better than the finite values.
---
 src/tranquilo/handle_infinity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..b722811 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -33,8 +33,9 @@ def clip_relative(fvecs):
 
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
-    # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    # signe of _diff, _mins and _maxs. We cannot use np.sign because the sign of a zero
+    # _diff must not be zero. Otherwise the location of the finite values gets lost.
+    _signs = np.where(_diff < 0, -1.0, 1.0)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From 2781d0a2c2138a53397c06a1ba7e74fc64c9554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 03/17] fix: support one-sided bounds in trust regions

If only lower or only upper bounds were given, checking whether bounds are
binding raised an UnboundLocalError.
---
 src/tranquilo/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..e1d9e3b 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -144,6 +144,7 @@ def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
     out = False
     if bounds is not None and bounds.has_any:
+        lower_binding, upper_binding = False, False
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
-- 
2.43.0


From 8a389168c479c7ad54bfb99dfdfba4742ba49fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 04/17] fix: use a positive default trust-region radius at zero
 start vectors

The default initial radius was proportional to the largest start parameter. For
a start vector of zeros the radius was zero and the optimization crashed.
---
 src/tranquilo/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..2435b55 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,8 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    # the maximum ensures a positive radius if the start vector is (close to) zero
+    return RadiusOptions(initial_radius=0.1 * max(np.max(np.abs(x)), 1.0))
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From f18b03758af0407ecaece09e51d908dbd144fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 05/17] fix: handle failing evaluations in batches of vector
 valued criteria

If the evaluation of a likelihood or least-squares criterion raised an exception,
it was replaced by a scalar infinity. If other points were evaluated in the same
batch this led to an error because of the inhomogeneous shapes.
---
 src/tranquilo/wrap_criterion.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..e8ed7fa 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -54,8 +54,9 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
 
         # The batch evaluator replaces exceptions with their traceback (str) when
         # error_handling="continue". We replace these cases with infinity.
+        failed_eval = _get_failed_eval(raw_evals, history)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            failed_eval if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +74,31 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_failed_eval(raw_evals, history):
+    """Get the value that is recorded for evaluations that raised an exception.
+
+    Args:
+        raw_evals (list): The raw results of the batch evaluator. Failed evaluations are
+            represented by a string.
+        history (History): The tranquilo history.
+
+    Returns:
+        float or np.ndarray: Infinity for scalar functions. Otherwise, an array filled
+            with infinities that has the same length as the successful evaluations. If
+            no evaluation was successful so far, the length is unknown and infinity is
+            returned.
+
+    """
+    out = np.inf
+    if history.functype != "scalar":
+        successful = [x for x in raw_evals if not isinstance(x, str)]
+        if successful:
+            out = np.full(np.shape(successful[0]), np.inf)
+        elif history.fvecs is not None:
+            out = np.full(history.fvecs.shape[1], np.inf)
+    return out
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From f3fa4f57f0d6c2cdb4a8699e02f6c18f678b2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 06/17] fix: do not reseed the global random number generator
 in a subsolver

The start values are drawn with their own seed, so seeding the global random
state had no effect except for changing random numbers of the caller.
---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From ba7d958941f2f46462edf085a3e8410215be0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 07/17] fix: do not modify user provided algo_options in the
 optimal sampler

---
 src/tranquilo/sample_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..5635853 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,8 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    # copy to avoid changing the options of the user
+    algo_options = {} if algo_options is None else dict(algo_options)
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From 4e2c652b24a3ef4bc4054db5214a2236607e8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:59 +0000
Subject: [PATCH 08/17] fix: keep line search points inside the parameter
 bounds

The line search samples points beyond the candidate. If the candidate was close to
a bound, the criterion was evaluated outside of the bounds.
---
 src/tranquilo/acceptance_decision.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..0d2c1c8 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,8 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+        # points beyond the candidate can violate the bounds
+        line_search_xs = _clip_to_bounds(line_search_xs, state.trustregion.bounds)
     else:
         line_search_xs = None
 
@@ -496,6 +498,24 @@ def _sample_on_line(start_point, direction_point, alpha_grid):
     return xs
 
 
+def _clip_to_bounds(xs, bounds):
+    """Move points that violate the bounds onto the bounds.
+
+    Args:
+        xs (np.ndarray): Points to clip, has shape (n_points, n_params).
+        bounds (Bounds or None): Parameter bounds.
+
+    Returns:
+        np.ndarray: The clipped points.
+
+    """
+    if bounds is not None and bounds.lower is not None:
+        xs = np.maximum(xs, bounds.lower)
+    if bounds is not None and bounds.upper is not None:
+        xs = np.minimum(xs, bounds.upper)
+    return xs
+
+
 def _is_on_border(trustregion, x, rtol):
     """Check whether a point is sufficiently close to the border of a trust region.
 
-- 
2.43.0


From 46bbb4a508dd0bfa2e32f6c8f8cf53246cadfb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 09/17] fix: use consistent ordering of square terms in
 poisedness

The polynomial features are ordered row-wise but the coefficients were put into the
matrix of square terms column-wise. This makes a difference for more than two
parameters.
---
 src/tranquilo/poisedness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 1359e0d..d2f9249 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -176,8 +176,9 @@ def _reshape_coef_to_square_terms(coef, n_params):
     mat = np.empty((n_params, n_params))
     idx = -1
 
-    for j in range(n_params):
-        for i in range(j + 1):
+    # same ordering as in _scaled_polynomial_features
+    for i in range(n_params):
+        for j in range(i, n_params):
             idx += 1
             mat[i, j] = coef[idx]
             mat[j, i] = coef[idx]
-- 
2.43.0


From def1d706a2246638d207bce979d0cc36c488d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 10/17] fix: respect all bounds in the linear trsbox solver

The search for the next active bound went through the parameters only once. It
raised a StopIteration if no parameters were left and returned points outside of
the bounds if a bound that had been passed over became active later.
---
 src/tranquilo/subsolvers/linear_subsolvers.py | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/tranquilo/subsolvers/linear_subsolvers.py b/src/tranquilo/subsolvers/linear_subsolvers.py
index fd33dda..69a3494 100644
--- a/src/tranquilo/subsolvers/linear_subsolvers.py
+++ b/src/tranquilo/subsolvers/linear_subsolvers.py
@@ -57,9 +57,6 @@ def minimize_trsbox_linear(
     indices_inactive_directions = np.where(np.abs(direction) < zero_treshold)[0]
     direction[indices_inactive_directions] = 0
 
-    active_directions = np.setdiff1d(np.arange(n), indices_inactive_directions)
-    set_active_directions = iter(active_directions)
-
     for _ in range(n):
         if np.linalg.norm(direction) < zero_treshold:
             break
@@ -69,10 +66,10 @@ def minimize_trsbox_linear(
         )
 
         active_bound, index_active_bound = _find_next_active_bound(
+            x_candidate,
             x_candidate_unconstr,
             lower_bounds_internal,
             upper_bounds_internal,
-            set_active_directions,
         )
 
         if active_bound is None:
@@ -179,26 +176,26 @@ def improve_geomtery_trsbox_linear(
 
 
 def _find_next_active_bound(
+    x_candidate,
     x_candidate_unconstr,
     lower_bounds,
     upper_bounds,
-    set_active_directions,
 ):
     """Find the next active bound and return its index.
 
-    A (lower or upper) bound is considered active if
-        x_candidate <= lower_bounds
-        x_candidate >= upper_bounds
+    A (lower or upper) bound is considered active if the step from x_candidate to
+    x_candidate_unconstr reaches or crosses it. If there are several active bounds, the
+    one that is reached first is returned. This ensures that the constrained step up to
+    the active bound does not violate any other bound.
 
     Args:
+        x_candidate (np.ndarray): Current candidate vector of shape (n,).
         x_candidate_unconstr (np.ndarray): Unconstrained candidate vector of shape (n,),
             which ignores bound constraints.
         lower_bounds (np.ndarray): 1d array of shape (n,) with lower bounds
             for the parameter vector x.
         upper_bounds (np.ndarray): 1d array of shape (n,) with upper bounds
             for the parameter vector x.
-        set_active_directions (iterator): Iterator over the indices of active search
-            directions, i.e. directions that are not zero.
 
     Returns:
         Tuple:
@@ -209,23 +206,23 @@ def _find_next_active_bound(
                 upper bound has been found. None, if no active bound has been detected.
 
     """
-    index_active = next(set_active_directions)
-
-    while True:
-        if x_candidate_unconstr[index_active] >= upper_bounds[index_active]:
-            active_bound = upper_bounds[index_active]
-            break
+    active_bound, index_active = None, None
+    smallest_step_share = np.inf
 
-        elif x_candidate_unconstr[index_active] <= lower_bounds[index_active]:
-            active_bound = lower_bounds[index_active]
-            break
+    step = x_candidate_unconstr - x_candidate
 
+    for index in range(len(step)):
+        if step[index] > 0 and x_candidate_unconstr[index] >= upper_bounds[index]:
+            bound = upper_bounds[index]
+        elif step[index] < 0 and x_candidate_unconstr[index] <= lower_bounds[index]:
+            bound = lower_bounds[index]
         else:
-            try:
-                index_active = next(set_active_directions)
-            except StopIteration:
-                active_bound = None
-                break
+            continue
+
+        step_share = (bound - x_candidate[index]) / step[index]
+        if step_share < smallest_step_share:
+            active_bound, index_active = bound, index
+            smallest_step_share = step_share
 
     return active_bound, index_active
 
-- 
2.43.0


From 01f904008dda56473c2008ebdee7b1839df4ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 11/17] fix: keep the radius above its minimum if steps are
 short

---
 src/tranquilo/adjust_radius.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..7094d2c 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -38,6 +38,9 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
     else:
         max_radius = options.max_radius
 
+    # the minimum radius takes precedence, also after very short or rejected steps
+    max_radius = max(max_radius, options.min_radius)
+
     new_radius = np.clip(new_radius, options.min_radius, max_radius)
 
     return new_radius
-- 
2.43.0


From d09522e6e1656eaac2213c4fd5022af72bf1e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 12/17] fix: handle models without square terms when moving and
 adding

---
 src/tranquilo/models.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..a5449aa 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -115,8 +115,9 @@ def add_models(model1, model2):
 
     new["linear_terms"] = model1.linear_terms + model2.linear_terms
 
-    if model1.square_terms is not None:
-        assert model2.square_terms is not None
+    if model1.square_terms is None:
+        new["square_terms"] = model2.square_terms
+    elif model2.square_terms is not None:
         new["square_terms"] = model1.square_terms + model2.square_terms
 
     out = replace(model1, **new)
@@ -184,7 +185,10 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+    new_g = model.linear_terms
+
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
-- 
2.43.0


From 5411323b798d0678fcddc87f6e4784810c93c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 13/17] fix: move models to regions whose scale differs across
 parameters

---
 src/tranquilo/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index a5449aa..69d1174 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -163,7 +163,10 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+    new_h = None
+    if model.square_terms is not None:
+        # the factor differs across parameters if the region is not a regular cube
+        new_h = model.square_terms * factor * np.reshape(factor, (-1, 1))
 
     out = model._replace(
         linear_terms=new_g,
@@ -214,7 +217,7 @@ def _shift_vector_model(model, shift):
     new_g = model.linear_terms
 
     if model.square_terms is not None:
-        new_g += shift @ model.square_terms
+        new_g = new_g + shift @ model.square_terms
 
     out = model._replace(
         intercepts=new_c,
-- 
2.43.0


From 83bd5c383f9ec95780f32ddeab2f01464e1d8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 14/17] fix: initialise the active bound in the compiled trsbox
 solver

Without JIT compilation (NUMBA_DISABLE_JIT=1) the solver raised
UnboundLocalError whenever no bound limited the tangent of the step.
---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..90397dc 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.zeros(0, dtype=np.int64)
+    active_bound = np.zeros(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From a9ef01585e4a2249b4bb83c37132ffd10d14a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 15/17] fix: determine the active bounds of bntr with the
 gradient at the start point

The active set was determined with the linear terms of the model, the
projected gradient with the gradient at x_candidate. At a start point where
all bounds were active for the linear terms but not for the gradient, the
solver raised ValueError (or ZeroDivisionError when compiled).
---
 src/tranquilo/subsolvers/bntr.py      | 5 +++--
 src/tranquilo/subsolvers/bntr_fast.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..f3b01f1 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -269,14 +269,15 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
+
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..eb65faf 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -396,6 +396,8 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
+
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -403,12 +405,11 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
-- 
2.43.0


From d83eafe5d213e4c9c8bf55366757a86907507d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:24 +0000
Subject: [PATCH 16/17] fix: keep fractional values of the sampler's hardness

The default was an integer, so that the user's value was converted to int.
---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index 2435b55..1f2f0bf 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -196,7 +196,7 @@ class FilterOptions(NamedTuple):
 
 class SamplerOptions(NamedTuple):
     distribution: str = None
-    hardness: float = 1
+    hardness: float = 1.0
     algorithm: str = "L-BFGS-B"
     algo_options: dict = None
     criterion: str = None
-- 
2.43.0


From b1a1231b8a7b8e47c5cbdb0c995091749016b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:24 +0000
Subject: [PATCH 17/17] fix: warn about redundant arguments of partialled
 components

With redundant_argument_handling="warn" the call raised AttributeError
because partial objects have no __name__.
---
 src/tranquilo/get_component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index 8707ff7..1580574 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -211,6 +211,9 @@ def _add_redundant_argument_handling(func, signature, warn):
 
     """
 
+    # partialled functions do not have a name of their own
+    name = getattr(func, "func", func).__name__
+
     @functools.wraps(func)
     def _wrapper_add_redundant_argument_handling(*args, **kwargs):
         _kwargs = {**dict(zip(signature[: len(args)], args)), **kwargs}
@@ -221,7 +224,7 @@ def _add_redundant_argument_handling(func, signature, warn):
         if warn and _redundant:
             msg = (
                 f"The following arguments are not supported by the function "
-                f"{func.__name__} and will be ignored: {_redundant}."
+                f"{name} and will be ignored: {_redundant}."
             )
             warnings.warn(msg)
 
-- 
2.43.0

