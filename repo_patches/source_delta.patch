From cfad010a5a322e7361159aec42fc913dd55a2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/42] fix: support problems that only have lower or only have
 upper bounds

---
 src/tranquilo/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..c04f2c0 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -142,11 +142,11 @@ def _create_cube_bounds(center, radius, bounds):
 
 def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
-    out = False
+    lower_binding, upper_binding = False, False
     if bounds is not None and bounds.has_any:
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
             upper_binding = np.min(bounds.upper - center) <= radius
-        out = np.any(lower_binding) or np.any(upper_binding)
+    out = np.any(lower_binding) or np.any(upper_binding)
     return out
-- 
2.43.0


From 66585ad5433caf9ee636b9ed204c760afdd04056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 02/42] fix: positive default initial radius if all start
 parameters are zero

---
 src/tranquilo/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..6149c58 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,9 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    # a trustregion with radius zero cannot be scaled to the unit sphere or cube
+    x_scale = np.max(np.abs(x))
+    return RadiusOptions(initial_radius=0.1 * x_scale if x_scale > 0 else 0.1)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From 7fd57b857c54659b499b8a7bd01d02ee5483c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 03/42] fix: clip infinities relative to finite values if those
 are all equal

---
 src/tranquilo/handle_infinity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..7a4bbae 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -34,7 +34,9 @@ def clip_relative(fvecs):
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
     # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    # If all finite values in a column are equal, _diff is zero and the sign has to be
+    # positive. Otherwise, the location of the finite values would be ignored.
+    _signs = np.where(_diff < 0, -1.0, 1.0)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From 86a560c24593b45254bc404ae6cfb7eab3e970e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 04/42] fix: do not modify the algo_options of the user in
 optimal_hull sampler

---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b49f6ed 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else dict(algo_options)
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From 85b03a93997f6a407fae68478161b3def377b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 05/42] fix: respect bounds in line search

---
 src/tranquilo/acceptance_decision.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..7e02fa2 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,12 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+
+        # points beyond the candidate are outside the trustregion and thus can violate
+        # the bounds even though the candidate does not.
+        _bounds = state.trustregion.bounds
+        if _bounds is not None and _bounds.has_any:
+            line_search_xs = np.clip(line_search_xs, _bounds.lower, _bounds.upper)
     else:
         line_search_xs = None
 
-- 
2.43.0


From 144735d21a0f96a266e9abf9f770f10392fb5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 06/42] fix: hard case step of gqtpar must end on the
 trustregion border

---
 src/tranquilo/subsolvers/gqtpar.py      | 2 +-
 src/tranquilo/subsolvers/gqtpar_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 15b2bd5..713ef16 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -326,7 +326,7 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = estimate_smallest_singular_value(hessian_info.upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambdas.candidate:
         x_candidate = step_len * z_min
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index 26e4a8d..ede1944 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -322,7 +322,7 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = _estimate_smallest_singular_value(hessian_upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambda_candidate:
         x_candidate = step_len * z_min
-- 
2.43.0


From a12cacb1c1fe72a69d6b19756fe6d9c7b86af5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/42] fix: wrong lower bound for damping factor in gqtpar if
 the gradient is zero

---
 src/tranquilo/subsolvers/gqtpar.py      | 2 +-
 src/tranquilo/subsolvers/gqtpar_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 713ef16..d34adf1 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -332,7 +332,7 @@ def _check_for_interior_convergence_and_update(
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambdas.lower_bound, lambdas.upper_bound - s_min**2)
+    lambda_lower_bound = max(lambdas.lower_bound, lambdas.candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambdas.candidate
     )
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index ede1944..e3140eb 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -328,7 +328,7 @@ def _check_for_interior_convergence_and_update(
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambda_lower_bound, lambda_upper_bound - s_min**2)
+    lambda_lower_bound = max(lambda_lower_bound, lambda_candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambda_candidate
     )
-- 
2.43.0


From ca1641b1c4c4cf14cb6c172b8e0f6db652683ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 08/42] fix: fallback_norm_constraint must not return points
 outside the unit sphere

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..8ff1f83 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -157,9 +157,13 @@ def robust_sphere_solver_norm_constraint(model, x_candidate):
         options={"maxiter": 3 * len(x_candidate)},
     )
 
+    # SLSQP does not guarantee that the constraint holds if it stops early
+    solution_norm = np.linalg.norm(res.x)
+    _minimizer = res.x if solution_norm <= 1 else res.x / solution_norm
+
     return {
-        "x": res.x,
-        "criterion": res.fun,
+        "x": _minimizer,
+        "criterion": crit(_minimizer),
         "success": res.success,
         "n_iterations": res.nit,
     }
-- 
2.43.0


From b2492d5c6644285873f366542245f7a39840818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 09/42] fix: fallback_multistart must not reseed numpy's global
 random state

---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 8ff1f83..db76330 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From 5ffd3851a56dcb63a023e372380eb28488cef503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 10/42] fix: make the fallback cube solvers usable as
 cube_subsolver

---
 .../subsolvers/fallback_subsolvers.py         | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index db76330..0280734 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -8,16 +8,21 @@ from tranquilo.exploration_sample import draw_exploration_sample
 # ======================================================================================
 # Cube solvers
 # ======================================================================================
-def robust_cube_solver(model, x_candidate, radius=1.0):
+def robust_cube_solver(
+    model, x_candidate, radius=1.0, lower_bounds=None, upper_bounds=None
+):
     """Robust cube solver.
 
-    Argument `radius` corresponds to half of the side length of the cube.
+    Argument `radius` corresponds to half of the side length of the cube. It is only
+    used for bounds that are not specified.
 
     """
     crit, grad = _get_crit_and_grad(model)
 
-    lower_bounds = -radius * np.ones(len(x_candidate))
-    upper_bounds = radius * np.ones(len(x_candidate))
+    if lower_bounds is None:
+        lower_bounds = -radius * np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = radius * np.ones(len(x_candidate))
 
     res = minimize(
         crit,
@@ -38,11 +43,18 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
     }
 
 
-def robust_cube_solver_multistart(model, x_candidate):
+def robust_cube_solver_multistart(
+    model, x_candidate, lower_bounds=None, upper_bounds=None
+):
+    if lower_bounds is None:
+        lower_bounds = -np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = np.ones(len(x_candidate))
+
     start_values = draw_exploration_sample(
         x=x_candidate,
-        lower=-np.ones(len(x_candidate)),
-        upper=np.ones(len(x_candidate)),
+        lower=lower_bounds,
+        upper=upper_bounds,
         n_samples=100,
         sampling_distribution="uniform",
         sampling_method="sobol",
@@ -54,7 +66,9 @@ def robust_cube_solver_multistart(model, x_candidate):
     critvals = []
 
     for x in start_values:
-        res = robust_cube_solver(model, x)
+        res = robust_cube_solver(
+            model, x, lower_bounds=lower_bounds, upper_bounds=upper_bounds
+        )
 
         if res["criterion"] <= best_crit:
             accepted_x = res["x"]
-- 
2.43.0


From 5751c8d8b735283054b9eaf8587dd4626aa3a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 11/42] fix: candidates from sphere subsolvers must respect
 bounds

---
 src/tranquilo/solve_subproblem.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..ceeed3e 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -206,6 +206,13 @@ def _solve_subproblem_template(
 
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    elif trustregion.bounds is not None and trustregion.bounds.has_any:
+        # sphere solvers stop at points slightly outside the unit sphere, which can
+        # violate bounds that are not binding inside the trustregion.
+        _x = trustregion.map_from_unit(raw_result["x"])
+        _x_clipped = _clip_to_bounds(_x, trustregion.bounds)
+        if (_x_clipped != _x).any():
+            raw_result["x"] = trustregion.map_to_unit(_x_clipped)
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
@@ -218,7 +225,9 @@ def _solve_subproblem_template(
     if expected_improvement >= 0:
         success = raw_result["success"]
         x_unit = raw_result["x"]
-        x = trustregion.map_from_unit(raw_result["x"])
+        x = _clip_to_bounds(
+            trustregion.map_from_unit(raw_result["x"]), trustregion.bounds
+        )
     else:
         success = False
         x_unit = old_x_unit
@@ -237,6 +246,12 @@ def _solve_subproblem_template(
     return result
 
 
+def _clip_to_bounds(x, bounds):
+    if bounds is None or not bounds.has_any:
+        return x
+    return np.clip(x, bounds.lower, bounds.upper)
+
+
 class SubproblemResult(NamedTuple):
     """Result of the subproblem solver."""
 
-- 
2.43.0


From 3c4f643b3c201382f48eb8f3da473cff6c495cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 12/42] fix: failed evaluations of vector valued functions must
 not crash

---
 src/tranquilo/wrap_criterion.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..cade345 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -53,9 +53,11 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
         )
 
         # The batch evaluator replaces exceptions with their traceback (str) when
-        # error_handling="continue". We replace these cases with infinity.
+        # error_handling="continue". We replace these cases with infinity. The
+        # replacement needs to have the same shape as successful evaluations.
+        failed_eval = _get_failed_evaluation(raw_evals, history)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            failed_eval if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +75,27 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_failed_evaluation(raw_evals, history):
+    """Get the value that replaces failed evaluations.
+
+    Args:
+        raw_evals (list): Evaluations. Failed evaluations are strings.
+        history (History): The tranquilo history.
+
+    Returns:
+        float or np.ndarray: Infinity in the shape of a successful evaluation.
+
+    """
+    successful = [x for x in raw_evals if not isinstance(x, str)]
+    if successful:
+        out = np.full(np.shape(successful[0]), np.inf)
+    elif history.fvecs is not None and history.functype != "scalar":
+        out = np.full(history.fvecs.shape[1], np.inf)
+    else:
+        out = np.inf
+    return out
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From b444a818d0ab6ddc6b6f9b458de5dcfe529beb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 13/42] fix: infinite or single evaluations must not make the
 noise variance undefined

---
 src/tranquilo/estimate_variance.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..dbe9cc8 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,10 +36,12 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # infinite values (failed evaluations) are not informative about the variance
+    n_evals = {idx: np.isfinite(history.get_fvals(idx)).sum() for idx in all_indices}
 
-    # make sure we keep at least one sample from which we can estimate a variance
-    cutoff = min(max(n_evals.values()), min_n_evals)
+    # make sure we keep at least one sample from which we can estimate a variance, but
+    # no sample with less than two evaluations. If there is none, the result is zero.
+    cutoff = max(2, min(max(n_evals.values()), min_n_evals))
 
     valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
     weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
@@ -49,13 +51,14 @@ def _estimate_variance_classic(
         samples = list(history.get_fvals(valid_indices).values())
         out = 0.0
         for weight, sample in zip(weights, samples):
-            out += weight * np.var(sample, ddof=1)
+            out += weight * np.var(sample[np.isfinite(sample)], ddof=1)
     else:
         samples = list(history.get_fvecs(valid_indices).values())
 
-        dim = samples[0].shape[1]
+        dim = history.fvecs.shape[1]
         out = np.zeros((dim, dim))
         for weight, sample in zip(weights, samples):
+            sample = sample[np.isfinite(sample).all(axis=1)]
             out += weight * np.cov(sample, rowvar=False, ddof=1)
 
     return out
-- 
2.43.0


From 3e9c869d636991c71ff268c5693331e8e3689265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 14/42] fix: clip infinities relative to zero if there are no
 finite values

---
 src/tranquilo/handle_infinity.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index 7a4bbae..0207082 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -27,19 +27,13 @@ def clip_relative(fvecs):
     _mins = np.min(fvecs, axis=0, where=_mask, initial=1e300)
     _maxs = np.max(fvecs, axis=0, where=_mask, initial=-1e300)
 
-    # abs is necessary because if all values are infinite, the diffs can switch sign
-    # due to the initial value in the masked min and max
-    _diff = _maxs - _mins
+    # If there are no finite values in a column, clip relative to zero. Otherwise, the
+    # clipped values would be so large that squaring them leads to an overflow.
+    _any_finite = _mask.any(axis=0)
+    _mins = np.where(_any_finite, _mins, 0.0)
+    _maxs = np.where(_any_finite, _maxs, 0.0)
 
-    # Due to the initial value of the masked min and max, the sign of the diff can
-    # be negative if all values are infinite. In that case we want to switch the
-    # signe of _diff, _mins and _maxs.
-    # If all finite values in a column are equal, _diff is zero and the sign has to be
-    # positive. Otherwise, the location of the finite values would be ignored.
-    _signs = np.where(_diff < 0, -1.0, 1.0)
-    _diff *= _signs
-    _maxs *= _signs
-    _mins *= _signs
+    _diff = _maxs - _mins
 
     _pos_penalty = _maxs + 2 * _diff + 1
     _neg_penalty = _mins - 2 * _diff - 1
-- 
2.43.0


From ca0d34c9939a65dbe3ce77d73dfae8fb450df98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 15/42] fix: bntr subsolvers must terminate if the model
 overflows

---
 src/tranquilo/subsolvers/bntr.py      | 3 ++-
 src/tranquilo/subsolvers/bntr_fast.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..9471ca9 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -207,7 +207,8 @@ def bntr(
                 x_candidate = x_old
                 f_candidate = f_old
 
-                if trustregion_radius == trustregion_radius_old:
+                # written such that it is also satisfied if the radius is nan
+                if not trustregion_radius < trustregion_radius_old:
                     converged = True
                     break
 
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..f441842 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -319,7 +319,8 @@ def _bntr_fast_jitted(
                 x_candidate = x_old
                 f_candidate = f_old
 
-                if trustregion_radius == trustregion_radius_old:
+                # written such that it is also satisfied if the radius is nan
+                if not trustregion_radius < trustregion_radius_old:
                     converged = True
                     break
 
-- 
2.43.0


From f0e24a3afb37ebf1e7e298cc02bb16278ecf2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 16/42] fix: stopping_max_time must not be ignored

---
 src/tranquilo/tranquilo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 845d2bb..ae21330 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -1,4 +1,5 @@
 import functools
+import time
 from typing import NamedTuple
 
 import numpy as np
@@ -50,6 +51,8 @@ def _internal_tranquilo(
     estimate_variance,
     accept_candidate,
 ):
+    start_time = time.monotonic()
+
     if n_evals_at_start > 1:
         eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}
     else:
@@ -381,6 +384,11 @@ def _internal_tranquilo(
             msg = "Maximum number of criterion evaluations reached."
             break
 
+        if time.monotonic() - start_time >= stop_options.max_time:
+            converged = False
+            msg = "Maximum time reached."
+            break
+
     # ==================================================================================
     # results processing
     # ==================================================================================
-- 
2.43.0


From 862240f061272a769921b3c51146db17c7598ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 17/42] fix: convergence_min_trust_region_radius must not be
 ignored

---
 src/tranquilo/tranquilo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index ae21330..44f88cf 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -379,6 +379,11 @@ def _internal_tranquilo(
             if converged:
                 break
 
+        if not conv_options.disable and new_radius <= conv_options.min_radius:
+            converged = True
+            msg = "Trustregion radius smaller than tolerance."
+            break
+
         if history.get_n_fun() >= stop_options.max_eval:
             converged = False
             msg = "Maximum number of criterion evaluations reached."
-- 
2.43.0


From a162d64aaae9ccc2b29c6212663018087b6d7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 18/42] fix: powell fitter must minimize the Frobenius norm of
 the Hessian

---
 src/tranquilo/fit_models.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index 151ae5c..7459eda 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -393,6 +393,9 @@ def _fit_minimal_frobenius_norm_of_hessian(x, y):
         n_poly_features=n_poly_features,
     )
 
+    # translate coefficients of the scaled features to coefficients of raw features
+    coef[:, n_params + 1 :] *= _get_frobenius_scaling(n_params)
+
     return coef
 
 
@@ -439,6 +442,7 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     intercept = np.ones((n_samples, 1))
     features = np.concatenate((intercept, _quadratic_features(x)), axis=1)
     m_mat, n_mat = np.split(features, (n_params + 1,), axis=1)
+    n_mat = n_mat * _get_frobenius_scaling(n_params)
 
     m_mat_pad = np.zeros((n_samples, n_samples))
     m_mat_pad[:, : n_params + 1] = m_mat
@@ -461,6 +465,17 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
 
+def _get_frobenius_scaling(n_params):
+    """Get scaling factors for the second order features.
+
+    With features x_i ** 2 / 2 and x_i * x_j / sqrt(2), the euclidean norm of the
+    coefficients is equal to the Frobenius norm of the Hessian.
+
+    """
+    idx1, idx2 = np.triu_indices(n_params)
+    return np.where(idx1 == idx2, 1 / 2, 1 / np.sqrt(2))
+
+
 def _build_feature_matrix(x, model_type):
     raw = x if model_type == "linear" else _quadratic_features(x)
     intercept = np.ones((len(x), 1))
-- 
2.43.0


From 350536e4abe8de493ae005550fd449bd0a16ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 19/42] fix: order of square coefficients in poisedness
 constant with three or more parameters

---
 src/tranquilo/poisedness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 1359e0d..3cb3c7f 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -176,8 +176,9 @@ def _reshape_coef_to_square_terms(coef, n_params):
     mat = np.empty((n_params, n_params))
     idx = -1
 
-    for j in range(n_params):
-        for i in range(j + 1):
+    # same order as in _scaled_polynomial_features
+    for i in range(n_params):
+        for j in range(i, n_params):
             idx += 1
             mat[i, j] = coef[idx]
             mat[j, i] = coef[idx]
-- 
2.43.0


From 89bebe9c2c8007ab0291527b4020c9ef3b47b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 20/42] fix: max_radius_to_step_ratio must not lead to a radius
 below min_radius

---
 src/tranquilo/adjust_radius.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..5d00cd2 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -35,6 +35,8 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
         max_radius = np.min(
             [options.max_radius, step_length * options.max_radius_to_step_ratio]
         )
+        # the step length is zero if the candidate was rejected
+        max_radius = np.max([max_radius, options.min_radius])
     else:
         max_radius = options.max_radius
 
-- 
2.43.0


From 74807e2deef599103a533463a410ddbef86310be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 21/42] fix: moving quadratic models between cubes with
 different side lengths

---
 src/tranquilo/models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..3a5b269 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -162,7 +162,13 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+    if model.square_terms is None:
+        new_h = None
+    elif np.ndim(factor) == 0:
+        new_h = model.square_terms * factor**2
+    else:
+        # different factors for different parameters
+        new_h = model.square_terms * np.outer(factor, factor)
 
     out = model._replace(
         linear_terms=new_g,
-- 
2.43.0


From 85f3fc066893ab2a69c8c8860d0c2aa5d3972678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 22/42] fix: linear scalar models can be moved to a new region

---
 src/tranquilo/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 3a5b269..f510714 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -190,7 +190,10 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+
+    new_g = model.linear_terms
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
-- 
2.43.0


From c2f553645c3ce51261683ae7df54531b27a7cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 23/42] fix: adding a linear and a quadratic model keeps the
 square terms

---
 src/tranquilo/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index f510714..d512ff1 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -115,8 +115,9 @@ def add_models(model1, model2):
 
     new["linear_terms"] = model1.linear_terms + model2.linear_terms
 
-    if model1.square_terms is not None:
-        assert model2.square_terms is not None
+    if model1.square_terms is None:
+        new["square_terms"] = model2.square_terms
+    elif model2.square_terms is not None:
         new["square_terms"] = model1.square_terms + model2.square_terms
 
     out = replace(model1, **new)
-- 
2.43.0


From a466de169754749d0c4ebbcef5f7946477b16153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 24/42] fix: bntr uses the gradient at the start point to find
 active bounds

---
 src/tranquilo/subsolvers/bntr.py      | 5 +++--
 src/tranquilo/subsolvers/bntr_fast.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 9471ca9..9970dc8 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -270,14 +270,15 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
+
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index f441842..2df46b7 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -397,6 +397,8 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
+
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -404,12 +406,11 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
-- 
2.43.0


From dcf9dffe4622dbde87069617d560063c5b159d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 25/42] fix: tolerance for the agreement of reductions in bntr
 is relative to the criterion

---
 src/tranquilo/subsolvers/bntr.py      | 4 ++--
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 9970dc8..9c906e5 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -630,9 +630,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = options["alpha1"] * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 2df46b7..f28cf76 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -854,9 +854,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = alpha1 * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
-- 
2.43.0


From 6d79d75b48f83aaf2ab2f1081d44aa3b61be89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 26/42] fix: gradient descent steps of bntr start at the
 candidate for which they are compared

---
 src/tranquilo/subsolvers/bntr.py      | 12 ++++--------
 src/tranquilo/subsolvers/bntr_fast.py | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 9c906e5..31f53ab 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -563,19 +563,15 @@ def _perform_gradient_descent_step(
     step_size_accepted = 0
 
     for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
-
         step_size_candidate = trustregion_radius / gradient_norm
-        x_candidate = x_old - step_size_candidate * gradient_projected
+        x_trial = x_candidate - step_size_candidate * gradient_projected
 
-        x_candidate = _apply_bounds_to_x_candidate(
-            x_candidate, lower_bounds, upper_bounds
-        )
+        x_trial = _apply_bounds_to_x_candidate(x_trial, lower_bounds, upper_bounds)
         f_candidate = _evaluate_model_criterion(
-            x_candidate, model.linear_terms, model.square_terms
+            x_trial, model.linear_terms, model.square_terms
         )
 
-        x_diff = x_candidate - x_old
+        x_diff = x_trial - x_candidate
 
         if f_candidate < f_min:
             f_min = f_candidate
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index f28cf76..49a1583 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -770,19 +770,15 @@ def _perform_gradient_descent_step(
     step_size_accepted = 0
 
     for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
-
         step_size_candidate = trustregion_radius / gradient_norm
-        x_candidate = x_old - step_size_candidate * gradient_projected
+        x_trial = x_candidate - step_size_candidate * gradient_projected
 
-        x_candidate = _apply_bounds_to_x_candidate(
-            x_candidate, lower_bounds, upper_bounds
-        )
+        x_trial = _apply_bounds_to_x_candidate(x_trial, lower_bounds, upper_bounds)
         f_candidate = _evaluate_model_criterion(
-            x_candidate, model_gradient, model_hessian
+            x_trial, model_gradient, model_hessian
         )
 
-        x_diff = x_candidate - x_old
+        x_diff = x_trial - x_candidate
 
         if f_candidate < f_min:
             f_min = f_candidate
-- 
2.43.0


From 37f1bcb276e794e9f387e2acabbf2975e5dcb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 27/42] fix: trsbox_fast used an undefined variable if no bound
 is active

---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..90397dc 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.zeros(0, dtype=np.int64)
+    active_bound = np.zeros(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From 2fbdc50a93d5f78048f0a03201d0bba5fe6e5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 28/42] fix: relative gradient tolerance of bntr compares
 distances to bounds with the criterion

---
 src/tranquilo/subsolvers/bntr.py      | 13 ++++++++++++-
 src/tranquilo/subsolvers/bntr_fast.py | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 31f53ab..f58850e 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -717,12 +717,23 @@ def _check_for_convergence(
         x_candidate, gradient_candidate, lower_bounds, upper_bounds
     )
     gradient_norm = np.linalg.norm(direction_fischer_burmeister)
+    # the gradient is put in relation to the criterion before it is combined with the
+    # distances to the bounds, because the latter do not scale with the criterion.
+    gradient_norm_relative = np.inf
+    if f_candidate != 0:
+        direction_relative = _get_fischer_burmeister_direction_vector(
+            x_candidate,
+            gradient_candidate / abs(f_candidate),
+            lower_bounds,
+            upper_bounds,
+        )
+        gradient_norm_relative = np.linalg.norm(direction_relative)
     gradient_norm_initial = np.linalg.norm(model.linear_terms)
 
     if gradient_norm < gtol_abs:
         converged = True
         reason = "Norm of the gradient is less than absolute_gradient_tolerance."
-    elif f_candidate != 0 and abs(gradient_norm / f_candidate) < gtol_rel:
+    elif gradient_norm_relative < gtol_rel:
         converged = True
         reason = (
             "Norm of the gradient relative to the criterion value is less than "
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 49a1583..19d317e 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -935,12 +935,23 @@ def _check_for_convergence(
         x_candidate, gradient_candidate, lower_bounds, upper_bounds
     )
     gradient_norm = np.linalg.norm(direction_fischer_burmeister)
+    # the gradient is put in relation to the criterion before it is combined with the
+    # distances to the bounds, because the latter do not scale with the criterion.
+    gradient_norm_relative = np.inf
+    if f_candidate != 0:
+        direction_relative = _get_fischer_burmeister_direction_vector(
+            x_candidate,
+            gradient_candidate / abs(f_candidate),
+            lower_bounds,
+            upper_bounds,
+        )
+        gradient_norm_relative = np.linalg.norm(direction_relative)
     gradient_norm_initial = np.linalg.norm(model_gradient)
 
     if gradient_norm < gtol_abs:
         converged = True
         reason = 1
-    elif f_candidate != 0 and abs(gradient_norm / f_candidate) < gtol_rel:
+    elif gradient_norm_relative < gtol_rel:
         converged = True
         reason = 2
     elif (
-- 
2.43.0


From 2737ef881505227b7d345f02155b82c6b6558887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 29/42] fix: gqtpar leaves the unit sphere if the maximum
 number of iterations is reached

---
 src/tranquilo/subsolvers/gqtpar.py      | 4 ++++
 src/tranquilo/subsolvers/gqtpar_fast.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index d34adf1..cb68daa 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -131,6 +131,10 @@ def gqtpar(model, x_candidate, *, k_easy=0.1, k_hard=0.2, maxiter=200):
         if converged:
             break
 
+    # if maxiter is reached, the last candidate can be far outside of the unit sphere
+    if not converged:
+        x_candidate = x_candidate / max(1.0, np.linalg.norm(x_candidate))
+
     f_min = (
         model.linear_terms.T @ x_candidate
         + 0.5 * x_candidate.T @ model.square_terms @ x_candidate
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index e3140eb..652f72e 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -141,6 +141,10 @@ def gqtpar_fast(model, x_candidate, *, k_easy=0.1, k_hard=0.2, maxiter=200):
         if converged:
             break
 
+    # if maxiter is reached, the last candidate can be far outside of the unit sphere
+    if not converged:
+        x_candidate = x_candidate / max(1.0, np.linalg.norm(x_candidate))
+
     f_min = (
         model_gradient.T @ x_candidate
         + 0.5 * x_candidate.T @ model_hessian @ x_candidate
-- 
2.43.0


From 5839a4955be5acd7fe8700f88fb1b19868d36263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:37 +0000
Subject: [PATCH 30/42] fix: callables without a name can be used as components

---
 src/tranquilo/get_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index 8707ff7..be5d6ea 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -111,7 +111,8 @@ def _get_function_and_name(name_or_func, component_name, func_dict):
             raise ValueError(msg)
     elif callable(name_or_func):
         _func = name_or_func
-        _name = _func.__name__
+        # not all callables have a name, e.g. partialled functions do not
+        _name = getattr(_func, "__name__", type(_func).__name__)
     else:
         raise TypeError("name_or_func must be a string or a callable.")
 
-- 
2.43.0


From 9c912749e2e39eba27ce4bd15a2937be0e62ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:11 +0000
Subject: [PATCH 31/42] fix: warning about redundant arguments of components
 crashed

---
 src/tranquilo/get_component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index be5d6ea..bbbb754 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -71,6 +71,8 @@ def get_component(
     )
 
     _partialled = partial(_func, **_valid_options)
+    # partialled functions have no name, but it is needed in warnings
+    _partialled.__name__ = _name
 
     if redundant_argument_handling == "raise":
         out = _partialled
-- 
2.43.0


From 8884c9b17f5224a8df6ba26d661ecb0c91ea82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:03 +0000
Subject: [PATCH 32/42] fix: initial radius of a wrong type was converted to
 NaN or an array instead of rejected

---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index 6149c58..22bf895 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -29,7 +29,7 @@ def get_default_sample_filter(batch_size):
 
 def get_default_radius_options(x):
     # a trustregion with radius zero cannot be scaled to the unit sphere or cube
-    x_scale = np.max(np.abs(x))
+    x_scale = float(np.max(np.abs(x)))
     return RadiusOptions(initial_radius=0.1 * x_scale if x_scale > 0 else 0.1)
 
 
-- 
2.43.0


From 56ac77e00897757f53aedb7e216bec53925cfa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 33/42] fix: steihaug_toint left the trust region or divided by
 zero without positive curvature

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 3 +++
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index ad64c81..683d6ba 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -82,6 +82,9 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        # without positive curvature, the step leads to the boundary of the trustregion
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 1e87fcf..528dd96 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -87,6 +87,9 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        # without positive curvature, the step leads to the boundary of the trustregion
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
-- 
2.43.0


From 8bde9b0a8d2172a521d6288dc35188aab80e377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 34/42] fix: steihaug_toint overshot if the hessian is singular
 and the gradient is not in its range

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 5 +++--
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index 683d6ba..d9e3fbf 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -41,7 +41,6 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -56,7 +55,9 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    # Starting with any other direction than the residual, e.g. its projection onto the
+    # range of a singular hessian, would be inconsistent with the step size alpha below.
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 528dd96..bfa53ca 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -43,7 +43,6 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -61,7 +60,9 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    # Starting with any other direction than the residual, e.g. its projection onto the
+    # range of a singular hessian, would be inconsistent with the step size alpha below.
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
-- 
2.43.0


From 870b963178649f008a0efc40f90d9fbd55809f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:50 +0000
Subject: [PATCH 35/42] fix: powell fitter depended on the order of points and
 did not interpolate if the first points are degenerate

---
 src/tranquilo/fit_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index 7459eda..c9babec 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -426,7 +426,7 @@ def _get_current_fit_minimal_frobenius_norm_of_hessian(
 
         rhs = y[:, k] - n_mat @ coeffs_second_stage
 
-        alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)
+        alpha, *_ = np.linalg.lstsq(m_mat, rhs, rcond=None)
         coeffs_linear[k, :] = alpha[offset : (n_params + 1)]
 
         coeffs_square[k] = coeffs_second_stage
@@ -458,7 +458,7 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
     return (
-        m_mat[: n_params + 1, : n_params + 1],
+        m_mat,
         n_mat,
         z_mat[:, n_params + 1 : n_samples],
         n_z_mat[:, n_params + 1 : n_samples],
-- 
2.43.0


From f53827d99778d4d95dc902a339c367c335c178f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:42 +0000
Subject: [PATCH 36/42] fix: linear trsbox solver crashed or left the bounds if
 several bounds are active

---
 src/tranquilo/subsolvers/linear_subsolvers.py | 47 +++++++++----------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/tranquilo/subsolvers/linear_subsolvers.py b/src/tranquilo/subsolvers/linear_subsolvers.py
index fd33dda..f618378 100644
--- a/src/tranquilo/subsolvers/linear_subsolvers.py
+++ b/src/tranquilo/subsolvers/linear_subsolvers.py
@@ -57,9 +57,6 @@ def minimize_trsbox_linear(
     indices_inactive_directions = np.where(np.abs(direction) < zero_treshold)[0]
     direction[indices_inactive_directions] = 0
 
-    active_directions = np.setdiff1d(np.arange(n), indices_inactive_directions)
-    set_active_directions = iter(active_directions)
-
     for _ in range(n):
         if np.linalg.norm(direction) < zero_treshold:
             break
@@ -69,10 +66,11 @@ def minimize_trsbox_linear(
         )
 
         active_bound, index_active_bound = _find_next_active_bound(
+            x_candidate,
             x_candidate_unconstr,
             lower_bounds_internal,
             upper_bounds_internal,
-            set_active_directions,
+            direction,
         )
 
         if active_bound is None:
@@ -179,26 +177,31 @@ def improve_geomtery_trsbox_linear(
 
 
 def _find_next_active_bound(
+    x_candidate,
     x_candidate_unconstr,
     lower_bounds,
     upper_bounds,
-    set_active_directions,
+    direction,
 ):
     """Find the next active bound and return its index.
 
     A (lower or upper) bound is considered active if
-        x_candidate <= lower_bounds
-        x_candidate >= upper_bounds
+        x_candidate_unconstr <= lower_bounds
+        x_candidate_unconstr >= upper_bounds
+
+    If there are several active bounds, the next one is the one that is reached first
+    on the way from x_candidate to x_candidate_unconstr.
 
     Args:
+        x_candidate (np.ndarray): Current candidate vector of shape (n,).
         x_candidate_unconstr (np.ndarray): Unconstrained candidate vector of shape (n,),
             which ignores bound constraints.
         lower_bounds (np.ndarray): 1d array of shape (n,) with lower bounds
             for the parameter vector x.
         upper_bounds (np.ndarray): 1d array of shape (n,) with upper bounds
             for the parameter vector x.
-        set_active_directions (iterator): Iterator over the indices of active search
-            directions, i.e. directions that are not zero.
+        direction (np.ndarray): Direction vector of shape (n,). Is zero for parameters
+            that are not moved anymore.
 
     Returns:
         Tuple:
@@ -209,25 +212,19 @@ def _find_next_active_bound(
                 upper bound has been found. None, if no active bound has been detected.
 
     """
-    index_active = next(set_active_directions)
-
-    while True:
-        if x_candidate_unconstr[index_active] >= upper_bounds[index_active]:
-            active_bound = upper_bounds[index_active]
-            break
+    bounds = np.where(direction > 0, upper_bounds, lower_bounds)
+    is_active = (x_candidate_unconstr >= upper_bounds) | (
+        x_candidate_unconstr <= lower_bounds
+    )
+    indices = np.where(is_active & (direction != 0))[0]
 
-        elif x_candidate_unconstr[index_active] <= lower_bounds[index_active]:
-            active_bound = lower_bounds[index_active]
-            break
+    if len(indices) == 0:
+        return None, None
 
-        else:
-            try:
-                index_active = next(set_active_directions)
-            except StopIteration:
-                active_bound = None
-                break
+    step_sizes = (bounds[indices] - x_candidate[indices]) / direction[indices]
+    index_active = indices[np.argmin(step_sizes)]
 
-    return active_bound, index_active
+    return bounds[index_active], index_active
 
 
 def _take_constrained_step_up_to_boundary(
-- 
2.43.0


From 3b49fc668737562949669520b498ea3a7c541a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 37/42] fix: diagnostic plots crashed for problems with one
 parameter

---
 src/tranquilo/visualize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 7d02902..b934103 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -204,6 +204,10 @@ def _plot_sample_points(history, state, color_dict, fig, row, col):
         trustregion = state.trustregion
         radius = trustregion.radius
         center = trustregion.center
+        if len(center) == 1:
+            # plot one dimensional points on a horizontal line
+            center = np.append(center, 0.0)
+            sample_points[1] = 0.0
         fig.add_shape(
             type="circle",
             xref="x",
-- 
2.43.0


From ea155c4c5541035db30d38b946ee2bdd2feefff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:04 +0000
Subject: [PATCH 38/42] fix: clip infinities strictly beyond very large finite
 values

Adding one to a finite value above 1e16 does not change it, so infinities in a
column of equal, very large values were replaced by exactly that value.
---
 src/tranquilo/handle_infinity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index 0207082..a059fd2 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -38,6 +38,10 @@ def clip_relative(fvecs):
     _pos_penalty = _maxs + 2 * _diff + 1
     _neg_penalty = _mins - 2 * _diff - 1
 
+    # Adding one to a very large value does not change it.
+    _pos_penalty = np.maximum(_pos_penalty, np.nextafter(_maxs, np.inf))
+    _neg_penalty = np.minimum(_neg_penalty, np.nextafter(_mins, -np.inf))
+
     out = np.nan_to_num(
         fvecs, nan=_pos_penalty, posinf=_pos_penalty, neginf=_neg_penalty
     )
-- 
2.43.0


From b288387334cb272744e84e6aa15e1df0982fd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:38 +0000
Subject: [PATCH 39/42] fix: judge closeness to the border of a cube relative
 to its size

The tolerance was relative to the coordinates of the border: far from the origin a
line search was done for every candidate, and none for candidates near a border
close to zero.
---
 src/tranquilo/acceptance_decision.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 7e02fa2..a00dd59 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -528,8 +528,10 @@ def _is_on_sphere_border(trustregion, x, rtol):
 
 def _is_on_cube_border(trustregion, x, rtol):
     cube_bounds = trustregion.cube_bounds
-    is_on_lower_border = np.isclose(x, cube_bounds.lower, rtol=rtol).any()
-    is_on_upper_border = np.isclose(x, cube_bounds.upper, rtol=rtol).any()
+    # the tolerance is relative to the size of the cube, not to its position
+    atol = rtol * (cube_bounds.upper - cube_bounds.lower) / 2
+    is_on_lower_border = (np.abs(x - cube_bounds.lower) <= atol).any()
+    is_on_upper_border = (np.abs(x - cube_bounds.upper) <= atol).any()
     return is_on_lower_border or is_on_upper_border
 
 
-- 
2.43.0


From 5ec20e99270f1ad08274932ad78162b32bc929c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 40/42] fix: line search near the border of very small
 spherical trust regions

The absolute tolerance of np.isclose (1e-8) made every candidate in a
trust region with a radius below 1e-8 count as a point on the border.
---
 src/tranquilo/acceptance_decision.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index a00dd59..3b51287 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -523,7 +523,9 @@ def _is_on_border(trustregion, x, rtol):
 
 def _is_on_sphere_border(trustregion, x, rtol):
     x_center_dist = np.linalg.norm(x - trustregion.center, ord=2)
-    return np.isclose(x_center_dist, trustregion.radius, rtol=rtol)
+    # the tolerance is relative to the size of the trustregion
+    atol = 1e-8 * trustregion.radius
+    return np.isclose(x_center_dist, trustregion.radius, rtol=rtol, atol=atol)
 
 
 def _is_on_cube_border(trustregion, x, rtol):
-- 
2.43.0


From 47a01bf2feaf4b533776e63f2e8dae2fa04d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:28 +0000
Subject: [PATCH 41/42] fix: moved models have exactly the shift and scale of
 the new region

---
 src/tranquilo/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index d512ff1..3d342b6 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -148,6 +148,10 @@ def move_model(model, new_region):
     # apply new scaling
     new_scale = new_region.effective_radius
     out = _scale_model(out, factor=new_scale)
+
+    # shift and scale are known exactly, their computed values suffer from cancellation
+    # if the center moves to a much smaller number.
+    out = out._replace(shift=new_region.effective_center, scale=new_scale)
     return out
 
 
-- 
2.43.0


From 4392b5ba0ef5399033b2de69cc39e22efa1280db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 42/42] fix: likelihood evaluations with infinities of both
 signs count as failed

---
 src/tranquilo/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/history.py b/src/tranquilo/history.py
index 7f81fef..5a5b967 100644
--- a/src/tranquilo/history.py
+++ b/src/tranquilo/history.py
@@ -95,6 +95,8 @@ class History:
             fvecs = np.atleast_2d(evals)
 
         fvals = np.atleast_1d(self.aggregate(fvecs))
+        # contributions with infinities of both signs do not have a sum
+        fvals = np.where(np.isnan(fvals), np.inf, fvals)
 
         if n_new_points != len(fvecs):
             raise ValueError()
-- 
2.43.0

