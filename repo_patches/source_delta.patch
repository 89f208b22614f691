From cd7d2954a84540e874f07d7a43cfdbbb2a32f930 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/66] fix: start values for a model with a single predictor

np.squeeze turned the one-element vector of column means into a 0-d array,
so the product with coef[1:] had shape (1,) and could not be stored in
coef[0]: fitting with start_params or warm_start failed.
---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..21f9977 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -275,10 +275,10 @@ def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
     if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
+        coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
         coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
+        coef[0] += np.ravel(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
             coef[1:]
         )
 
-- 
2.43.0


From 71dd3796739615db00eccd943844d778e8dd61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 02/66] fix: bring the start values within the bounds on the
 standardized scale

The start values are on the scale of the standardized predictors but were
clipped at the bounds on the original scale, so that the solver could start
at, never leave, and return an infeasible point.
---
 src/glum/_glm.py   | 14 +++++++++-----
 src/glum/_utils.py |  7 +++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..277a316 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -62,6 +62,7 @@ from ._utils import (
     is_contiguous,
     safe_toarray,
     standardize,
+    standardize_bounds,
     standardize_warm_start,
     unstandardize,
 )
@@ -297,22 +298,25 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
         # If starting values are outside the specified bounds (if set),
-        # bring the starting value exactly at the bound.
+        # bring the starting value exactly at the bound. The starting values are
+        # on the scale of the standardized predictors, so the bounds must be, too.
         idx = int(self.fit_intercept)
         if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+            lower_bounds = standardize_bounds(self.lower_bounds, col_stds)
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
         if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+            upper_bounds = standardize_bounds(self.upper_bounds, col_stds)
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 21f9977..1976180 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -271,6 +271,13 @@ def standardize(
     return X, col_means, col_stds, lower_bounds, upper_bounds, A_ineq, P1, P2
 
 
+def standardize_bounds(bounds, col_stds: Optional[np.ndarray]):
+    """Bounds on the coefficients of the standardized data matrix."""
+    if col_stds is None:
+        return bounds
+    return np.asarray(bounds) / _one_over_var_inf_to_val(col_stds, 1.0)
+
+
 def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
-- 
2.43.0


From b6635996d80c81daa6dc91f72cf2edf85368ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/66] fix: put start values on the standardized scale without
 an intercept

---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 277a316..e3766a1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -263,6 +263,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 coef = np.concatenate((np.array([intercept]), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            else:
+                coef = standardize_bounds(coef, col_stds)
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -296,6 +298,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            else:
+                coef = standardize_bounds(coef, col_stds)
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound. The starting values are
-- 
2.43.0


From 00901c0f5f9d55f35bfb964e1f0f1994db8667b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 04/66] fix: do not report convergence when the gradient is not
 finite

---
 src/glum/_solvers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..f4286d8 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -305,6 +305,9 @@ def _irls_solver(inner_solver, coef, data) -> tuple[np.ndarray, int, int, list[l
 
     with ProgressBar(state.norm_min_subgrad, data.gradient_tol, data.verbose) as pb:
         while state.n_iter < data.max_iter and not state.converged:
+            if not np.all(np.isfinite(state.score)):
+                break
+
             pb._update(state.n_iter, state.iteration_runtime, state.norm_min_subgrad)
 
             state.old_active_set = state.active_set
@@ -344,7 +347,13 @@ def _irls_solver(inner_solver, coef, data) -> tuple[np.ndarray, int, int, list[l
 
             state._record_iteration()
 
-    if not state.converged:
+    if not state.converged and not np.all(np.isfinite(state.score)):
+        warnings.warn(
+            "IRLS failed to converge. The gradient is not finite; consider"
+            " different start_params.",
+            ConvergenceWarning,
+        )
+    elif not state.converged:
         warnings.warn(
             "IRLS failed to converge. Increase"
             " the maximum number of iterations max_iter"
@@ -611,7 +620,9 @@ def check_convergence(
         data.has_upper_bounds,
         data._upper_bounds,
     )
-    gradient_converged = norm_min_subgrad < state.data.gradient_tol
+    # NaNs do not propagate into norm_min_subgrad
+    gradient_finite = bool(np.all(np.isfinite(state.score)))
+    gradient_converged = gradient_finite and norm_min_subgrad < state.data.gradient_tol
 
     # Simple L2 step length convergence criteria
     step_size = linalg.norm(state.step)
-- 
2.43.0


From c71d1d360113221d1c1e07a7f12e5cf8a22a2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 05/66] fix: wald_test with a restriction matrix and no
 right-hand side

---
 src/glum/_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e3766a1..f69605d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1222,7 +1222,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            return self._wald_test_matrix(
+                R=R, r=None if r is None else np.asarray(r), **kwargs
+            )
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From 9e6ffc952cf1cf0d2b8eac129fd945afac2c1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 06/66] fix: compute information criteria for the arguments of
 the call

---
 src/glum/_glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index f69605d..6b11474 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3135,8 +3135,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         context_: Optional[Mapping[str, Any]] = capture_context(context)
 
-        if not hasattr(self, "_info_criteria"):
-            self._compute_information_criteria(X, y, sample_weight, context=context_)
+        self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
             self.alpha is None or (self.alpha is not None and self.alpha > 0)
-- 
2.43.0


From bbeff4f27834c95e460cc5718001c23ceebf98cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 07/66] fix: accept arbitrary cluster labels

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 6b11474..7265e2e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3343,7 +3343,8 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    labels, groups = np.unique(groups, return_inverse=True)
+    ngroups = len(labels)
     out = np.empty((ngroups, data.shape[1]))
     eye_n = sps.eye(ngroups, format="csc")[:, groups]
     for i in range(data.shape[1]):
-- 
2.43.0


From f887df0a2a2802d400c7a0b52b0351f9fe89d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 08/66] fix: forget model specs and categorical levels of a
 previous fit

---
 src/glum/_glm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7265e2e..6ece32d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1992,6 +1992,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         copy_X = self._should_copy_X()
         drop_first = getattr(self, "drop_first", False)
 
+        # Discard what was learnt from the data of a previous fit
+        for attr in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "_categorical_levels_",
+            "_feature_dtypes_",
+            "has_missing_category_",
+        ):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         if nw.dependencies.is_into_dataframe(X):
             if getattr(self, "formula", None) is not None:
                 lhs, rhs = parse_formula(
-- 
2.43.0


From 970a1a099e283d5ca6ea661bd83986fe4bf7f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 09/66] fix: accept P1=None

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 6ece32d..a5beac4 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1939,7 +1939,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.check_input:
             # check if P1 has only non-negative values, negative values might
             # indicate group lasso in the future.
-            if not isinstance(self.P1, str):  # if self.P1 != 'identity':
+            # if self.P1 != 'identity':
+            if self.P1 is not None and not isinstance(self.P1, str):
                 if not np.all(np.asarray(self.P1) >= 0):
                     raise ValueError("P1 must not have negative values.")
 
-- 
2.43.0


From 406a16d0b7092cbd9f864260d36ffde544d21496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 10/66] fix: accept P1=None and P2=None with categorical
 columns

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 1976180..832d146 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -131,14 +131,14 @@ def add_missing_categories(
 
 def expand_categorical_penalties(
     penalty, X: nw.DataFrame, drop_first: bool, has_missing_category: dict[str, bool]
-) -> Union[np.ndarray, str]:
+) -> Optional[Union[np.ndarray, str]]:
     """Determine penalty matrices ``P1`` or ``P2`` after expanding categorical columns.
 
     If ``P1`` or ``P2`` has the same shape as ``X`` before expanding categorical
     columns, we assume that the penalty at the location of categorical columns
     is the same for all levels.
     """
-    if isinstance(penalty, str):
+    if penalty is None or isinstance(penalty, str):
         return penalty
     if not sparse.issparse(penalty):
         penalty = np.asanyarray(penalty)
-- 
2.43.0


From 708761701613d7bff9fafba2d6fbae0749ef9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 11/66] fix: sample weights in predict and score for integer
 data and several alphas

---
 src/glum/_glm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a5beac4..91376ac 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -997,9 +997,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if sample_weight is None:
             return mu
 
-        sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
-        return mu * sample_weight
+        return (mu.T * sample_weight).T
 
     def coef_table(
         self,
@@ -1793,9 +1793,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
-        sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
-
         mu = self.predict(X, offset=offset, context=context)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
+
         y_mean: float = np.average(y, weights=sample_weight)
 
         dev = self.family_instance.deviance(y, mu, sample_weight=sample_weight)
-- 
2.43.0


From 24548299579a93aa5ad949cec859e495d69ff437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 12/66] fix: scalar offset when predicting for several alphas

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 91376ac..8ec70d6 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -929,7 +929,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
             if offset is not None:
-                xb += np.asanyarray(offset)[:, np.newaxis]
+                xb += np.asanyarray(offset)[..., np.newaxis]
 
         return xb
 
-- 
2.43.0


From f43979fd8c1c810f4a04386a5a7bfc7cd1b74d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 13/66] fix: scalar offset with single precision data

---
 src/glum/_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..7e7c306 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,7 +163,7 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
-- 
2.43.0


From 5d3e28f4a000a896df504ed86f3d0ad613ac68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 14/66] fix: accept double precision P1 with single precision
 data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 8ec70d6..cd7ee9b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3266,7 +3266,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
-- 
2.43.0


From 02e75e108e704724148dfd85f0193ae75e16093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 15/66] fix: information criteria of a model with several
 alphas

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index cd7ee9b..cb1218c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3150,7 +3150,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         self._compute_information_criteria(X, y, sample_weight, context=context_)
 
         if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
+            self.alpha is None or np.any(np.asarray(self.alpha) > 0)
         ) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
-- 
2.43.0


From 330b70ce85d2265ad118f01cf5d1009fce00247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 16/66] fix: evaluate the response of a formula in the given
 context

---
 src/glum/_glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index cb1218c..96db729 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1631,7 +1631,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 return self.covariance_matrix_
 
             if hasattr(self, "y_model_spec_"):
-                y = self.y_model_spec_.get_model_matrix(X).toarray().ravel()
+                context = capture_context(context)
+                y = (
+                    self.y_model_spec_.get_model_matrix(X, context=context)
+                    .toarray()
+                    .ravel()
+                )
                 # This has to go first because X is modified in the next line
 
             if nw.dependencies.is_into_dataframe(X):
-- 
2.43.0


From 3d80ec85798c25c72959b8dda56cff0b51971b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 17/66] fix: take the offset into account at the start of the
 regularization path

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 96db729..90615d9 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -494,6 +494,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From dc60349f10cccd235e5405ac01b501f8e6a83d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 18/66] fix: reject L1 penalties along a path with solvers that
 ignore them

---
 src/glum/_glm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 90615d9..2b5f080 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -690,6 +690,16 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
+        if (
+            self._solver != "irls-cd"
+            and np.any(P1_no_alpha > 0)
+            and np.any(np.asarray(alphas) > 0)
+        ):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal "
+                "with L1 penalties."
+            )
+
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-- 
2.43.0


From 5607ffb9d3b0ea2c8ea2aa2c8a6bb17dd1fb3233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 19/66] fix: reject contradictory bounds in cross-validation

---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..05328b7 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -634,6 +634,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-- 
2.43.0


From e3c1f4ccb1d3a28e6200a41b20d940df14d3d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 20/66] fix: report when trust-constr stops before its gradient
 tolerance is met

---
 src/glum/_solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index f4286d8..c742a8e 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -992,6 +992,13 @@ def _trust_constr_solver(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
         )
+    elif not res["optimality"] <= gtol:
+        # terminated by xtol, which says nothing about the gradient
+        warnings.warn(
+            "trust-constr stopped before the gradient tolerance was met: "
+            f"{res['message']}",
+            ConvergenceWarning,
+        )
 
     return res["x"], res["nit"], -1, None
 
-- 
2.43.0


From 4d0e472de61f4549b34dacbb7da795fbf92b9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 21/66] fix: total Tweedie deviance of negative responses for
 negative powers

---
 src/glum/_functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..808f89d 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -380,11 +380,11 @@ def tweedie_deviance(
     for i in prange(n, nogil=True):
 
         mu1mp = mu[i] ** (1 - p)
-        D += weights[i] * (mu1mp * mu[i]) / (2 - p)
+        yo1mp = y[i] / (1 - p)
+        D += weights[i] * ((mu1mp * mu[i]) / (2 - p) - yo1mp * mu1mp)
 
         if y[i] > 0:
-            yo1mp = y[i] / (1 - p)
-            D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+            D += weights[i] * (y[i] ** (1 - p)) * yo1mp / (2 - p)
 
     return 2 * D
 
-- 
2.43.0


From 637aff14fecde6b10a36a56e6a95be2d05e63d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 22/66] fix: reject log-likelihood of Tweedie distributions
 with negative power

---
 src/glum/_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..84eaa2e 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -747,7 +747,7 @@ class TweedieDistribution(ExponentialDispersionModel):
             return poisson_log_likelihood(y, sample_weight, mu, 1.0)
         elif p == 2:
             return gamma_log_likelihood(y, sample_weight, mu, float(dispersion))
-        elif p < 2:
+        elif 1 < p < 2:
             return tweedie_log_likelihood(
                 y, sample_weight, mu, float(p), float(dispersion)
             )
-- 
2.43.0


From c2084eb7205cdd494e20569d704f98b64df8eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 23/66] fix: accept double precision weights with single
 precision data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2b5f080..3afd3e5 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2181,7 +2181,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             y.shape[0],  # type: ignore
             X.dtype,
             force_all_finite=force_all_finite,
-        )
+        ).astype(X.dtype, copy=False)
 
         offset = check_offset(offset, y.shape[0], X.dtype)  # type: ignore
 
-- 
2.43.0


From ee6548c15ca0b52d1f9750cd390a14b7bc966939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 24/66] fix: standardize single precision columns consistently
 with tabmat

---
 src/glum/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 832d146..14f628d 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -311,9 +311,10 @@ def _one_over_var_inf_to_val(arr: np.ndarray, val: float) -> np.ndarray:
     """
     Return 1/arr unless the values are zeros.
 
-    If values are zeros, return val.
+    If values are zeros, return val. What counts as zero must agree with tabmat,
+    which applies the same multipliers to the columns of a ``StandardizedMatrix``.
     """
-    zeros = np.where(np.abs(arr) < 10 * np.sqrt(np.finfo(arr.dtype).eps))
+    zeros = np.where(np.abs(arr) < 1e-7)
     with np.errstate(divide="ignore"):
         one_over = 1 / arr
     one_over[zeros] = val
-- 
2.43.0


From b0d15153d8ac655c6fbb9e71801afc1cdda3e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 25/66] fix: accept double precision start_params with single
 precision data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 3afd3e5..fc4ee89 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2869,7 +2869,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             offset,
             self.col_means_,
             self.col_stds_,
-            dtype=[np.float64, np.float32],
+            dtype=X.dtype,
         )
 
         #######################################################################
-- 
2.43.0


From f779bd9b02dfad86a03babf11dc78f14086bc426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 26/66] fix: warm start with data of another precision

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index fc4ee89..f479655 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -261,6 +261,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
                 coef = np.concatenate((np.array([intercept]), coef))
+            coef = coef.astype(X.dtype)
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
             else:
-- 
2.43.0


From 4a5f8d7a5db5db8c5d3b7ccc7cc2cd0c56bd9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 27/66] fix: accept a penalty matrix when categorical columns
 do not change the number of columns

---
 src/glum/_utils.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 14f628d..ec682f1 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -144,17 +144,10 @@ def expand_categorical_penalties(
         penalty = np.asanyarray(penalty)
 
     if penalty.shape[0] == X.shape[1]:
-        if penalty.ndim == 2:
-            raise ValueError(
-                "When the penalty is two-dimensional, it must have the "
-                "same length as the number of columns in the design "
-                "matrix `X` after expanding categorical columns."
-            )
-
-        expanded_penalty = []  # type: ignore
+        lengths = []
         backend = nw.get_native_namespace(X).__name__
 
-        for element, (column, dt) in zip(penalty, X.schema.items()):
+        for column, dt in X.schema.items():
             if isinstance(dt, (nw.Enum, nw.Categorical)):
                 # For Polars Categorical (not Enum), avoid .cat.get_categories()
                 # due to string cache issues. Enum is safe to use.
@@ -163,12 +156,22 @@ def expand_categorical_penalties(
                 else:
                     num_categories = len(X[column].cat.get_categories())
 
-                length = num_categories + has_missing_category[column] - drop_first
-                expanded_penalty.extend(element for _ in range(length))
+                lengths.append(
+                    num_categories + has_missing_category[column] - drop_first
+                )
             else:
-                expanded_penalty.append(element)
+                lengths.append(1)
+
+        if penalty.ndim == 2:
+            if sum(lengths) == len(lengths):
+                return penalty
+            raise ValueError(
+                "When the penalty is two-dimensional, it must have the "
+                "same length as the number of columns in the design "
+                "matrix `X` after expanding categorical columns."
+            )
 
-        return np.array(expanded_penalty)
+        return np.repeat(penalty, lengths)
 
     else:
         return penalty
-- 
2.43.0


From 2ca62d868cf1f87f26418d81e86b5f35d746567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 28/66] fix: covariance matrix of single precision and integer
 data

---
 src/glum/_glm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index f479655..26d65b3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1658,7 +1658,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X,
                 y,
                 accept_sparse=["csr", "csc", "coo"],
-                dtype="numeric",
+                dtype=[np.float64, np.float32],
                 copy=self._should_copy_X(),
                 ensure_2d=True,
                 allow_nd=False,
@@ -1670,17 +1670,19 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             if sparse.issparse(X) and not isinstance(X, tm.SparseMatrix):
                 X = tm.SparseMatrix(X)
 
+            y = np.asarray(y, dtype=X.dtype)
             sample_weight = check_weights(
                 sample_weight,
                 y.shape[0],
                 X.dtype,
                 force_all_finite=self.force_all_finite,
-            )
+            ).astype(X.dtype, copy=False)
             offset = check_offset(offset, y.shape[0], X.dtype)
 
         sum_weights = np.sum(sample_weight)  # type: ignore
 
-        mu = self.predict(X, offset=offset) if mu is None else np.asanyarray(mu)
+        mu = self.predict(X, offset=offset) if mu is None else mu
+        mu = np.asarray(mu, dtype=X.dtype)
 
         if dispersion is None:
             # sample_weight here need to be non-normalized to count the number
@@ -1692,9 +1694,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 ddof=X.shape[1] + self.fit_intercept,
                 method="pearson",
             )
+        dispersion = X.dtype.type(dispersion)
 
         if (
-            np.linalg.cond(safe_toarray(X.sandwich(np.ones(X.shape[0]))))
+            np.linalg.cond(
+                safe_toarray(X.sandwich(np.ones(X.shape[0], dtype=X.dtype)))
+            )
             > 1 / sys.float_info.epsilon**2
         ):
             raise np.linalg.LinAlgError(
-- 
2.43.0


From 786826d648670e3ad4e95cfcc8fa187727e5e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 29/66] fix: validate the offset when predicting

---
 src/glum/_glm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 26d65b3..9b06558 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -929,19 +929,17 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
-            if offset is not None:
-                xb += offset
         elif np.isscalar(alpha_index):  # `None` doesn't qualify
             xb = X @ coef_path[alpha_index] + intercept_path[alpha_index]  # type: ignore
-            if offset is not None:
-                xb += offset
         else:
             _xb = []
             for idx in alpha_index:  # type: ignore
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
-            if offset is not None:
-                xb += np.asanyarray(offset)[..., np.newaxis]
+
+        offset = check_offset(offset, xb.shape[0], xb.dtype)
+        if offset is not None:
+            xb += offset if xb.ndim == 1 else offset[:, np.newaxis]
 
         return xb
 
-- 
2.43.0


From 11462b41d08255d520ae5945dccefc185bfa780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 30/66] fix: scores and information criteria of lists and
 polars series

---
 src/glum/_glm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 9b06558..84f452a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1815,6 +1815,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         """
         mu = self.predict(X, offset=offset, context=context)
         sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
+        y = np.asarray(y)
 
         y_mean: float = np.average(y, weights=sample_weight)
 
@@ -3012,7 +3013,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         ddof = np.sum(np.abs(self.coef_) > np.finfo(self.coef_.dtype).eps)  # type: ignore
         k_params = ddof + self.fit_intercept
-        nobs = X.shape[0]
+        mu = self.predict(X, context=context)
+        y = np.asarray(y)
+        nobs = mu.shape[0]
 
         if nobs != self._num_obs:
             raise ValueError(
@@ -3020,7 +3023,6 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 "the computation of information criteria."
             )
 
-        mu = self.predict(X, context=context)
         ll = self.family_instance.log_likelihood(y, mu, sample_weight=sample_weight)
 
         aic = -2 * ll + 2 * k_params
-- 
2.43.0


From 9ba29e1a9d58dd3d4754e39315a5e3deb0dc7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 31/66] fix: predictions of split matrices in another precision
 than the fit

---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 84f452a..a04554a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -927,6 +927,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 f"is expecting {self.n_features_in_} features as input."
             )
 
+        if isinstance(X, tm.SplitMatrix):
+            # the components of a split matrix require a vector of their precision
+            coef_path = np.asarray(coef_path, dtype=X.dtype)
+
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
         elif np.isscalar(alpha_index):  # `None` doesn't qualify
-- 
2.43.0


From 58ff65db7bc46925f6ad7b7382b03d2e28c8127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 32/66] fix: document the finite-sample correction of clustered
 covariances as computed

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a04554a..c0e2a3a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1565,7 +1565,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         covariance matrix. However, instead of using :math:`\\mathbf{G}^{T}(
         \\hat{\\theta}\\mathbf{G}(\\hat{\\theta})` directly, we first sum over
         all the groups first. The finite-sample correction is affected as well,
-        becoming :math:`\\frac{M}{M-1}\\frac{N}{N-p}` where :math:`M` is the number
+        becoming :math:`\\frac{M}{M-1}\\frac{N-1}{N-p}` where :math:`M` is the number
         of groups.
 
         References
-- 
2.43.0


From 1e054147d474463aa3aa58fa295386a1e45b775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 33/66] fix: log-likelihood of the binomial distribution with a
 scalar sample weight

---
 src/glum/_distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 84eaa2e..b60f24f 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -1327,6 +1327,7 @@ class BinomialDistribution(ExponentialDispersionModel):
         dispersion : float, optional (default=1)
             Ignored.
         """
+        y, mu, sample_weight = _as_float_arrays(y, mu, sample_weight)
         ll = special.xlogy(y, mu) + special.xlogy(1 - y, 1 - mu)
         return np.sum(ll) if sample_weight is None else np.dot(ll, sample_weight)
 
-- 
2.43.0


From e491686d01b99c4f9048d96b09e3f21420b8441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 34/66] fix: accept an array of alphas with the automatic
 solver and an L1 penalty

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index c0e2a3a..6eb1fac 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -403,8 +403,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -412,7 +412,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 54a27204266749b4376f9af0f7d44fcd95b02075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 35/66] fix: path of alphas given as a series

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 6eb1fac..87f65df 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2889,13 +2889,13 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 warnings.warn(
                     "alphas is deprecated. Use alpha instead.", DeprecationWarning
                 )
-                self._alphas = self.alphas
+                self._alphas = np.array(self.alphas)
             elif self.alpha is None:
                 self._alphas = self._get_alpha_path(
                     P1_no_alpha=P1_no_alpha, X=X, y=y, w=sample_weight, offset=offset
                 )
             else:
-                self._alphas = self.alpha
+                self._alphas = np.array(self.alpha)
                 if self.min_alpha is not None or self.min_alpha_ratio is not None:
                     warnings.warn(
                         "`alpha` is set. Ignoring `min_alpha` and `min_alpha_ratio`."
-- 
2.43.0


From c870526fab23189fa83e0479a78ba667e6f612da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 36/66] fix: descriptive error for alphas that are not numbers

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 87f65df..8ae3c58 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2677,8 +2677,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be an Iterable or None when `alpha_search` is True"
                 )
             if self.alpha is not None and (
-                (np.asarray(self.alpha) < 0).any()
-                or not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                or (np.asarray(self.alpha) < 0).any()
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
         if not self.alpha_search:
-- 
2.43.0


From e7e34687e99f2510c06d7ce62361e0866dc2beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 37/66] fix: monotonic IRLS solver stopping at points that are
 not optimal

---
 src/glum/_solvers.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index c742a8e..d06bd0d 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -1077,17 +1077,6 @@ def _monotonic_irls_solver(
         while state.n_iter < data.max_iter and not state.converged:
             pb._update(state.n_iter, state.iteration_runtime, state.norm_min_subgrad)
 
-            violations = A_ineq @ state.coef[idx:] - b_ineq
-            if np.any(violations > 0):
-                constraint_lam = min(
-                    constraint_lam * constraint_lam_factor, constraint_lam_max
-                )
-
-            penalty_changed = _update_constraint_penalty(state.coef, constraint_lam)
-
-            if penalty_changed:
-                state.hessian_initialized = False
-
             state.old_active_set = state.active_set
             state.active_set = identify_active_set(state, data)
 
@@ -1107,6 +1096,20 @@ def _monotonic_irls_solver(
             ) = line_search(state, data, d)
             state.n_updated = np.sum(np.abs(d) > 0)
 
+            violations = A_ineq @ state.coef[idx:] - b_ineq
+            if np.any(violations > 0):
+                constraint_lam = min(
+                    constraint_lam * constraint_lam_factor, constraint_lam_max
+                )
+
+            # The penalty depends on the constraints violated at the new coefficients,
+            # and so do the objective and the gradient.
+            if _update_constraint_penalty(state.coef, constraint_lam):
+                state.hessian_initialized = False
+                old_coef_P2 = coef_P2
+                coef_P2 = _make_coef_P2(idx, data.P2, state.coef)
+                state.obj_val += 0.5 * ((coef_P2 - old_coef_P2) @ state.coef)
+
             state.gradient_rows, state.score, state.hessian_rows = update_quadratic(
                 state, data, coef_P2
             )
-- 
2.43.0


From 4ccfc222e24423b0e95c0323f0e33e276d0ba6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 38/66] fix: order monotonic constraints of categoricals by
 category

---
 src/glum/_formula.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..23e6262 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -111,15 +111,15 @@ def _group_columns_by_factor(
     return dict(groups)
 
 
-def _sort_key(member: tuple[int, str | None]) -> tuple[float, str]:
-    """Sort key for (col_idx, factor_idx): numeric first, then lexicographic."""
-    _, idx = member
-    if idx is None:
-        return (0.0, "")
+def _sort_members(members: list[tuple[int, str | None]]) -> None:
+    """Sort ``(col_idx, factor_idx)`` members numerically if all indices are numbers.
+
+    Otherwise they stay in the order of the columns, i.e. that of the categories.
+    """
     try:
-        return (float(idx), "")
+        members.sort(key=lambda member: float(member[1] or 0.0))
     except ValueError:
-        return (float("inf"), idx)
+        pass
 
 
 def _build_monotonic_constraints(
@@ -160,7 +160,7 @@ def _build_monotonic_constraints(
 
         for group_key, members in groups.items():
             if len(members) > 1:
-                members.sort(key=_sort_key)
+                _sort_members(members)
             if len(members) == 1:
                 row = np.zeros(n_features)
                 row[members[0][0]] = -sign
-- 
2.43.0


From e49b006a97926fb83e89afb06d26caf8f9a2e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 39/66] fix: validate inequality constraints in
 cross-validation

---
 src/glum/_glm_cv.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 05328b7..2a051ec 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link, LogLink
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -640,11 +639,11 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
-        elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
         else:
-            A_ineq, b_ineq = None, None
+            A_ineq, b_ineq = self.A_ineq, self.b_ineq
+        A_ineq, b_ineq = check_inequality_constraints(
+            A_ineq, b_ineq, X.shape[1], X.dtype
+        )
 
         cv = skl.model_selection.check_cv(self.cv)
 
-- 
2.43.0


From d74600ba161ced3c258e4d66bf0eac65c42df3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 40/66] fix: cross-validate Tweedie distributions of power 1.5
 with any link

---
 src/glum/_glm_cv.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 2a051ec..3589e81 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -10,7 +10,7 @@ from ._distribution import ExponentialDispersionModel
 from ._formula import capture_context
 from ._glm import GeneralizedLinearRegressorBase, setup_p1, setup_p2
 from ._linalg import _safe_lin_pred, is_pos_semidef
-from ._link import Link, LogLink
+from ._link import Link
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
 from ._validation import check_bounds, check_inequality_constraints
@@ -587,11 +587,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         #########
         # Checks
         self._set_up_for_fit(y)
-        if (
-            hasattr(self._family_instance, "_power")
-            and self._family_instance._power == 1.5  # type: ignore
-        ):
-            assert isinstance(self._link_instance, LogLink)
 
         l1_ratio = np.atleast_1d(self.l1_ratio)
 
@@ -688,12 +683,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 )
                 return self._family_instance.deviance(y_test, mu, sample_weight=w_test)
 
-            if (
-                hasattr(self._family_instance, "_power")
-                and self._family_instance._power == 1.5
-            ):
-                assert isinstance(self._link_instance, LogLink)
-
             P1_no_alpha = setup_p1(P1, X, X.dtype, 1, l1)
             P2_no_alpha = setup_p2(P2, X, _stype, X.dtype, 1, l1)
 
-- 
2.43.0


From d2988fe9af78795df5fd3e1f6b3797d289c4517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 41/66] fix: reject NaN in bounds and inequality constraints

---
 src/glum/_validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 7e7c306..40713e7 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -98,7 +98,7 @@ def check_bounds(
     if bounds is None:
         return None
     if np.isscalar(bounds):
-        return np.full(n_features, bounds, dtype=dtype)
+        bounds = np.full(n_features, bounds, dtype=dtype)
 
     bounds = skl.utils.check_array(
         bounds,
@@ -114,6 +114,8 @@ def check_bounds(
         raise ValueError("Bounds must be 1D array or scalar.")
     if bounds.shape[0] != n_features:  # type: ignore
         raise ValueError("Bounds must be the same length as X.shape[1].")
+    if np.any(np.isnan(bounds)):  # type: ignore
+        raise ValueError("Bounds must not be NaN.")
 
     return bounds
 
@@ -150,6 +152,8 @@ def check_inequality_constraints(
             raise ValueError("A_ineq and b_ineq must have same number of rows.")
         if b_ineq.ndim > 1:  # type: ignore
             raise ValueError("b_ineq must be 1D array.")
+        if np.any(np.isnan(A_ineq)) or np.any(np.isnan(b_ineq)):  # type: ignore
+            raise ValueError("A_ineq and b_ineq must not contain NaN.")
     return A_ineq, b_ineq
 
 
-- 
2.43.0


From 0db2c42a30a0d87d99082cfc6ec3d773b9c1a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 42/66] fix: reject scalar weights and offsets that are not
 finite

---
 src/glum/_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 40713e7..565a7f4 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -167,6 +167,8 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
+        if not np.isfinite(offset):  # type: ignore
+            raise ValueError("Offsets must be finite.")
         return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
@@ -199,6 +201,8 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
+        if force_all_finite and not np.isfinite(sample_weight):  # type: ignore
+            raise ValueError("Sample weights must be finite.")
         return np.full(n_samples, sample_weight, dtype=dtype)
 
     sample_weight = skl.utils.check_array(
-- 
2.43.0


From 51c0f34d52475663e4675e8e9e2cb1426dc70c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 43/66] fix: reject penalty weights that are not finite and
 empty or nested alphas

---
 src/glum/_glm.py    | 10 +++++++++-
 src/glum/_glm_cv.py | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 8ae3c58..b791330 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2678,16 +2678,23 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                 )
             if self.alpha is not None and (
                 not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                or not np.all(np.isfinite(self.alpha))
                 or (np.asarray(self.alpha) < 0).any()
             ):
                 raise ValueError("`alpha` must contain only non-negative numbers")
+            if self.alpha is not None and (
+                np.ndim(self.alpha) != 1 or np.size(self.alpha) == 0
+            ):
+                raise ValueError("`alpha` must be one-dimensional and not empty")
         if not self.alpha_search:
             if not np.isscalar(self.alpha) and self.alpha is not None:
                 raise ValueError(
                     "`alpha` should be a scalar or None when `alpha_search` is False"
                 )
             if self.alpha is not None and (
-                not isinstance(self.alpha, (int, float)) or self.alpha < 0
+                not isinstance(self.alpha, (int, float))
+                or not np.isfinite(self.alpha)
+                or self.alpha < 0
             ):
                 raise ValueError(
                     "Penalty term must be a non-negative number;"
@@ -2698,6 +2705,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             not np.isscalar(self.l1_ratio)
             # check for numeric, i.e. not a string
             or not np.issubdtype(np.asarray(self.l1_ratio).dtype, np.number)
+            or np.isnan(self.l1_ratio)
             or self.l1_ratio < 0  # type: ignore
             or self.l1_ratio > 1  # type: ignore
         ):
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 3589e81..cba6896 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -489,11 +489,21 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
     def _validate_hyperparameters(self) -> None:
-        if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
-            raise ValueError
+        if self.alphas is not None:
+            alphas = np.asarray(self.alphas)
+            if (
+                not np.issubdtype(alphas.dtype, np.number)
+                or not np.all(np.isfinite(alphas))
+                or np.any(alphas < 0)
+            ):
+                raise ValueError("`alphas` must contain only non-negative numbers")
+            if alphas.ndim != 1 or alphas.size == 0:
+                raise ValueError("`alphas` must be one-dimensional and not empty")
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
+            or l1_ratio.size == 0
+            or np.any(np.isnan(l1_ratio))
             or np.any(l1_ratio < 0)
             or np.any(l1_ratio > 1)
         ):
-- 
2.43.0


From d9736f5a2bfee56b220b947bc3eec6582a62fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 44/66] fix: validate max_inner_iter and tolerances that are
 NaN

---
 src/glum/_glm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b791330..80513da 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1,3 +1,4 @@
+import numbers
 import re
 import sys
 import time
@@ -1862,17 +1863,26 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 "Maximum number of iteration must be a positive integer; "
                 f"got (max_iter={self.max_iter})."
             )
+        if (
+            not isinstance(self.max_inner_iter, numbers.Integral)
+            or self.max_inner_iter <= 0
+        ):
+            raise ValueError(
+                "Maximum number of inner iterations must be a positive integer; "
+                f"got (max_inner_iter={self.max_inner_iter})."
+            )
         if self.gradient_tol is not None:
             if (
                 not isinstance(self.gradient_tol, (float, int))
-                or self.gradient_tol <= 0
+                or not self.gradient_tol > 0
             ):
                 raise ValueError(
                     "Tolerance for the gradient stopping criteria must be positive; "
                     f"got (gradient_tol={self.gradient_tol})."
                 )
         if self.step_size_tol is not None and (
-            not isinstance(self.step_size_tol, (float, int)) or self.step_size_tol <= 0
+            not isinstance(self.step_size_tol, (float, int))
+            or not self.step_size_tol > 0
         ):
             raise ValueError(
                 "Tolerance for the step-size stopping criteria must be positive; "
-- 
2.43.0


From df2e549ce60b0c7be7a8cc89cc2a14b0c4ac2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 45/66] fix: validate n_alphas, min_alpha and min_alpha_ratio

---
 src/glum/_glm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 80513da..8b791e3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1888,6 +1888,21 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 "Tolerance for the step-size stopping criteria must be positive; "
                 f"got (step_size_tol={self.step_size_tol})."
             )
+        if not isinstance(self.n_alphas, numbers.Integral) or self.n_alphas <= 0:
+            raise ValueError(
+                "Number of alphas must be a positive integer; "
+                f"got (n_alphas={self.n_alphas})."
+            )
+        if self.min_alpha is not None and not 0 < self.min_alpha < np.inf:
+            raise ValueError(
+                "min_alpha must be a positive number; "
+                f"got (min_alpha={self.min_alpha})."
+            )
+        if self.min_alpha_ratio is not None and not 0 < self.min_alpha_ratio <= 1:
+            raise ValueError(
+                "min_alpha_ratio must be a positive number not above one; "
+                f"got (min_alpha_ratio={self.min_alpha_ratio})."
+            )
         if not isinstance(self.warm_start, bool):
             raise TypeError(
                 f"The argument warm_start must be bool; got {self.warm_start}."
-- 
2.43.0


From 30e47325449873ee18575865a02211cc6a5daecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 46/66] fix: reject a formula with data that is not a data
 frame

---
 src/glum/_glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 8b791e3..aeb8562 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2156,6 +2156,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     cat_missing_name=getattr(self, "cat_missing_name", "(MISSING)"),
                 )
 
+        elif getattr(self, "formula", None) is not None:
+            raise ValueError(
+                "A formula can only be used when X is a data frame; "
+                f"got {type(X).__name__}."
+            )
+
         if y is None:
             raise ValueError(
                 f"Unless using a two-sided formula, {self.__class__.__name__} "
-- 
2.43.0


From ce250087dde83156fde46e2d7bb03acc89da2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 47/66] fix: forget the regularization path of a previous fit

---
 src/glum/_glm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index aeb8562..d54302b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2050,6 +2050,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             "_categorical_levels_",
             "_feature_dtypes_",
             "has_missing_category_",
+            "_alphas",
+            "coef_path_",
+            "intercept_path_",
         ):
             if hasattr(self, attr):
                 delattr(self, attr)
-- 
2.43.0


From 8f85da8a9179b519d46275907d4ace05fc6ffbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 48/66] fix: report when lbfgs stops before the gradient
 tolerance is met

---
 src/glum/_solvers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d06bd0d..46a3392 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -920,7 +920,17 @@ def _lbfgs_solver(
             ConvergenceWarning,
         )
     elif info["warnflag"] == 2:
-        warnings.warn("lbfgs failed for the reason: {}".format(info["task"]))
+        warnings.warn(
+            "lbfgs failed for the reason: {}".format(info["task"]), ConvergenceWarning
+        )
+    elif not np.max(np.abs(info["grad"])) <= tol:
+        # terminated by factr: the objective function did not improve any more
+        warnings.warn(
+            "lbfgs stopped before the gradient tolerance was met: {}".format(
+                info["task"]
+            ),
+            ConvergenceWarning,
+        )
     n_iter_ = info["nit"]
 
     return coef, n_iter_, -1, None
-- 
2.43.0


From 4184969aca4d8b327304c71348c41cbe5b449404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 49/66] fix: coefficients that miss a bound by rounding no
 longer count as not converged

---
 src/glum/_solvers.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 46a3392..91ad1d1 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -330,6 +330,7 @@ def _irls_solver(inner_solver, coef, data) -> tuple[np.ndarray, int, int, list[l
                 state.obj_val,
                 coef_P2,
             ) = line_search(state, data, d)
+            state.coef = _snap_to_bounds(state, data)
             state.n_updated = np.sum(np.abs(d) > 0)
 
             # 3) Update the quadratic approximation
@@ -858,6 +859,27 @@ def line_search(state: IRLSState, data: IRLSData, d: np.ndarray):
     return state.coef + step, step, eta_wd, mu_wd, obj_val_wd, coef_wd_P2
 
 
+def _snap_to_bounds(state: IRLSState, data: IRLSData) -> np.ndarray:
+    """Put coefficients that miss a bound by the rounding of the last step onto it."""
+    coef = state.coef
+    if not (data.has_lower_bounds or data.has_upper_bounds):
+        return coef
+    coef = coef.copy()
+    w = coef[data.intercept_offset :]
+    # Adding the step rounds relative to the old coefficient, i.e. to coef - step.
+    rounding = (np.abs(coef) + np.abs(state.step)) * 2 * np.finfo(coef.dtype).eps
+    rounding = rounding[data.intercept_offset :]
+    if data.has_lower_bounds:
+        w[:] = np.where(
+            np.abs(w - data._lower_bounds) <= rounding, data._lower_bounds, w
+        )
+    if data.has_upper_bounds:
+        w[:] = np.where(
+            np.abs(w - data._upper_bounds) <= rounding, data._upper_bounds, w
+        )
+    return coef
+
+
 def _get_obj_and_derivative(
     coef,
     X,
-- 
2.43.0


From 1b6788bef6835c9c80689c39d8ddc48a89960c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 50/66] fix: pass cat_missing_name to the formula

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d54302b..b992732 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2087,6 +2087,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From f7c0e1f9d870d69a0f136161881b4b5b8c3a4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 51/66] fix: validate cat_missing_method with a formula, too

---
 src/glum/_glm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b992732..2ef7c2b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1920,6 +1920,12 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             raise TypeError(
                 f"The argument check_input must be bool; got {self.check_input}."
             )
+        cat_missing_method = getattr(self, "cat_missing_method", "fail")
+        if cat_missing_method not in ["fail", "zero", "convert"]:
+            raise ValueError(
+                "cat_missing_method must be one of 'fail' 'zero' or 'convert'; "
+                f"got {cat_missing_method}."
+            )
         if self.scale_predictors and not self.fit_intercept:
             raise ValueError(
                 "scale_predictors=True is not supported when fit_intercept=False."
-- 
2.43.0


From af0585ab88a7a01f444fb01b16ad383dce951ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 52/66] fix: reject the monotonic solver without constraints
 with a ValueError

---
 src/glum/_glm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 2ef7c2b..3824213 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1968,6 +1968,15 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             (self.A_ineq is None) and (self.b_ineq is not None)
         ):
             raise ValueError("Must provide both A_ineq and b_ineq.")
+        if (
+            self.solver == "irls-ls-monotonic"
+            and self.monotonic_constraints is None
+            and self.A_ineq is None
+        ):
+            raise ValueError(
+                "The 'irls-ls-monotonic' solver requires monotonic_constraints "
+                "or A_ineq and b_ineq."
+            )
         if self.monotonic_constraints is not None:
             if self.A_ineq is not None or self.b_ineq is not None:
                 raise ValueError(
-- 
2.43.0


From c5c8e4c3ce83a2b50cadcf326eec95c31801b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 53/66] fix: reject complex bounds instead of dropping their
 imaginary part

---
 src/glum/_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 565a7f4..15b48de 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -97,6 +97,8 @@ def check_bounds(
     """Check that the bounds have the right shape."""
     if bounds is None:
         return None
+    if np.iscomplexobj(bounds):
+        raise ValueError("Bounds must be real.")
     if np.isscalar(bounds):
         bounds = np.full(n_features, bounds, dtype=dtype)
 
-- 
2.43.0


From c819a4c5f52ff7970dea64f76e9f79ec07386f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 54/66] fix: cast start_params to the precision of the data in
 cross-validation folds

---
 src/glum/_glm_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index cba6896..2ce49d1 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -732,7 +732,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 offset_train,
                 self.col_means_,
                 self.col_stds_,
-                dtype=[np.float64, np.float32],
+                dtype=x_train.dtype,
             )
 
             if self.check_input:
-- 
2.43.0


From 140e355740a171181797014a9697184b86768052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 55/66] fix: do not add entries to the context mapping passed
 by the user

---
 src/glum/_formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 23e6262..2076be8 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -12,6 +12,9 @@ import numpy as np
 def capture_context(context) -> Mapping[str, Any] | None:
     if isinstance(context, int):
         context = context + 2
+    elif isinstance(context, Mapping):
+        # The model matrix is materialized with additions to the context.
+        context = dict(context)
     return formulaic.utils.context.capture_context(context)
 
 
-- 
2.43.0


From 0005bd9243ceeabb671b3aa9c552f75dec9fb3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 56/66] fix: predict with the levels of polars Categorical
 columns in the order of the fit

---
 src/glum/_glm.py   |  3 ++-
 src/glum/_utils.py | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 3824213..e017863 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -60,6 +60,7 @@ from ._utils import (
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
+    get_categorical_levels,
     is_contiguous,
     safe_toarray,
     standardize,
@@ -2143,7 +2144,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 X = cast(nw.DataFrame, nw.from_native(X))  # avoid inferring `Never`
 
                 self._categorical_levels_ = {
-                    col: X[col].cat.get_categories().to_list()
+                    col: get_categorical_levels(X[col])
                     for col, dtype in X.schema.items()
                     if isinstance(dtype, (nw.Categorical, nw.Enum))
                 }
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index ec682f1..89b83af 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -11,6 +11,18 @@ from scipy import sparse
 _logger = logging.getLogger(__name__)
 
 
+def get_categorical_levels(column: nw.Series) -> list:
+    """Return the levels of a categorical column in the order tabmat encodes them."""
+    if (
+        isinstance(column.dtype, nw.Categorical)
+        and nw.get_native_namespace(column).__name__ == "polars"
+    ):
+        # Polars Categorical (not Enum) has no categories of its own, and
+        # .cat.get_categories() is in order of appearance. Tabmat sorts the values.
+        return column.drop_nulls().unique().cast(nw.String).sort().to_list()
+    return column.cat.get_categories().to_list()
+
+
 def align_df_categories(
     df: nw.DataFrame,
     categorical_levels: dict[str, list[str]],
@@ -145,19 +157,13 @@ def expand_categorical_penalties(
 
     if penalty.shape[0] == X.shape[1]:
         lengths = []
-        backend = nw.get_native_namespace(X).__name__
 
         for column, dt in X.schema.items():
             if isinstance(dt, (nw.Enum, nw.Categorical)):
-                # For Polars Categorical (not Enum), avoid .cat.get_categories()
-                # due to string cache issues. Enum is safe to use.
-                if backend == "polars" and isinstance(dt, nw.Categorical):
-                    num_categories = len(X[column].unique().drop_nulls())
-                else:
-                    num_categories = len(X[column].cat.get_categories())
-
                 lengths.append(
-                    num_categories + has_missing_category[column] - drop_first
+                    len(get_categorical_levels(X[column]))
+                    + has_missing_category[column]
+                    - drop_first
                 )
             else:
                 lengths.append(1)
-- 
2.43.0


From 2f5a4c702da6aa0e94a2acc92cc34af30887bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 57/66] fix: predict when a level has the name for missing
 values and none were missing

---
 src/glum/_glm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e017863..a14fef1 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -352,7 +352,11 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             if cat_missing_method_after_alignment == "convert":
                 df = add_missing_categories(
                     df=df,
-                    categorical_levels=self.categorical_levels_,
+                    categorical_levels={
+                        column: levels
+                        for column, levels in self.categorical_levels_.items()
+                        if self.has_missing_category_[column]
+                    },
                     feature_names=self.feature_names_,
                     cat_missing_name=self.cat_missing_name,
                     categorical_format=self.categorical_format,
-- 
2.43.0


From fc52273a9d3e90b309fb94ff5a5ad9fa7fe84d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:17 +0000
Subject: [PATCH 58/66] fix: rank-deficient P2 was rejected depending on the
 scale of the predictors

---
 src/glum/_linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..882a6e0 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -22,8 +22,9 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
         return not any_negative
 
     # 2d case
-    # About -6e-7 for 32-bit, -1e-15 for 64-bit
-    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
+    # About -6e-7 for 32-bit, -1e-15 for 64-bit, relative to the size of the entries
+    epsneg = -10 * np.finfo(np.result_type(np.float32, p.dtype)).epsneg
+    epsneg *= max(1.0, abs(p).sum(axis=0).max())
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-- 
2.43.0


From 605f59c021c8466bf45a2c9805236f1dc84222ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:51 +0000
Subject: [PATCH 59/66] fix: sparse P2 with 2000 or more columns failed

---
 src/glum/_linalg.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 882a6e0..f8704dc 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse.linalg import splu
 
 from ._utils import safe_toarray
 
@@ -28,21 +29,23 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-        # not huge, convert to dense. Otherwise, calculate 10% of its eigenvalues.
+        # not huge, convert to dense. Otherwise, check the pivots of a factorization
+        # that eliminates symmetrically.
         p = typing.cast(sparse.spmatrix, p)
         if p.shape[0] < 2000:
             eigenvalues = linalg.eigvalsh(p.toarray())
         else:
-            n_evals_to_compuate = p.shape[0] // 10 + 1
-            sigma = -1000 * epsneg  # start searching near this value
-            which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
-                p,
-                k=n_evals_to_compuate,
-                sigma=sigma,
-                which=which,
-                return_eigenvectors=False,
-            )
+            try:
+                lu = splu(
+                    sparse.csc_matrix(p - epsneg * sparse.eye(p.shape[0])),
+                    permc_spec="MMD_AT_PLUS_A",
+                    diag_pivot_thresh=0,
+                    options={"SymmetricMode": True},
+                )
+            except RuntimeError:  # a pivot is zero
+                return False
+            eliminates_symmetrically = np.all(lu.perm_r == lu.perm_c)
+            return eliminates_symmetrically and np.all(lu.U.diagonal() > 0)
     else:  # dense
         eigenvalues = linalg.eigvalsh(p)
 
-- 
2.43.0


From 4eedf672458137ad4c9b6ddec11099526325601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:08 +0000
Subject: [PATCH 60/66] fix: constant columns of sparse matrices were scaled by
 rounding errors

---
 src/glum/_utils.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 89b83af..027596e 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -255,6 +255,7 @@ def standardize(
     P2
     """
     X, col_means, col_stds = X.standardize(sample_weight, center_predictors, True)
+    X, col_stds = _refine_col_stds(X, sample_weight, col_means, col_stds)
 
     if col_stds is not None:
         inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
@@ -280,6 +281,33 @@ def standardize(
     return X, col_means, col_stds, lower_bounds, upper_bounds, A_ineq, P1, P2
 
 
+def _refine_col_stds(
+    X: tm.StandardizedMatrix,
+    sample_weight: np.ndarray,
+    col_means: np.ndarray,
+    col_stds: np.ndarray,
+) -> tuple[tm.StandardizedMatrix, np.ndarray]:
+    """
+    Recompute standard deviations that are small relative to the mean.
+
+    For sparse columns, tabmat computes the variance as a difference of moments. If
+    the column is (nearly) constant, only rounding error is left of it.
+    """
+    means = X.mat.transpose_matvec(sample_weight)
+    eps = np.finfo(col_stds.dtype).eps
+    idx = np.where(col_stds < 10 * np.sqrt(eps) * np.abs(means))[0]
+    if len(idx) == 0:
+        return X, col_stds
+
+    for j in idx:
+        unit = np.zeros(X.shape[1], dtype=col_stds.dtype)
+        unit[j] = 1
+        centered = X.mat.matvec(unit) - means[j]
+        col_stds[j] = np.sqrt(sample_weight @ centered**2)
+    mult = _one_over_var_inf_to_val(col_stds, 1.0)
+    return tm.StandardizedMatrix(X.mat, -col_means * mult, mult), col_stds
+
+
 def standardize_bounds(bounds, col_stds: Optional[np.ndarray]):
     """Bounds on the coefficients of the standardized data matrix."""
     if col_stds is None:
-- 
2.43.0


From 01c3d1fc024865fc0746e680495377cc83135f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 61/66] fix: P2 given as a sparse array failed with a single
 column

---
 src/glum/_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index f8704dc..aa59f9f 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -19,7 +19,7 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
     """
     # 1d case
     if p.ndim == 1 or p.shape[0] == 1:
-        any_negative = (p < 0).max() if sparse.isspmatrix(p) else (p < 0).any()
+        any_negative = (p < 0).max() if sparse.issparse(p) else (p < 0).any()
         return not any_negative
 
     # 2d case
-- 
2.43.0


From a41934caddb16346c0d8d3e0d0dd7934c399ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 62/66] fix: contradictory monotonic constraints for one factor
 were silently resolved

---
 src/glum/_formula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 2076be8..dbfbde2 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -216,6 +216,9 @@ def _resolve_monotonic_constraints_from_model_spec(
                     raise ValueError(
                         f"Monotonic constraints are not supported for {factor_name!r}."
                     )
-            result[factor_name] = direction
+            if result.setdefault(factor_name, direction) != direction:
+                raise ValueError(
+                    f"Monotonic constraints in both directions for {factor_name!r}."
+                )
 
     return result
-- 
2.43.0


From 719e08c45f488f8bed30d9ad486a9df3954db8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 63/66] fix: constant columns in single precision were scaled
 by rounding errors

---
 src/glum/_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 027596e..182425c 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -303,6 +303,7 @@ def _refine_col_stds(
         unit = np.zeros(X.shape[1], dtype=col_stds.dtype)
         unit[j] = 1
         centered = X.mat.matvec(unit) - means[j]
+        centered -= sample_weight @ centered  # what rounding has left of the mean
         col_stds[j] = np.sqrt(sample_weight @ centered**2)
     mult = _one_over_var_inf_to_val(col_stds, 1.0)
     return tm.StandardizedMatrix(X.mat, -col_means * mult, mult), col_stds
-- 
2.43.0


From 3b6aea27ec66ab3c437b40ff5f9789a83fd3c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:41 +0000
Subject: [PATCH 64/66] fix: an integer context names a scope of the caller in
 every method

---
 src/glum/_glm.py    | 16 +++++++++++-----
 src/glum/_glm_cv.py |  6 ++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a14fef1..ab56be0 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -902,7 +902,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             alpha_index=alpha_index,
             coef_path=self.coef_path_ if use_path else self.coef_,
             intercept_path=self.intercept_path_ if use_path else self.intercept_,
-            context=context,
+            context=capture_context(context),
         )
 
     def _compute_linear_predictor(
@@ -1823,7 +1823,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
-        mu = self.predict(X, offset=offset, context=context)
+        mu = self.predict(X, offset=offset, context=capture_context(context))
         sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
         y = np.asarray(y)
 
@@ -3139,7 +3139,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("aic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "aic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def aicc(
         self,
@@ -3178,7 +3180,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
+        aicc = self._get_info_criteria(
+            "aicc", X, y, sample_weight, context=capture_context(context)
+        )
 
         if not aicc:
             msg = "Model degrees of freedom should be more than training data points."
@@ -3222,7 +3226,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("bic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "bic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def _get_info_criteria(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 2ce49d1..f457027 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -477,7 +477,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         alpha_index = self._resolve_alpha_index(alpha_index, alpha)
 
         if alpha_index is None:
-            return super().linear_predictor(X, offset, context=context)
+            return super().linear_predictor(
+                X, offset, context=capture_context(context)
+            )
 
         return self._compute_linear_predictor(
             X,
@@ -485,7 +487,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             alpha_index=alpha_index,
             coef_path=self._refit_coef_path,
             intercept_path=self._refit_intercept_path,
-            context=context,
+            context=capture_context(context),
         )
 
     def _validate_hyperparameters(self) -> None:
-- 
2.43.0


From 9917bf4cc3884ffd9bdc454f341a2d104b22ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:07 +0000
Subject: [PATCH 65/66] fix: split entries of sparse input distorted the
 standard deviations

---
 src/glum/_glm.py        |  2 ++
 src/glum/_validation.py | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index ab56be0..616fb26 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -75,6 +75,7 @@ from ._validation import (
     check_offset,
     check_weights,
     check_X_y_tabmat_compliant,
+    sum_duplicate_entries,
 )
 
 if packaging.version.parse(skl.__version__).release < (1, 6):
@@ -2231,6 +2232,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 copy=copy_X,
                 **{keyword_finiteness: force_all_finite},
             )
+            X = sum_duplicate_entries(X)
 
         # Without converting y to float, deviance might raise
         # ValueError: Integers to negative integer powers are not allowed.
diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 15b48de..0e5d2a4 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -17,6 +17,23 @@ else:
     keyword_finiteness = "ensure_all_finite"
 
 
+def sum_duplicate_entries(mat):
+    """
+    Sum entries of a compressed sparse matrix that share a position.
+
+    The squares of such entries, which ``tabmat`` uses for the standard deviations,
+    don't add up to the square of their sum. The input isn't modified.
+    """
+    if (
+        sparse.issparse(mat)
+        and mat.format in ("csc", "csr")
+        and not mat.has_canonical_format
+    ):
+        mat = mat.copy()
+        mat.sum_duplicates()
+    return mat
+
+
 def check_array_tabmat_compliant(mat: ArrayLike, drop_first: bool = False, **kwargs):
     to_copy = kwargs.get("copy", False)
 
@@ -49,6 +66,8 @@ def check_array_tabmat_compliant(mat: ArrayLike, drop_first: bool = False, **kwa
     else:
         res = skl.utils.check_array(mat, **kwargs)
 
+    res = sum_duplicate_entries(res)
+
     if res is not mat and original_type in (tm.DenseMatrix, tm.SparseMatrix):
         res = original_type(
             res,
-- 
2.43.0


From b985ab07717ce82eda9e215629fe9b9c61594d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:07 +0000
Subject: [PATCH 66/66] fix: scores and information criteria failed for
 responses of object dtype

---
 src/glum/_glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 616fb26..78aea1d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1827,6 +1827,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         mu = self.predict(X, offset=offset, context=capture_context(context))
         sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
         y = np.asarray(y)
+        if y.dtype.kind == "O":
+            y = y.astype(np.float64)
 
         y_mean: float = np.average(y, weights=sample_weight)
 
@@ -3084,6 +3086,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         k_params = ddof + self.fit_intercept
         mu = self.predict(X, context=context)
         y = np.asarray(y)
+        if y.dtype.kind == "O":
+            y = y.astype(np.float64)
         nobs = mu.shape[0]
 
         if nobs != self._num_obs:
-- 
2.43.0

