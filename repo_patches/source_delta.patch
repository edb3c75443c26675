From a56750ba14f84ce9119467d2f73923993ad5ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 01/42] fix: reject numeric eps outside [0, 1] in BSketch
 parameter check

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..815d1ae 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -30,7 +30,7 @@ def _check_parameters(sketch, eps, K, special_codes):
                           'install optbinning using pip install '
                           'optbinning[distributed]')
 
-    if not isinstance(eps, numbers.Number) and not 0 <= eps <= 1:
+    if not isinstance(eps, numbers.Number) or not 0 <= eps <= 1:
         raise ValueError("eps must be a value in [0, 1]; got {}."
                          .format(eps))
 
-- 
2.43.0


From 87a1a6bf3b66e891f54bbceb74a223a22b0da04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 02/42] fix: check max_n_prebins of piecewise binning before
 processing data

---
 optbinning/binning/piecewise/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..cc7c734 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -72,6 +72,10 @@ def _check_parameters(name, estimator, objective, degree, continuous,
         raise ValueError('Invalid value for prebinning_method. Allowed string '
                          'values are "cart", "quantile" and "uniform".')
 
+    if not isinstance(max_n_prebins, numbers.Integral) or max_n_prebins <= 1:
+        raise ValueError("max_prebins must be an integer greater than 1; "
+                         "got {}.".format(max_n_prebins))
+
     if not 0. < min_prebin_size <= 0.5:
         raise ValueError("min_prebin_size must be in (0, 0.5]; got {}."
                          .format(min_prebin_size))
-- 
2.43.0


From ef34e9e53106871b054d34becacf41d96cf9cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 03/42] fix: binning tables with no pure bin can be built

---
 optbinning/binning/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..07ff79a 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -14,8 +14,10 @@ from sklearn.utils import check_consistent_length
 
 
 def _check_x_y(x, y):
-    x = check_array(x, ensure_2d=False, force_all_finite=True)
-    y = check_array(y, ensure_2d=False, force_all_finite=True)
+    x = check_array(x, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
+    y = check_array(y, ensure_2d=False, force_all_finite=True,
+                    ensure_min_samples=0)
 
     check_consistent_length(x, y)
 
-- 
2.43.0


From 8d8ddc24eba3158b3153c07ba583034c54ce99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 04/42] fix: transform with special codes given as an array

---
 optbinning/binning/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..32a63aa 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -196,7 +196,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From 5b1fc2f3f1fc62e9d53553129b1868042abaac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 05/42] fix: integer cat_unknown does not truncate the
 transformed values

---
 optbinning/binning/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 32a63aa..8e570fd 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -183,7 +183,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             x_clean_transform = np.full(x_clean.shape, cat_unknown,
                                         dtype=object)
         else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+            x_clean_transform = np.zeros(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -302,7 +302,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -438,7 +438,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = sums.sum() / n_records.sum()
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From 6e3c62c2074a25d03589abfc5eb2cacc70437809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 06/42] fix: default value of unknown categories is the mean
 event rate

---
 optbinning/binning/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 8e570fd..7b617ea 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -289,7 +289,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / (t_n_event + t_n_nonevent)
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
-- 
2.43.0


From e0c5d8dbd1ea6744020129a92356ec0b1b8c9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 07/42] fix: apply both fix_lb and fix_ub when both are given

---
 optbinning/binning/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..dde91d3 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -249,12 +249,12 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
-            if fix_lb is not None:
+            if fix_lb is not None and fix_ub is not None:
+                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+            elif fix_lb is not None:
                 mask = x_clean >= fix_lb
-            elif fix_ub is not None:
-                mask = x_clean <= fix_ub
             else:
-                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+                mask = x_clean <= fix_ub
 
             x_clean = x_clean[mask]
             y_clean = y_clean[mask]
-- 
2.43.0


From 2225a1f8cb2d1e8a0f7e6a08745921dba0996439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 08/42] fix: class_weight does not modify the caller's
 sample_weight

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index dde91d3..15c47d3 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From 7002280eff1abeee7365b882f873b9038b928a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 09/42] fix: records of the last user_splits group are kept
 when it is impure

---
 optbinning/binning/binning.py            | 7 ++++++-
 optbinning/binning/continuous_binning.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..ce5e989 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1103,7 +1103,12 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    mask_splits = mask_remove.copy()
+
+                    # The last group has no upper neighbour: merge it with the
+                    # previous one to keep its records.
+                    if n_bins > 1 and mask_splits[-1]:
+                        mask_splits[-2:] = [True, False]
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..4c83729 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -934,7 +934,12 @@ class ContinuousOptimalBinning(OptimalBinning):
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                mask_splits = mask_remove.copy()
+
+                # The last group has no upper neighbour: merge it with the
+                # previous one to keep its records.
+                if n_bins > 1 and mask_splits[-1]:
+                    mask_splits[-2:] = [True, False]
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 8d5b4cb29fb462a602ead5c1aa809a36ba8bf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 10/42] fix: continuous binning when all pre-binning splits are
 removed

---
 optbinning/binning/continuous_binning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 4c83729..f5f61da 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -897,7 +897,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From 61c3381bf3a94fa3ee807af267898c8226ab0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 11/42] fix: continuous binning with special codes dict and no
 special records

---
 optbinning/binning/binning_statistics.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..61dacb1 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -171,14 +171,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         sum_special = []
         n_zeros_special = []
 
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
-- 
2.43.0


From 7a876f805299d7eb290d8078fe33d903641387d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 12/42] fix: remove debug print

---
 optbinning/binning/continuous_binning.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index f5f61da..7892f51 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -868,7 +868,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
-- 
2.43.0


From 5f3258ec9f4d1507057bb20015b9dfb83e49a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 13/42] fix: bins of categorical user_splits when all groups
 are merged into one

---
 optbinning/binning/binning_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 61dacb1..24ac223 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -81,7 +81,7 @@ def bin_categorical(splits_categorical, categories, cat_others, user_splits):
     splits = np.ceil(splits_categorical).astype(int)
     n_categories = len(categories)
 
-    if user_splits is not None:
+    if user_splits is not None and len(splits):
         indices = np.digitize(np.arange(n_categories), splits, right=True)
         n_bins = len(splits)
     else:
-- 
2.43.0


From afe2b72f95c751763127431a6eda7787573a289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 14/42] fix: single remaining user_splits group is a bin of the
 solution

---
 optbinning/binning/binning.py            | 2 +-
 optbinning/binning/continuous_binning.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index ce5e989..96cbfdd 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -904,7 +904,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 7892f51..6eef9b5 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -747,7 +747,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(splits)).astype(bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
-- 
2.43.0


From 0e011a84146d4816921a7fd2f66a74f61f4ac991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 15/42] fix: fit keeps user_splits and user_splits_fixed and
 starts from a clean state

---
 optbinning/binning/binning.py            | 26 ++++++++++++++++--------
 optbinning/binning/continuous_binning.py | 21 +++++++++++++------
 optbinning/binning/multiclass_binning.py | 23 ++++++++++++++-------
 3 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 96cbfdd..ee584a5 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -515,6 +515,8 @@ class OptimalBinning(BaseOptimalBinning):
         self._binning_table = None
         self._n_prebins = None
         self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._n_samples = None
         self._optimizer = None
         self._solution = None
@@ -769,6 +771,12 @@ class OptimalBinning(BaseOptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        # Reset pre-binning information of a previous fit.
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -798,7 +806,9 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1005,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1013,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1022,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1114,8 +1124,8 @@ class OptimalBinning(BaseOptimalBinning):
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
                 if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                    user_splits_fixed = np.asarray(self._user_splits_fixed)
+                    user_splits = np.asarray(self._user_splits)
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1126,8 +1136,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 6eef9b5..446ec7b 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -399,6 +399,8 @@ class ContinuousOptimalBinning(OptimalBinning):
         self._binning_table = None
         self._n_prebins = None
         self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._n_samples = None
         self._optimizer = None
         self._splits_optimal = None
@@ -617,6 +619,11 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        # Reset pre-binning information of a previous fit.
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -647,7 +654,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = np.asarray(
+                        self.user_splits, dtype=object)[sorted_idx]
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -815,7 +824,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -946,8 +955,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -958,8 +967,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..7fda493 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -359,6 +359,8 @@ class MulticlassOptimalBinning(OptimalBinning):
         self._n_classes = None
         self._n_prebins = None
         self._n_refinements = 0
+        self._user_splits = None
+        self._user_splits_fixed = None
         self._n_samples = None
         self._optimizer = None
         self._splits_optimal = None
@@ -552,6 +554,11 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        # Reset pre-binning information of a previous fit.
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -569,7 +576,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = np.asarray(
+                    self.user_splits, dtype=object)[sorted_idx]
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +756,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +766,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -813,8 +822,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = np.asarray(self._user_splits_fixed)
+                user_splits = np.asarray(self._user_splits)
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -824,8 +833,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
-- 
2.43.0


From aac169a9226360320489f4304379bef454805e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 16/42] fix: scenarios apply fixed user_splits to their own
 sorted and refined splits

---
 optbinning/binning/uncertainty/binning_scenarios.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..3216092 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -523,6 +523,9 @@ class SBOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+
         if self.user_splits is not None:
             user_splits = check_array(
                 self.user_splits, ensure_2d=False, dtype=None,
@@ -534,8 +537,10 @@ class SBOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
+
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -760,7 +765,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From ab4e782bede2c73aba2256e98ff2568ce3c05576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 17/42] fix: accept user_splits_fixed as a boolean numpy array

---
 optbinning/binning/binning.py                       | 3 ++-
 optbinning/binning/continuous_binning.py            | 3 ++-
 optbinning/binning/multiclass_binning.py            | 3 ++-
 optbinning/binning/piecewise/base.py                | 3 ++-
 optbinning/binning/uncertainty/binning_scenarios.py | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index ee584a5..6ef45df 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -214,7 +214,8 @@ def _check_parameters(name, dtype, prebinning_method, solver, divergence,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 446ec7b..fb58f21 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -151,7 +151,8 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 7fda493..556fc08 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -148,7 +148,8 @@ def _check_parameters(name, prebinning_method, solver, max_n_prebins,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index cc7c734..c7e2d16 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -161,7 +161,8 @@ def _check_parameters(name, estimator, objective, degree, continuous,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 3216092..4d63463 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -125,7 +125,8 @@ def _check_parameters(name, prebinning_method, max_n_prebins, min_prebin_size,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
-- 
2.43.0


From ea92e78e446d6b49d1bfd0e16027a40d4d6f4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 18/42] fix: MDLP.fit starts without the splits of a previous
 fit

---
 optbinning/binning/mdlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..1611d9f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
-- 
2.43.0


From feaf49fbef0a0ea6ddb43a0c40d430d894d30476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 19/42] fix: save numpy arrays and numbers to json and read
 lists of lists

---
 optbinning/binning/base.py               | 20 ++++++++++++++++++++
 optbinning/binning/binning.py            |  6 ++++--
 optbinning/binning/continuous_binning.py |  6 ++++--
 optbinning/binning/multiclass_binning.py |  6 ++++--
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..f8f050d 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -8,10 +8,30 @@ Base optimal binning algorithm class.
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def to_json_type(obj):
+    """Native type of a numpy object not supported by the json encoder."""
+    if isinstance(obj, (np.ndarray, np.generic)):
+        return obj.tolist()
+
+    raise TypeError("Object of type {} is not JSON serializable."
+                    .format(type(obj).__name__))
+
+
+def from_json_list(values):
+    """Array with the values of a list. A list of lists of different lengths
+    (e.g. categories of each bin) is an array of lists."""
+    try:
+        return np.array(values)
+    except ValueError:
+        return np.array(values, dtype=object)
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 6ef45df..1ec0c15 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -19,6 +19,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
+from .base import from_json_list
+from .base import to_json_type
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
@@ -1227,7 +1229,7 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=to_json_type)
 
     def read_json(self, path):
         """
@@ -1245,6 +1247,6 @@ class OptimalBinning(BaseOptimalBinning):
 
         for key in bin_table_attr.keys():
             if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+                bin_table_attr[key] = from_json_list(bin_table_attr[key])
 
         self._binning_table = BinningTable(**bin_table_attr)
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index fb58f21..fcd7cb8 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import from_json_list
+from .base import to_json_type
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1033,7 +1035,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=to_json_type)
 
     def read_json(self, path):
         """
@@ -1054,6 +1056,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         for key in cont_table_attr.keys():
             if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
+                cont_table_attr[key] = from_json_list(cont_table_attr[key])
 
         self._binning_table = ContinuousBinningTable(**cont_table_attr)
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 556fc08..91b60d1 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import from_json_list
+from .base import to_json_type
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -908,7 +910,7 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['classes'] = table.classes.tolist()
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=to_json_type)
 
     def read_json(self, path):
         """
@@ -929,6 +931,6 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         for key in multi_table_attr.keys():
             if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+                multi_table_attr[key] = from_json_list(multi_table_attr[key])
 
         self._binning_table = MulticlassBinningTable(**multi_table_attr)
-- 
2.43.0


From 44cd32b06cc7ce0cfe6de8e7982246ed94b4e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 20/42] fix: continuous binning forgets the missing values of a
 previous fit

---
 optbinning/binning/continuous_binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index fcd7cb8..3793fc4 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -877,6 +877,10 @@ class ContinuousOptimalBinning(OptimalBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         if len(y_others):
             if len(sw_others):
-- 
2.43.0


From 00746d219869dd370e07ffbb5d958e3dab698815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 21/42] fix: multiclass bin size bounds use the records of each
 pre-bin

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..dd51217 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..a858d15 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From 7273b979d5786cf0d699531c588528180a0b4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 22/42] fix: multiclass models enforce concave, convex and
 heuristic trends

---
 optbinning/binning/multiclass_binning.py |  6 ++++++
 optbinning/binning/multiclass_cp.py      | 10 ++++++++--
 optbinning/binning/multiclass_mip.py     | 10 ++++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 91b60d1..b606b54 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -745,6 +745,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index dd51217..6585e9d 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +102,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index a858d15..f3c78d3 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +105,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From c4058bccc4c41df0b895f910fdb7bef8f50f0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 23/42] fix: distinct names for the variables of each class in
 the multiclass models

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 6585e9d..1112706 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -146,7 +146,7 @@ class MulticlassBinningCP(BinningCP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = model.NewBoolVar("y[{}]".format(i))
+                        y[c, i] = model.NewBoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = model.NewIntVar(0, n, "t[{}]".format(c))
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index f3c78d3..ebaa6e1 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -149,7 +149,7 @@ class MulticlassBinningMIP(BinningMIP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = solver.BoolVar("y[{}]".format(i))
+                        y[c, i] = solver.BoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = solver.IntVar(0, n, "t[{}]".format(c))
-- 
2.43.0


From 2d6cce65a781b0e16bd806aeab63bccac8408d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 24/42] fix: the continuous model links its dominance penalty
 to the bins

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..4511569 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From 32deef7b3c42c861b734bcae8787668f536f657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 25/42] fix: rounding of a bin's variance below zero no longer
 disables its p-value test

---
 optbinning/binning/model_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/model_data.py b/optbinning/binning/model_data.py
index e58bf17..4171b94 100644
--- a/optbinning/binning/model_data.py
+++ b/optbinning/binning/model_data.py
@@ -261,7 +261,7 @@ def continuous_model_data(n_records, sums, ssums, max_pvalue,
         s_ssums = ssums[:i][::-1].cumsum()[::-1]
 
         mean = s_sums / s_n_records
-        std = np.sqrt(s_ssums / s_n_records - mean ** 2)
+        std = np.sqrt(np.maximum(s_ssums / s_n_records - mean ** 2, 0))
         norm = np.absolute(mean - t_mean)
 
         if scale is not None:
-- 
2.43.0


From 4fb339967829d6a568117f068f6619b1d51c48bd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 26/42] fix: the highest density interval of a whole sample

---
 optbinning/binning/outlier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..1b5393f 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,8 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            # an interval cannot span more than n - 1 steps
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
-- 
2.43.0


From ce0f256a63810c620bc04351d70e86199b01b5e3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 27/42] fix: quantile detector skips bins without records

---
 optbinning/binning/outlier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1b5393f..771ae87 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -220,6 +220,10 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            # interpolated quantiles can leave a bin without records
+            if not np.any(mask_x):
+                continue
+
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From e08eba68339ca1dbc0d475b23eec93ba94a08faa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 28/42] fix: transform options of one variable no longer apply
 to the next ones

---
 optbinning/binning/binning_process.py | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..6f1bcb0 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1426,15 +1426,15 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            var_metric = params.get("metric", metric)
+            var_missing = params.get("metric_missing", metric_missing)
+            var_special = params.get("metric_special", metric_special)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": var_metric,
+                "metric_special": var_special,
+                "metric_missing": var_missing,
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1442,7 +1442,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if var_metric is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1524,22 +1524,22 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                var_metric = params.get("metric", metric)
+                var_missing = params.get("metric_missing", metric_missing)
+                var_special = params.get("metric_special", metric_special)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": var_metric,
+                    "metric_special": var_special,
+                    "metric_missing": var_missing,
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if var_metric is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From 31dd95ef51bfb5a91cf7bd37a3e4a57ff9d6ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 29/42] fix: bin indices mixed with other metrics no longer
 truncate them to integers

---
 optbinning/binning/binning_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 6f1bcb0..54388ef 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1401,6 +1401,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # indices mixed with other metrics do not fit an integer array
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1499,6 +1502,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+
+                # indices mixed with other metrics do not fit an integer array
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From 79a6f8a10626e93e53ab9cf08893578ff3bceed7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 30/42] fix: show_digits given for one variable is used in its
 transform

---
 optbinning/binning/binning_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 54388ef..a771d0f 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1432,6 +1432,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             var_metric = params.get("metric", metric)
             var_missing = params.get("metric_missing", metric_missing)
             var_special = params.get("metric_special", metric_special)
+            var_digits = params.get("show_digits", show_digits)
 
             tparams = {
                 "x": x,
@@ -1439,7 +1440,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 "metric_special": var_special,
                 "metric_missing": var_missing,
                 "check_input": check_input,
-                "show_digits": show_digits
+                "show_digits": var_digits
                 }
 
             if isinstance(optb, _OPTBPW_TYPES):
@@ -1533,13 +1534,14 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 var_metric = params.get("metric", metric)
                 var_missing = params.get("metric_missing", metric_missing)
                 var_special = params.get("metric_special", metric_special)
+                var_digits = params.get("show_digits", show_digits)
 
                 tparams = {
                     "x": chunk[name],
                     "metric": var_metric,
                     "metric_special": var_special,
                     "metric_missing": var_missing,
-                    "show_digits": show_digits
+                    "show_digits": var_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
-- 
2.43.0


From 4fbd467a962fdaf06cc80336af5ba969ba3476d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 31/42] fix: transform_disk of a process with per-variable
 settings and no selected variable

---
 optbinning/binning/binning_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index a771d0f..5a718d4 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1506,7 +1506,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
                 # indices mixed with other metrics do not fit an integer array
                 base_metric = None
-            else:
+            elif metrics:
                 base_metric = metrics.pop()
 
         chunks = pd.read_csv(input_path, engine='c', chunksize=chunksize,
-- 
2.43.0


From 9cd96691c167e28b0eef782cae958b325a4d02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 32/42] fix: variable stability counts missing, special and
 new-bin records in their own bins

---
 optbinning/scorecard/monitoring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..278a727 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -781,10 +781,14 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
-
-            n_bins = te.max() + 1
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+
+            n_bins = max(ta.max(), te.max()) + 1
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 99de09b84f1d97eda71b777c88c00d70d8d4f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 33/42] fix: reversed pdo_odds scores use the whole linear
 predictor

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..09d0dd0 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From fbe59899eab790d87407309d0fe2609406b4c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 34/42] fix: refitting a scorecard without intercept_based
 forgets the previous intercept

---
 optbinning/scorecard/scorecard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 09d0dd0..1ac4865 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -624,6 +624,7 @@ class Scorecard(Base, BaseEstimator):
 
             df_scorecard.loc[:, "Points"] = scaled_points
 
+        self.intercept_ = 0
         if self.intercept_based:
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
-- 
2.43.0


From 36348e54e8f99aa562791b5a74e2cd3813c3b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 35/42] fix: counterfactual feature values follow the picked
 bins whatever the objectives

---
 optbinning/scorecard/counterfactual/mip.py    | 25 +++++++++++--------
 .../scorecard/counterfactual/multi_mip.py     | 25 ++++++++++++-------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..416f7d2 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,12 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: new feature values
+        self.add_constraint_features(solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +148,12 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: new feature values
+            self.add_constraint_features(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -259,16 +263,17 @@ class CFMIP:
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_features(self, solver, p, x, nbins, metric, x_p, z):
+        for i in range(p):
+            # Compute x'
+            solver.Add(x_p[i] == x[i] + solver.Sum(
+                [(metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
+
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
         for i in range(p):
             # Absolute value
             solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
 
-            # Compute x'
-            solver.Add(x_p[i] == x[i] + solver.Sum([
-                (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
-
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for i in range(p):
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..f477a91 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,12 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: new feature values
+            self.add_constraint_features(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +159,13 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: new feature values
+                self.add_constraint_features(
+                    solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -316,18 +321,20 @@ class MCFMIP(CFMIP):
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f, u, d
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_features(self, solver, p, x, nbins, metric, x_p, z):
         for k in range(self.K):
             for i in range(p):
-                # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
-
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
                      for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        for k in range(self.K):
+            for i in range(p):
+                # Absolute value
+                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for k in range(self.K):
-- 
2.43.0


From 831169c6b91c6f1124126f0882581609b878cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 36/42] fix: counterfactual solutions with the same number of
 bins for every feature can be read

---
 optbinning/scorecard/counterfactual/mip.py       |  7 +++----
 optbinning/scorecard/counterfactual/multi_mip.py | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 416f7d2..f712d01 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -202,10 +202,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
-                                 for i in range(self._p)], dtype=object)
+            solution = [np.array([self._z[i, j].solution_value()
+                                  for j in range(self._nbins[i])]).astype(bool)
+                        for i in range(self._p)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index f477a91..7221b05 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -242,12 +242,11 @@ class MCFMIP(CFMIP):
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array(
-                [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
-                     for i in range(self._p)], dtype=object)
-                 for k in range(self.K)], dtype=object)
+            solution = [
+                [np.array([self._z[k, i, j].solution_value()
+                           for j in range(self._nbins[i])]).astype(bool)
+                 for i in range(self._p)]
+                for k in range(self.K)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From 9ed2df149c02f9ed876a1a878574f7aa1ffe176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 37/42] fix: merging quantile sketches keeps the total weight

---
 optbinning/binning/distributed/gk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..dd9943e 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -99,21 +99,25 @@ class GK:
         gk.merge_compress()
 
         # upper bound elements(gk.v0, gk.v1) - spread
+        # a non-positive weight is carried over to the next element, so that
+        # the total weight is the number of values in gk.
         g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
 
         if g > 0:
             entries.append(Entry(gk._min, g, 0))
+            g = 0
 
         n_gk = len(gk)
         for i in range(n_gk - 1):
             tp1 = gk.entries[i + 1]
             t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
+            g += tp1.g + (tp1.delta - t.delta)
             if g > 0:
                 entries.append(Entry(t.value, g, 0))
+                g = 0
 
         last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
+        g += spread + 1 - last_t.delta
         if g > 0:
             entries.append(Entry(last_t.value, g, 0))
 
-- 
2.43.0


From 1012f3ded37e29f271398a13ff06e8d8838fc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 38/42] fix: a binning sketch without splits counts missing and
 special records once

---
 optbinning/binning/distributed/binning_sketch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..792967e 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -612,8 +612,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         time_postprocessing = time.perf_counter()
 
         if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
+            n_nonevent = np.array([np.sum(n_nonevent)])
+            n_event = np.array([np.sum(n_event)])
 
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
-- 
2.43.0


From 498811dd07c5e62f69f23c5fe4dc13ef20b9429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 39/42] fix: merging binning sketches keeps missing and special
 counts when one has no clean records

---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 815d1ae..518f32b 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -217,16 +210,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From d8f50717346421776d0e9fde6f2fa84574b41fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 40/42] fix: merged categorical sketches do not share counters

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 518f32b..96a47fa 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -384,7 +384,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From 5ec19bea78de7adab3ccb1f554d493fa2646fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:18 +0000
Subject: [PATCH 41/42] fix: two-dimensional bins can be read when every
 candidate has the same number of cells

---
 optbinning/binning/multidimensional/binning_2d.py            | 5 +++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..14b9a38 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -697,12 +697,13 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..eb5a7d2 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -622,12 +622,13 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [row for row, selected in zip(rows, self._solution)
+                         if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
-- 
2.43.0


From 23dfd2bb68e87bc08dfe5b2f1f03dc293f0aa694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:18 +0000
Subject: [PATCH 42/42] fix: continuous two-dimensional binning counts records
 as integers, so that gamma works with cp

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index eb5a7d2..80a88f2 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -720,7 +720,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         indices_y = np.digitize(y_clean, splits_y, right=False)
         n_bins_y = n_splits_y + 1
 
-        R = np.empty((n_bins_y, n_bins_x), dtype=float)
+        R = np.empty((n_bins_y, n_bins_x), dtype=int)
         S = np.empty((n_bins_y, n_bins_x), dtype=float)
         SS = np.empty((n_bins_y, n_bins_x), dtype=float)
 
-- 
2.43.0

