From be9f4c367db009c6b3dba78246e9499b4bf24f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:09 +0000
Subject: [PATCH 01/22] fix: keep the previous model when fit() fails or is
 interrupted

A fit that raised half way (interrupt, out of memory, failing optimizer or
progress stream) left a mixture of the old and the new tree behind that still
reported itself fitted. Train and prune a copy and adopt it in one step.
---
 bayesian_decision_tree/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..be5e5e2 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 
 import numpy as np
 import pandas as pd
@@ -65,11 +66,15 @@ class BaseTree(ABC, BaseEstimator):
         if X.shape[0] != len(y):
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
-        # fit
-        self._fit(X, y, verbose, feature_names, 'root')
+        # fit a copy and adopt the result only once it is complete such that a failing or interrupted
+        # fit never leaves a partially grown or partially pruned tree behind
+        trained = copy(self)
+        trained._fit(X, y, verbose, feature_names, 'root')
 
-        if self.prune:
-            self._prune()
+        if trained.prune:
+            trained._prune()
+
+        self.__dict__ = trained.__dict__
 
         return self
 
-- 
2.43.0


From b0440e6589f8718409894eba885a3fbec9d05a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:50 +0000
Subject: [PATCH 02/22] fix: send neighbouring floating point numbers to the
 side they were trained on

The mean of two adjacent floating point numbers can round down to the lower
one, in which case both values ended up right of the split when predicting.
---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..f54ceb7 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -143,10 +143,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            x1 = X[indices1[-1], best_split_dimension]
+            x2 = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5 * (x1 + x2)
+            if self.split_value_ <= x1:
+                # there is no number between x1 and x2, so the mean got rounded down to x1
+                self.split_value_ = x2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 1aadd14514b8bb54a6364617775db3aacf405280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 03/22] fix: do not compute with narrow integer types

Split values (the mean of two data points) and sums of squared targets silently
overflowed for 8, 16 and 32 bit integer data.
---
 bayesian_decision_tree/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index be5e5e2..e4d5535 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -229,12 +229,13 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (
-                np.int8, np.int16, np.int32, np.int64,
-                np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
+        if data.dtype in (np.int64, np.uint64, np.float32, np.float64):
             return data
 
+        if data.dtype in (np.int8, np.int16, np.int32, np.uint8, np.uint16, np.uint32):
+            # sums, differences and squares of narrow integers can overflow
+            return data.astype(np.float64)
+
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
         if not np.all(data == X_float):
-- 
2.43.0


From ad5ca2f547cd0d74e2b501920e5285494b281730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 04/22] fix: accept integer data and integer hyperplane normals

RandomTwoPointOptimizer failed on integer training data because the integer
difference of two points cannot be normalized in place.
---
 bayesian_decision_tree/hyperplane_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..562c137 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -41,7 +41,7 @@ class HyperplaneOptimizationFunction:
         if np.all(hyperplane_normal == 0):
             hyperplane_normal[0] = 1
 
-        hyperplane_normal /= np.linalg.norm(hyperplane_normal)
+        hyperplane_normal = hyperplane_normal / np.linalg.norm(hyperplane_normal)
 
         dense = isinstance(self.X, np.ndarray)
         if not dense and isinstance(self.X, csr_matrix):
@@ -196,7 +196,7 @@ class RandomTwoPointOptimizer(HyperplaneOptimizer):
                 p1 = p1.toarray()[0]
                 p2 = p2.toarray()[0]
 
-            normal = p2-p1
+            normal = np.subtract(p2, p1, dtype=np.float64)
             if normal[0] < 0:
                 normal *= -1  # make sure the first coordinate is positive to match the scipy search space
 
-- 
2.43.0


From fd3ddb5a67b9b0fa0fb7980bff7e91035d719e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:15 +0000
Subject: [PATCH 05/22] fix: accept targets given as a pandas Series with any
 index

---
 bayesian_decision_tree/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index e4d5535..cbae286 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -55,10 +55,8 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
-
-        y = y.squeeze()
+        # (this also discards the index of a pandas.Series: all indexing below is positional)
+        y = np.asarray(y).squeeze()
         y = self._ensure_float64(y)
         self._check_target(y)
 
-- 
2.43.0


From 938de4d5bb2a4dde5f295a59a096d77079712d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:34 +0000
Subject: [PATCH 06/22] fix: find the possible splits among neighbours along
 the hyperplane normal

---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 562c137..8ccbe7e 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 7be8af35e26e4fe84de443ef9fac0fd0a25e250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:05 +0000
Subject: [PATCH 07/22] fix: register the best split found by workers in other
 processes

---
 bayesian_decision_tree/hyperplane_optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 8ccbe7e..bc12fbe 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -139,7 +139,11 @@ class ScipyOptimizer(HyperplaneOptimizer):
             seed=self.seed,
             **self.extra_solver_kwargs)
 
-        solver.solve()
+        result = solver.solve()
+
+        # the solver may have evaluated copies of the function only (workers in other processes), so
+        # make sure that the best split gets registered in the original
+        optimization_function.compute(result.x)
 
 
 class RandomTwoPointOptimizer(HyperplaneOptimizer):
-- 
2.43.0


From d1c4c12f96645177651961a9d233a2bfca983685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:40 +0000
Subject: [PATCH 08/22] fix: compare and update the best split atomically

---
 .../hyperplane_optimization.py                | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index bc12fbe..cd5a100 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -2,9 +2,13 @@ import numpy as np
 from abc import ABC, abstractmethod
 from numpy.random import RandomState
 from scipy.sparse import csr_matrix, csc_matrix
+from threading import Lock
 
 from bayesian_decision_tree.utils import r2_series_generator, hypercube_to_hypersphere_surface
 
+# not an attribute of the optimization function because it couldn't be pickled with it
+_BEST_SPLIT_LOCK = Lock()
+
 
 class HyperplaneOptimizationFunction:
     """
@@ -73,17 +77,21 @@ class HyperplaneOptimizationFunction:
             projections_with_origin = projections - np.dot(hyperplane_normal, hyperplane_origin)
             cumulative_distances = np.sum(np.abs(projections_with_origin))
 
-            if log_p_data_split[i_max] > self.best_log_p_data_split:
-                is_log_p_better_or_same_but_with_better_distance = True
-            else:
-                # accept new split with same log(p) only if it increases the cumulative distance of all points to the hyperplane
-                is_log_p_better_or_same_but_with_better_distance = cumulative_distances > self.best_cumulative_distances
-
-            if is_log_p_better_or_same_but_with_better_distance:
-                self.best_log_p_data_split = log_p_data_split[i_max]
-                self.best_cumulative_distances = cumulative_distances
-                self.best_hyperplane_normal = hyperplane_normal
-                self.best_hyperplane_origin = hyperplane_origin
+            # optimizers may call this function from multiple threads, so compare and update in one go
+            with _BEST_SPLIT_LOCK:
+                if log_p_data_split[i_max] > self.best_log_p_data_split:
+                    is_log_p_better_or_same_but_with_better_distance = True
+                else:
+                    # accept new split with same log(p) only if it increases the cumulative distance of all points to the hyperplane
+                    is_log_p_better_or_same_but_with_better_distance = \
+                        log_p_data_split[i_max] == self.best_log_p_data_split \
+                        and cumulative_distances > self.best_cumulative_distances
+
+                if is_log_p_better_or_same_but_with_better_distance:
+                    self.best_log_p_data_split = log_p_data_split[i_max]
+                    self.best_cumulative_distances = cumulative_distances
+                    self.best_hyperplane_normal = hyperplane_normal
+                    self.best_hyperplane_origin = hyperplane_origin
 
         return -log_p_data_split[i_max]
 
-- 
2.43.0


From baf6ca97f2a1d9212a7f41b1c236ec1b3c012975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:23 +0000
Subject: [PATCH 09/22] fix: follow the right rows when collecting prediction
 paths

---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index f54ceb7..93aeb76 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From 8d51a543c699efe33f1280f717359a94d032867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:26 +0000
Subject: [PATCH 10/22] fix: do not round split values when predicting single
 precision data

---
 bayesian_decision_tree/base_perpendicular.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 93aeb76..6d13113 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -195,6 +195,9 @@ class BasePerpendicularTree(BaseTree, ABC):
         if not dense:
             X_split = self._to_array(X_split)
 
+        # always compare in double precision (numpy rounds the split value if the data is in single precision)
+        X_split = X_split.astype(np.float64)
+
         indices1 = np.where(X_split < self.split_value_)[0]
         indices2 = np.where(X_split >= self.split_value_)[0]
 
-- 
2.43.0


From 13c778aada5b0cf65b60370745ffcdd0612794d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:53 +0000
Subject: [PATCH 11/22] fix: fall back to a placeholder version when git fails
 half way or answers with bytes that are not text

---
 bayesian_decision_tree/_version.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index bd7951c..0932577 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -95,7 +95,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("output of %s is not text" % dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -295,11 +300,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 122dd2f645d05774926e8b3b868def1479197c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:04 +0000
Subject: [PATCH 12/22] fix: reject zero-dimensional arrays with ValueError

---
 bayesian_decision_tree/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index cbae286..e952a5f 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -212,6 +212,9 @@ class BaseTree(ABC, BaseEstimator):
             elif np.isscalar(X):
                 X = np.array([X])
 
+            if X.ndim == 0:
+                raise ValueError('X should have 2 dimensions but has 0')
+
             if X.ndim == 1:
                 X = np.expand_dims(X, 0)
 
-- 
2.43.0


From fe552fc4b9b2d10fff6cae0c557856bc2faa8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:19 +0000
Subject: [PATCH 13/22] fix: reject training data without samples or features
 with ValueError

---
 bayesian_decision_tree/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index e952a5f..bf18333 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -64,6 +64,9 @@ class BaseTree(ABC, BaseEstimator):
         if X.shape[0] != len(y):
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
+        if X.shape[0] == 0 or X.shape[1] == 0:
+            raise ValueError('Nothing to learn from: X={}'.format(X.shape))
+
         # fit a copy and adopt the result only once it is complete such that a failing or interrupted
         # fit never leaves a partially grown or partially pruned tree behind
         trained = copy(self)
-- 
2.43.0


From fe65f68806b9c46ea69824c3a25e0f564594fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:14 +0000
Subject: [PATCH 14/22] fix: train hyperplane trees on a single feature with
 every optimizer

---
 bayesian_decision_tree/base_hyperplane.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..18b2490 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -51,7 +51,12 @@ class BaseHyperplaneTree(BaseTree, ABC):
             self.split_precision)
 
         # create and run optimizer
-        optimizer.solve(optimization_function)
+        if n_dim == 1 and optimizer.search_space_is_unit_hypercube:
+            # all hyperplanes are parallel, so there are no directions to search
+            optimization_function.search_space_is_unit_hypercube = False
+            optimization_function.compute(np.ones(1))
+        else:
+            optimizer.solve(optimization_function)
 
         self.optimization_function = optimization_function
 
-- 
2.43.0


From 1dab9d0f96b5b9320734e222a70003212f834efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:38 +0000
Subject: [PATCH 15/22] fix: do not split identical points on rounding
 differences of their projections

---
 bayesian_decision_tree/hyperplane_optimization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index cd5a100..082066c 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -54,7 +54,13 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
+
+        # identical points can end up with slightly different projections, so ignore gaps which may be due to rounding
+        magnitudes = abs(self.X.astype(projections.dtype)) @ np.abs(hyperplane_normal)
+        rounding = 2 * (self.X.shape[1] + 1) * np.finfo(projections.dtype).eps * magnitudes[sort_indices]
+        min_gaps = np.maximum(self.split_precision, rounding[:-1] + rounding[1:])
+
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > min_gaps)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From f69f8009c49389b6efa9a4ea10c353399db57456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:34 +0000
Subject: [PATCH 16/22] fix: train on 64-bit integer data in double precision

---
 bayesian_decision_tree/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index bf18333..f26ff1d 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -233,11 +233,11 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (np.int64, np.uint64, np.float32, np.float64):
+        if data.dtype in (np.float32, np.float64):
             return data
 
-        if data.dtype in (np.int8, np.int16, np.int32, np.uint8, np.uint16, np.uint32):
-            # sums, differences and squares of narrow integers can overflow
+        if data.dtype in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
+            # sums, differences and squares of integers can overflow
             return data.astype(np.float64)
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
-- 
2.43.0


From 18e78e4b9b49c006ae583a3fca2861523411be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:03 +0000
Subject: [PATCH 17/22] fix: train on single precision targets in double
 precision

---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index f26ff1d..196af29 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -57,7 +57,7 @@ class BaseTree(ABC, BaseEstimator):
         # validation and input transformation
         # (this also discards the index of a pandas.Series: all indexing below is positional)
         y = np.asarray(y).squeeze()
-        y = self._ensure_float64(y)
+        y = self._ensure_float64(y).astype(np.float64, copy=False)  # sums of squares need double precision
         self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
-- 
2.43.0


From 821b4e46ee03399b1aa9e9caa8835b1d637b43c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:33 +0000
Subject: [PATCH 18/22] fix: keep precision for regression targets with a large
 common offset

---
 bayesian_decision_tree/regression.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..26c301b 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -26,7 +26,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
+    @staticmethod
+    def _center(y, prior):
+        # the likelihood doesn't depend on a common offset of prior mean and targets, but sums of squares lose precision with it
+        mu, kappa, alpha, beta = prior
+        return y - mu, (0, kappa, alpha, beta)
+
     def _compute_log_p_data_no_split(self, y, prior):
+        y, prior = self._center(y, prior)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
         n = len(y)
@@ -37,6 +44,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         return log_p_prior + log_p_data
 
     def _compute_log_p_data_split(self, y, prior, n_dim, split_indices):
+        y, prior = self._center(y, prior)
         n = len(y)
         n1 = np.arange(1, n)
         n2 = n - n1
@@ -87,8 +95,14 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         n = len(y)
         y_sum = y.sum()
         y_squared_sum = (y ** 2).sum()
+        posterior = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+
+        y, prior = self._center(y, prior)
+        y_sum = y.sum()
+        y_squared_sum = (y ** 2).sum()
+        posterior_centered = self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
 
-        return self._compute_posterior_internal(prior, n, y_sum, y_squared_sum, delta)
+        return (posterior[0],) + posterior_centered[1:]
 
     def _compute_posterior_internal(self, prior, n, y_sum, y_squared_sum, delta=1):
         mu, kappa, alpha, beta = prior
-- 
2.43.0


From fdfcb5730781b874e1aff0fa2c6b57f1ac21aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:34 +0000
Subject: [PATCH 19/22] fix: take feature names from a pandas.Series by
 position

---
 bayesian_decision_tree/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 196af29..1c5b7dc 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -61,6 +61,7 @@ class BaseTree(ABC, BaseEstimator):
         self._check_target(y)
 
         X, feature_names = self._normalize_data_and_feature_names(X, feature_names)
+        feature_names = list(feature_names)  # discard the index of a pandas.Series
         if X.shape[0] != len(y):
             raise ValueError('Invalid shapes: X={}, y={}'.format(X.shape, y.shape))
 
-- 
2.43.0


From 44731f952437dfcf70c6bed5df96c54560229c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:52 +0000
Subject: [PATCH 20/22] fix: send rows with missing values down the right-hand
 side instead of dropping them

---
 bayesian_decision_tree/base_hyperplane.py    | 4 ++--
 bayesian_decision_tree/base_perpendicular.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 18b2490..f80bda3 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -68,7 +68,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
             projections = X @ optimization_function.best_hyperplane_normal \
                           - np.dot(optimization_function.best_hyperplane_normal, optimization_function.best_hyperplane_origin)
             indices1 = np.where(projections < 0)[0]
-            indices2 = np.where(projections >= 0)[0]
+            indices2 = np.where(~(projections < 0))[0]  # includes missing values (NaN), which training sorts last
 
             if len(indices1) > 0 and len(indices2) > 0:
                 """
@@ -128,7 +128,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
     def _compute_child1_and_child2_indices(self, X, indices, dense):
         projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)
         indices1 = np.where(projections < 0)[0]
-        indices2 = np.where(projections >= 0)[0]
+        indices2 = np.where(~(projections < 0))[0]
 
         return indices1, indices2
 
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 6d13113..b56e9b9 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -199,7 +199,7 @@ class BasePerpendicularTree(BaseTree, ABC):
         X_split = X_split.astype(np.float64)
 
         indices1 = np.where(X_split < self.split_value_)[0]
-        indices2 = np.where(X_split >= self.split_value_)[0]
+        indices2 = np.where(~(X_split < self.split_value_))[0]  # includes missing values (NaN), which training sorts last
 
         return indices1, indices2
 
-- 
2.43.0


From f5042f65fdd5845e941036129a13d5695535679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:52 +0000
Subject: [PATCH 21/22] fix: keep split values between the points they separate
 when their sum overflows

---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index b56e9b9..1212c32 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -146,8 +146,8 @@ class BasePerpendicularTree(BaseTree, ABC):
             x1 = X[indices1[-1], best_split_dimension]
             x2 = X[indices2[0], best_split_dimension]
             self.split_value_ = 0.5 * (x1 + x2)
-            if self.split_value_ <= x1:
-                # there is no number between x1 and x2, so the mean got rounded down to x1
+            if not x1 < self.split_value_ <= x2:
+                # there is no number between x1 and x2, so the mean got rounded down to x1, or their sum overflows
                 self.split_value_ = x2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
-- 
2.43.0


From f324ce2d22974f46ca9c7528b90252b91581f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:10:02 +0000
Subject: [PATCH 22/22] fix: accept sparse matrices of booleans and other types
 that need converting

---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 1c5b7dc..66ba3d3 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -243,7 +243,7 @@ class BaseTree(ABC, BaseEstimator):
 
         # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
-        if not np.all(data == X_float):
+        if (data != X_float).sum() > 0:  # works for sparse matrices, too
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0

