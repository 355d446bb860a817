From bee0cd20d8bc09d55c290302ec86f53ccbe81bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 01/42] fix: restore the typing import in dsm/polytope.py so
 that aideme can be imported

The import statement had been glued to the last line of the licence comment.
---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From 36fc5037a677203e23f7573095dfcb7fcd0f5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 02/42] fix: move_to_unknown moves the row of the given index,
 not the row numbered like it

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From bce09bf967b9e1ddcff282ddd089f09093634053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 03/42] fix: a refused move leaves the partitions of the
 dataset unchanged

The batch was moved index by index, so an index that is unknown, repeated or
already in the target partition left the ones before it moved, without labels.
---
 aideme/explore/partitioned.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..b5d0496 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -77,6 +77,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Move indexes to LABELED partition, and store its labels. Throws exception if any index is already in this partition.
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
+        self.__check_move(labeled_set.index, 'labeled', 0, self.__inferred_start)
+
         for idx in labeled_set.index:
             pos = self.__index_to_row[idx]
 
@@ -92,6 +94,9 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         """
         Move indexes to INFERRED partition. Throws exception if any index is already in this partition.
         """
+        indexes = list(indexes)
+        self.__check_move(indexes, 'inferred', self.__inferred_start, self.__unknown_start)
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
@@ -106,6 +111,9 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
         """
+        indexes = list(indexes)
+        self.__check_move(indexes, 'unknown', self.__unknown_start, len(self))
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
@@ -114,6 +122,19 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
+    def __check_move(self, indexes: Iterable, partition_name: str, start: int, stop: int) -> None:
+        """
+        Checks a whole batch before anything is moved, so that a refused batch leaves all partitions unchanged.
+        """
+        seen = set()
+        for idx in indexes:
+            pos = self.__index_to_row[idx]
+
+            if start <= pos < stop or idx in seen:
+                self.__raise_error(idx, pos, partition_name)
+
+            seen.add(idx)
+
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
             self.__swap_rows(pos, self.__unknown_start)
-- 
2.43.0


From 3e8fc3284b5acf4fdbf2a4c6ed23255b99b258a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 04/42] fix: points leaving the labeled partition take their
 labels with them

The labeled set kept them, so training_set() paired rows with wrong labels.
---
 aideme/explore/partitioned.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index b5d0496..e9d7fb8 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -107,6 +107,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'inferred')
 
+        self.__drop_unlabeled()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -122,6 +124,15 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
+        self.__drop_unlabeled()
+
+    def __drop_unlabeled(self) -> None:
+        """
+        Drops the labels of points which have left the LABELED partition, keeping labels in the same order as the data.
+        """
+        if len(self.__labeled_set) > self.labeled_size:
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
+
     def __check_move(self, indexes: Iterable, partition_name: str, start: int, stop: int) -> None:
         """
         Checks a whole batch before anything is moved, so that a refused batch leaves all partitions unchanged.
-- 
2.43.0


From f9e5d0bab5a091761b90ef318e003ef3c3b9a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 05/42] fix: LabeledSet keeps its own copy of the index

It shared the dataset's index array, which every later move changes in-place.
---
 aideme/explore/labeledset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/labeledset.py b/aideme/explore/labeledset.py
index 1f0b36c..0f4f25b 100644
--- a/aideme/explore/labeledset.py
+++ b/aideme/explore/labeledset.py
@@ -58,7 +58,7 @@ class LabeledSet:
         if index is None:
             return np.arange(len(self))
 
-        idx = np.ravel(index)
+        idx = np.ravel(index).copy()  # the given array may be changed in-place, e.g. by PartitionedDataset
 
         if len(idx) != len(self):
             raise ValueError("Wrong size of indexes: expected {}, but got {}".format(len(idx), len(self)))
-- 
2.43.0


From 3dd791e351c20d1c76737098ae568317b3968524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 06/42] fix: do not grow the caller's list of convergence
 criteria

process_callback returned the caller's own list, to which ExplorationManager appends.
---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..7fa9b93 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -58,4 +58,4 @@ def process_callback(callback):
     if not all(callable(f) for f in callback):
         raise ValueError("Expected callable or list of callable objects, got {}".format(callback))
 
-    return callback
+    return list(callback)
-- 
2.43.0


From 7f3b66656fe0bcbcb4be65e8605c86ee14d3a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 07/42] fix: a run does not start with the metrics of an
 abandoned one

The convergence criteria saw them before the first iteration.
---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..a36ce77 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -91,6 +91,7 @@ class PoolBasedExploration:
         set_random_state(seed)
 
         manager.clear()
+        metric_logger.flush()  # a previous run may have been abandoned halfway
 
         while not manager.converged():
             metric_logger.flush()  # avoid overlapping metrics between iterations
-- 
2.43.0


From f6a9d2bc25bd47e997074cbeadbeb412757714e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 08/42] fix: refuse labels like 11 or 01 on the command line

---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..5a8b25e 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -91,5 +91,9 @@ class CommandLineExploration:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
 
+        if not set(vals).issubset({'0', '1'}):
+            print("Labels must be either 0 or 1, separated by ' '.\n")
+            return False, None
+
         print()
         return True, [int(x) for x in vals]
-- 
2.43.0


From 43279ed3b73eae5a076097794ec035758cf2b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 09/42] fix: Polytope.update no longer loses points or hides
 errors

'finally: return' swallowed every exception. So negative points given before any
positive one were lost, and a flat region made the other regions miss the batch.
---
 aideme/active_learning/dsm/polytope.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..0321efb 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -13,6 +13,7 @@
 from typing import Set, List, Tuple
 
 import numpy as np
+from scipy.spatial import QhullError
 
 from .convex import PositiveRegion, NegativeCone, ConvexError
 
@@ -88,22 +89,33 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-            self.positive_region.update(X)
+            self.__skip_flat(self.positive_region.update, X)
 
             for nr in self.negative_region:
-                nr.add_points_to_hull(X)
+                self.__skip_flat(nr.add_points_to_hull, X)
 
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
+            if self.positive_region.vertices is not None:
+                self.__skip_flat(cone.add_points_to_hull, self.positive_region.vertices)
+
+    @staticmethod
+    def __skip_flat(add_points, X: np.ndarray) -> None:
+        """
+        As long as its points are flat, a region only caches them, and it will be built once they are not.
+        """
+        try:
+            add_points(X)
+        except QhullError:
+            pass
+
 
 class FlippedPolytope(PolytopeBase):
     """
-- 
2.43.0


From 9adccc55de02c40ccc3dc605e9f1aa94c660df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 10/42] fix: a conflict in one polytope does not keep the batch
 from the others

'and' and all() stopped at the first failed update, so the flipped polytope and
the remaining subspaces missed these labels.
---
 aideme/active_learning/dsm/model.py    | 2 +-
 aideme/active_learning/dsm/polytope.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..97930b2 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])  # never skip an update
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 0321efb..75b60e2 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -198,7 +198,8 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            is_success = [self._pol.update(X, y), self._flipped.update(X, y)]  # never skip an update
+            return all(is_success)
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From a118e071c6807c5657ec44f34b94ff66fe145b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 11/42] fix: MultiSetPolytope refuses a negative point made of
 positive items only

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 75b60e2..3d42867 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -344,6 +344,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if not idx:
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From 788081b9fc152d527ccd2aa18485721c2ae6ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 12/42] fix: CategoricalPolytope.predict uses float, as
 np.float was removed from numpy

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 3d42867..8da5d45 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -239,7 +239,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
-- 
2.43.0


From 04455948c488ea1edc3c4e78672fdbacfdc3c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 13/42] fix: GaussianKernel.diagonal uses float, as np.float
 was removed from numpy

---
 aideme/active_learning/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From 86377b4c29810801050a535934f847b21e51d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 14/42] fix: PolynomialKernel.diagonal agrees with the diagonal
 of compute()

It took the degree-th root instead of the power, and failed for the default gamma.
---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..e11d485 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 88289a9c90ecf76ba7aac000d2fe332ed41c8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 15/42] fix: QueryByDisagreement works once fewer points are
 left than its sample size

---
 aideme/active_learning/query_by_disagreement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..fa2bdd8 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -35,15 +35,16 @@ class QueryByDisagreement(ActiveLearner):
         self._learner.fit(X, y)
 
         background_points = data.unlabeled.sample(self._background_sample_size).data
+        background_size = len(background_points)  # may be less than the sample size
         X_train = np.r_[X, background_points]
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(background_size)]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 317025ee186ce22a124a41dd12a2e27a8d16f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 16/42] fix: SubspatialVersionSpace accepts the documented
 'SQUARED' loss

---
 aideme/active_learning/version_space/subspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..62f2f80 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -266,6 +266,7 @@ class SubspatialVersionSpace(SubspaceLearner):
         return super()._get_function(loss, {
             'GREEDY': lambda ps: np.prod(1 - 2 * ps * (1 - ps), axis=0),
             'SQUARE': lambda ps: np.square(ps - 0.5).sum(axis=0),
+            'SQUARED': lambda ps: np.square(ps - 0.5).sum(axis=0),
             'PRODUCT': lambda ps: np.abs(ps.prod(axis=0) - 0.5),
         })
 
-- 
2.43.0


From 736d5325e823cd3ca2784eb3e04a3bd23295c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 17/42] fix: the Dual Space Model drops points whose polytope
 label has changed

After a fallback to the flipped polytope it kept training on the old label.
---
 aideme/active_learning/dsm/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..f4056cd 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -67,10 +67,10 @@ class DualSpaceModelBase(ActiveLearner):
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
+        is_same = self.polytope_model.predict(self._dsm_labeled_cache.X) == self._dsm_labeled_cache.y
 
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
+        if not np.all(is_same):
+            self._dsm_labeled_cache.filter(is_same)
             self.__fit_active_learner(data)  # retrain AL since labeled changed
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -163,6 +163,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the training labels as numpy array
+        """
+        return np.array(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
-- 
2.43.0


From 5d857c87060ba8c43bf46cc5d5dc413c15d07f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 18/42] fix: LinearFactorizationLearner.copy works with
 proximal optimizers

The copy was built without the penalty term they need, so pruning such a model failed.
---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..2508069 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From ca450726d7962a819e5d637254f6a3b77d9f365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 19/42] fix: models without a bias can be pruned

---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From 7e1ef401f6047e0d0f1f33d5ece2e68ce7717b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 20/42] fix: put the computed factorization in the order of the
 user's subspaces

The inverse permutation was applied, which differs for three subspaces or more.
---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..91d803f 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -253,7 +253,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[j] for j in range(len(inv_mapping))]
 
         return True
 
-- 
2.43.0


From 88da5e20d4e3a60cddcbeb3a2552992b9e0f8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 21/42] fix: keep the order of the user's subspaces, which is
 that of the partial labels

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 91d803f..7b90f24 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -208,7 +208,7 @@ class FactorizationManager:
 
     def set_user_fact(self, user_fact):
         if user_fact is not None:
-            user_fact = sorted([sorted(s) for s in user_fact])
+            user_fact = [sorted(s) for s in user_fact]  # keep the order of subspaces: partial labels have the same
         self._user_fact = user_fact
 
     def clear(self) -> None:
-- 
2.43.0


From 558a05b1f7b205cc0972b8c1f43df4c2a3f0ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 22/42] fix: Inference looks partial labels up by the values of
 each subspace

Arrays are not hashable, so every update failed; and predict_partial had mixed up
the subspaces with their columns.
---
 aideme/active_learning/inference/inference.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/inference/inference.py b/aideme/active_learning/inference/inference.py
index fe9ec12..3faf4a3 100644
--- a/aideme/active_learning/inference/inference.py
+++ b/aideme/active_learning/inference/inference.py
@@ -43,10 +43,10 @@ class Inference:
         return self.predict_partial(X).min(axis=1)
 
     def predict_partial(self, X: np.ndarray) -> np.ndarray:
-        return np.hstack([subspace.predict(X[:, p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]).T
+        return np.array([self._predict_single(x) for x in np.atleast_2d(X)])
 
     def _predict_single(self, x: np.ndarray):
-        return [subspace._predict_single(x[p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]
+        return [subspace._predict_single(tuple(x[p])) for (p, subspace) in zip(self.partition, self._subspatial_inference)]
 
     def update(self, X: np.ndarray, y: np.ndarray) -> None:
         X = np.atleast_2d(X)
@@ -61,7 +61,7 @@ class Inference:
         # for positive points, we infer all partial labels as positive (conjunctive property)
         if y == 1:
             for p, subspace in zip(self.partition, self._subspatial_inference):
-                subspace._update_single(x[p], 1)
+                subspace._update_single(tuple(x[p]), 1)
 
             self.__attempt_to_remove_neg_samples()
 
@@ -109,7 +109,7 @@ class Inference:
         idx_unknown, n_unknown = -1, 0
 
         for i, (p, subspace) in enumerate(zip(self.partition, self._subspatial_inference)):
-            y_partial = subspace._predict_single(x[p])
+            y_partial = subspace._predict_single(tuple(x[p]))
 
             if y_partial == 0:
                 return True, True
@@ -120,7 +120,7 @@ class Inference:
 
         if n_unknown == 1:
             # a single unknown partition remains, so its partial label must be negative
-            self._subspatial_inference[idx_unknown]._update_single(x[self.partition[idx_unknown]], 0)
+            self._subspatial_inference[idx_unknown]._update_single(tuple(x[self.partition[idx_unknown]]), 0)
             return True, False
 
         if n_unknown == 0:
-- 
2.43.0


From 9ddfddd070120cfc697ebc8f39ce995769e24821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 23/42] fix: Inference.update notices a value which is both
 positive and negative

CategoricalPolytope only checked for it in its own update().
---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 8da5d45..a4da4f7 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -275,6 +275,9 @@ class CategoricalPolytope(PolytopeBase):
         else:
             self._neg_classes.add(pt)
 
+        if pt in self._pos_classes and pt in self._neg_classes:
+            self.__is_valid = False
+
 
 class MultiSetPolytope(PolytopeBase):
     def __init__(self):
-- 
2.43.0


From aab8616c95f369aea4de171d9aadea35b0b962fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 24/42] fix: RatioMargin reads the classes from its fitted
 model, not from the unfitted clone

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 1521366bf4ad57968586ce22a0105634f5ea4928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 25/42] fix: LinearFactorizationLearner accepts proximal
 optimizers

add_bias was read before it was set.
---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 2508069..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From 4d2966acb9f93801e7c18d64da9af8ed1b7ff787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 26/42] fix: SwapLearner restores the iteration limit of an
 optimizer shared with the swap model

---
 aideme/active_learning/factorization/active_learning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 7b90f24..e076f1c 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -152,9 +152,12 @@ class SwapLearner(ActiveLearner):
 
     def __fit_refining_model(self, data: PartitionedDataset) -> None:
         X, y = data.training_set()
+        optimizer = self._refining_model.optimizer
+        max_iter = optimizer._max_iter
         if self._max_iter_adapter is not None:
-            self._refining_model.optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
+            optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
         self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
+        optimizer._max_iter = max_iter  # the optimizer may be shared with the swap model
 
         if self._prune:
             self._refining_model = prune_irrelevant_subspaces(data.data, self._refining_model, threshold=self._prune_threshold)
-- 
2.43.0


From 20b36dcc08090e8b4c7c23f24240a0b9e5dea92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 27/42] fix: penalties do not read uninitialized memory for
 zero rows

---
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..c7bb1df 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,20 +89,20 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
         norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
+        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
         factor = np.maximum(0, 1 - factor)
         return x * factor.reshape(-1, 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
+        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
         u = np.linalg.norm(v - self._penalty * n, axis=1)
         u[~not_zero.ravel()] -= self._penalty
         return np.all(u <= tol)
@@ -156,7 +156,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From b346f1c14d8b821fb713fec3690b45f8dd062605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 28/42] fix: copies of a convex cone keep its vertex

---
 aideme/active_learning/dsm/convex/convex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..1e8cfb3 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -33,7 +33,7 @@ class ConvexHull:
         of "vertices" composing the convex hull.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],  # cones rely on their vertex being the first point
             'tol': self.tol
         }
 
-- 
2.43.0


From 1500398ae9933fa0fc731c1cf05c4df770398696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 29/42] fix: hulls survive failures of the incremental
 construction

---
 aideme/active_learning/dsm/convex/convex.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 1e8cfb3..9442b98 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -66,7 +66,12 @@ class ConvexHull:
         :param points: list of points to be added to the convex hull
         """
         points = np.atleast_2d(points)
-        self.hull.add_points(points)
+        all_points = np.vstack([self.hull.points, points])
+
+        try:
+            self.hull.add_points(points)
+        except scipy.spatial.QhullError:  # the incremental construction may fail on degenerate data: start over
+            self.__set_params(all_points, self.tol)
 
     def is_inside(self, points):
         """
-- 
2.43.0


From e7c02ba41fa55d849ec0904b72814ae038e77c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 30/42] fix: Inference keeps its own copy of undecided negative
 points

---
 aideme/active_learning/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/inference/inference.py b/aideme/active_learning/inference/inference.py
index 3faf4a3..919cf0f 100644
--- a/aideme/active_learning/inference/inference.py
+++ b/aideme/active_learning/inference/inference.py
@@ -70,7 +70,7 @@ class Inference:
 
             if not is_negative:
                 # if point's final label cannot be inferred from known labels, add it to neg point cache
-                self._negative_point_cache.append(x)
+                self._negative_point_cache.append(np.copy(x))
 
             elif not has_negative_partial_labels:
                 # when a new negative label is inferred, we can possibly remove some points from the cache
-- 
2.43.0


From c65548463f5396ede89d31aadd280f3ef74b099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 31/42] fix: hit-and-run starts from a new ellipsoid when the
 dimension changes by more than one

---
 aideme/active_learning/version_space/hit_and_run/hit_and_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index 25fb756..c72dd3e 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -125,7 +125,7 @@ class HitAndRunSampler:
 
         if new_dim != d + 1:
             # TODO: is it possible to perform more general updates?
-            raise RuntimeError("Only +1 updates are supported.")
+            return None  # start from a new ellipsoid
 
         # kernel case: dimension grows with number of labeled points
         elp = Ellipsoid(new_dim, compute_scale_matrix=False)
-- 
2.43.0


From 184d2bf69ef6860deca4b505401ba56105712231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 32/42] fix: hit-and-run does not start on the boundary of the
 unit ball

---
 aideme/active_learning/version_space/hit_and_run/hit_and_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index c72dd3e..50509d9 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -95,7 +95,7 @@ class HitAndRunSampler:
 
     def __get_starting_point(self, version_space: BoundedPolyhedralCone, ellipsoid: Optional[Ellipsoid]) -> np.ndarray:
         if ellipsoid and version_space.is_inside_polytope(ellipsoid.center):
-            return ellipsoid.center / np.linalg.norm(ellipsoid.center)
+            return (0.99 / np.linalg.norm(ellipsoid.center)) * ellipsoid.center  # not on the boundary of the unit ball
 
         if self.cache and self.samples.shape[0] > 0:
             samples = self.__truncate_samples(version_space.dim)
-- 
2.43.0


From 586816de0b243df16a31a98ba8212c0c03b54f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 33/42] fix: SimplifiedSwapLearner does not change the default
 parameters of later ones

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index e076f1c..bff2f10 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -301,7 +301,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = {**params, 'step_size': refine_step_size}
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From 58009c1b72e47c338957cdbe1a3ecadeae3709c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 34/42] fix: predicted probabilities are those of the positive
 class with scikit-learn's classifiers

---
 aideme/active_learning/active_learner.py        | 15 +++++++++++++++
 aideme/active_learning/query_by_disagreement.py |  4 ++--
 aideme/active_learning/random.py                |  4 ++--
 aideme/active_learning/uncertainty.py           |  4 ++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/active_learner.py b/aideme/active_learning/active_learner.py
index 8ad1243..1e3c72b 100644
--- a/aideme/active_learning/active_learner.py
+++ b/aideme/active_learning/active_learner.py
@@ -23,6 +23,21 @@ if TYPE_CHECKING:
     from aideme.explore.partitioned import IndexedDataset
 
 
+def positive_class_proba(clf: Any, X: np.ndarray) -> np.ndarray:
+    """
+    :param clf: a trained classifier
+    :param X: data matrix
+    :return: probability of the positive class. Scikit-learn's classifiers return a matrix instead, with one column per class.
+    """
+    proba = clf.predict_proba(X)
+
+    if np.ndim(proba) < 2:
+        return proba
+
+    classes = list(clf.classes_)
+    return proba[:, classes.index(1)] if 1 in classes else np.zeros(len(X))
+
+
 class ActiveLearner:
     """
     Pool-based Active Learning base class. It performs two main tasks:
diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index fa2bdd8..2b93911 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -13,7 +13,7 @@
 import numpy as np
 import sklearn
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 from ..utils import assert_positive, assert_positive_integer
 
 
@@ -51,7 +51,7 @@ class QueryByDisagreement(ActiveLearner):
         return self._learner.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._learner.predict_proba(X)
+        return positive_class_proba(self._learner, X)
 
     def rank(self, X: np.ndarray) -> np.ndarray:
         """ Pick a random point for which the positively and negatively biased classifiers differ. """
diff --git a/aideme/active_learning/random.py b/aideme/active_learning/random.py
index 617d14f..b70031e 100644
--- a/aideme/active_learning/random.py
+++ b/aideme/active_learning/random.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 from aideme.utils import assert_positive_integer
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 if TYPE_CHECKING:
     import numpy as np
@@ -47,7 +47,7 @@ class RandomSampler(ActiveLearner):
         return self._clf.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._clf.predict_proba(X)
+        return positive_class_proba(self._clf, X)
 
     def _select_next(self, dataset: IndexedDataset) -> IndexedDataset:
         return dataset.sample(self._batch_size)
diff --git a/aideme/active_learning/uncertainty.py b/aideme/active_learning/uncertainty.py
index 633edaa..70ddf09 100644
--- a/aideme/active_learning/uncertainty.py
+++ b/aideme/active_learning/uncertainty.py
@@ -13,7 +13,7 @@
 
 import numpy as np
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 
 class UncertaintySampler(ActiveLearner):
@@ -40,7 +40,7 @@ class UncertaintySampler(ActiveLearner):
         return self.clf.predict(X)
 
     def predict_proba(self, X):
-        return self.clf.predict_proba(X)
+        return positive_class_proba(self.clf, X)
 
     def rank(self, X):
         return np.abs(self.predict_proba(X) - 0.5)
-- 
2.43.0


From 9bfa2f854e289137eccf5f251df84c8fbcf8ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 35/42] fix: kernel version space no longer mislabels labeled
 points for a rounding error below zero

---
 aideme/active_learning/version_space/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index f483650..bec5853 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -70,6 +70,7 @@ class KernelBayesianLogisticRegression:
             scipy.linalg.solve_triangular(self.__L_train, K.T, lower=True, trans=0, overwrite_b=True)  # inplace L^-1 K
 
             delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)
+            np.maximum(delta, 0, out=delta)  # rounding errors: zero for labeled points
             np.sqrt(delta, out=delta)
 
             K = np.c_[K, delta]  # TODO: how to avoid copying data?
-- 
2.43.0


From db80ca7ef99549cf3fab3cc8fae68da7d60ffe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 36/42] fix: group penalties take their groups into account in
 the proximal operator and optimality test

---
 .../active_learning/factorization/penalty.py  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index c7bb1df..f3b61ef 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -94,12 +94,23 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = x.copy()
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
+        ungrouped = np.full(x.shape[1], True)
+        for g in self.groups:
+            ungrouped[g] = False
+            if not self.__is_group_subgradient(v[:, g], x[:, g], tol):
+                return False
+        return np.all(np.abs(v[:, ungrouped]) <= tol)
+
+    def __is_group_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
         n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
@@ -153,15 +164,16 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
         n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-        v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        # distance of v to the subgradients of the L1 term at zero
+        u = self.l1_penalty.proximal(v[~not_zero], 1)
+        return np.all(np.linalg.norm(u, axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From 3b1d5820091eeb6f38385078d412584a1121dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 37/42] fix: L2 penalty recognizes its gradient when trained by
 proximal gradient descent

---
 aideme/active_learning/factorization/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index f3b61ef..8c6c654 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -187,7 +187,7 @@ class L2Penalty(PenaltyTerm):
         return x / (2 * eta * self._penalty + 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        return np.linalg.norm(self.grad(x) - v) <= tol
+        return np.linalg.norm(2 * self._penalty * x - v) <= tol
 
 
 class InteractionPenalty(PenaltyTerm):
-- 
2.43.0


From 84d8171880570eee24c99171705981795053e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 38/42] fix: factorized kernels can be trained, with Nystroem
 components exceeding the points, too

---
 aideme/active_learning/kernel.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index e11d485..9de7235 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,13 +297,15 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        return self.__stack([t.transform(X[:, subspace]) for t, subspace in zip(self._transformers, self._factorization)])
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
+        return self.__stack([t.fit_transform(X[:, subspace]) for t, subspace in zip(self._transformers, self._factorization)])
+
+    @staticmethod
+    def __stack(matrices: List[np.ndarray]) -> np.ndarray:
+        # sizes are known only once the transformers have been fit: Nystroem may return fewer components than requested
+        K = np.empty(matrices[0].shape + (len(matrices),))
+        for k, matrix in enumerate(matrices):
+            K[:, :, k] = matrix
         return K
-- 
2.43.0


From 1532ed8b85079c2e6ff14360c29c9ff5e5f9935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 39/42] fix: Nystroem kernels accept the kernel names of the
 exact ones

---
 aideme/active_learning/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 9de7235..f7a4f69 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -258,6 +258,9 @@ class KernelTransformerWrapper(KernelTransformer):
 
 class NystroemTransformer(KernelTransformer):
     def __init__(self, n_components: int = 100, kernel: str = 'rbf', degree: int = 3, gamma: Optional[float] = None, coef0: float = 1):
+        kernel = kernel.lower()
+        if kernel == 'gaussian':
+            kernel = 'rbf'  # sklearn knows it under this name only
         self.nystroem = Nystroem(n_components=n_components, kernel=kernel, degree=degree, gamma=gamma, coef0=coef0)
 
     @property
-- 
2.43.0


From e07e97a40b7fccd18e4bf844c6fd79d7562e6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 40/42] fix: Laplace approximation uses the whole Cholesky
 factor of the Hessian

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 301b7090a7b63172db3b237995bb13e5e65f8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 41/42] fix: BFGS takes starting points of any shape

---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From 95b562d3bb68284dab6d25673eca122f6ee526eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 42/42] fix: kernel Laplace approximation takes the variance of
 points from the kernel's diagonal, which is one for the gaussian kernel only

---
 .../version_space/bayesian/laplace.py              | 14 ++++++++------
 aideme/active_learning/version_space/kernel.py     |  7 +++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 05f4d3b..506480b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -64,15 +64,15 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = None
         self._L = None
 
-    def predict(self, X: np.ndarray) -> np.ndarray:
-        return (self.predict_proba(X) > 0.5).astype('float')
+    def predict(self, X: np.ndarray, **params) -> np.ndarray:
+        return (self.predict_proba(X, **params) > 0.5).astype('float')
 
-    def predict_proba(self, X: np.ndarray) -> np.ndarray:
+    def predict_proba(self, X: np.ndarray, **params) -> np.ndarray:
         X = self.__add_intercept(X)
 
         mu = X.dot(self._mean)
 
-        var = self._compute_variance(X)
+        var = self._compute_variance(X, **params)
         var += self.GAUSSIAN_CDF_APPROX_FACTOR
 
         return self._standard_normal_dist.cdf(mu / np.sqrt(var))
@@ -146,13 +146,15 @@ class LaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionBase):
 
 
 class KernelLaplaceBayesianLogisticRegression(LaplaceBayesianLogisticRegressionBase):
+    needs_diagonal = True  # predictions also take the diagonal k(x, x) of the kernel over the points: one for the gaussian kernel only
+
     def __init__(self, prior_std: float = 1.0, tol: float = 1e-6, max_iter: int = 10000):
         super().__init__(prior='gaussian', prior_std=prior_std, add_intercept=False, tol=tol, max_iter=max_iter)
 
-    def _compute_variance(self, K_test: np.ndarray) -> np.ndarray:
+    def _compute_variance(self, K_test: np.ndarray, diagonal: np.ndarray = 1.) -> np.ndarray:
         inner = solve_triangular(self._L, (K_test * self.C).T, lower=True, trans=0)
         inner = np.square(inner).sum(axis=0)
-        var = (1 - inner) / self._info
+        var = (diagonal - inner) / self._info
         return var
 
     def _compute_map_estimator(self, K, y):
diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index bec5853..b1a9910 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -55,13 +55,16 @@ class KernelBayesianLogisticRegression:
         self.__X_train = X
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-        return self.__logreg.predict(self.__get_kernel_matrix(X))
+        return self.__logreg.predict(self.__get_kernel_matrix(X), **self.__get_diagonal(X))
 
     def predict_all(self, X: np.ndarray) -> np.ndarray:
         return self.__logreg._likelihood(self.__get_kernel_matrix(X))
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self.__logreg.predict_proba(self.__get_kernel_matrix(X))
+        return self.__logreg.predict_proba(self.__get_kernel_matrix(X), **self.__get_diagonal(X))
+
+    def __get_diagonal(self, X: np.ndarray) -> dict:
+        return {'diagonal': self.kernel.diagonal(X)} if getattr(self.__logreg, 'needs_diagonal', False) else {}
 
     def __get_kernel_matrix(self, X: np.ndarray) -> np.ndarray:
         K = self.kernel(X, self.__X_train)
-- 
2.43.0

