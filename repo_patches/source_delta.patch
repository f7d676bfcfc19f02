From 3f4fbfc6d5d00b0276ef4bd0dacf670b47a69eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 001/145] fix: keep duplicates in the same front in the
 tree-based non-dominated sort

---
 pymoo/functions/standard/non_dominated_sorting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..f4f754a 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -360,6 +360,9 @@ def tree_based_non_dominated_sort(F):
     Returns:
         List of fronts.
     """
+    # the tree can only hold distinct points, duplicates share the front of their representative
+    F, inverse = np.unique(F, axis=0, return_inverse=True)
+    inverse = inverse.reshape(-1)
     N, M = F.shape
     # sort the rows in F
     indices = np.lexsort(F.T[::-1])
@@ -382,7 +385,8 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        unique = [indices[node.key] for node in tree.traversal()]
+        fronts[k].extend(np.where(np.isin(inverse, unique))[0])
     return fronts
 
 
-- 
2.43.0


From dcc3855ca6d5487f49576cca91f371e72f0704cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 002/145] fix: handle ties and duplicates in the native
 bi-objective non-dominated sort

---
 .../standard/non_dominated_sorting.py         | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index f4f754a..0f9360b 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending (ties are broken by the second one)
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -116,8 +116,8 @@ def _fast_biobjective_nondominated_sort(F):
         current_front = []
         current_indices = []
 
-        # Track the minimum second objective seen in the current front
-        min_second_obj = float("inf")
+        # Track the point with the minimum second objective seen in the current front
+        min_first_obj, min_second_obj = float("inf"), float("inf")
 
         for i in range(n_points):
             if assigned[i]:
@@ -126,9 +126,11 @@ def _fast_biobjective_nondominated_sort(F):
             # Check if current point is dominated by any point in current front
             is_dominated = False
             if current_indices:  # If there are already points in the current front
-                # Since points are sorted by first objective, we only need to check
-                # if its second objective is greater than the minimum second objective in front
-                if sorted_F[i, 1] >= min_second_obj:
+                # Since points are sorted by first objective, we only need to compare with the point
+                # having the minimum second objective in the front (which might be a duplicate)
+                if sorted_F[i, 1] > min_second_obj:
+                    is_dominated = True
+                elif sorted_F[i, 1] == min_second_obj and sorted_F[i, 0] > min_first_obj:
                     is_dominated = True
 
             if not is_dominated:
@@ -137,8 +139,9 @@ def _fast_biobjective_nondominated_sort(F):
                 current_indices.append(i)
                 assigned[i] = True
                 n_assigned += 1
-                # Update the minimum second objective
-                min_second_obj = min(min_second_obj, sorted_F[i, 1])
+                # Update the point with the minimum second objective
+                if len(current_indices) == 1 or sorted_F[i, 1] < min_second_obj:
+                    min_first_obj, min_second_obj = sorted_F[i]
 
         if current_front:
             fronts.append(current_front)
-- 
2.43.0


From be18ee41d833f77ff8068fb9ef64012f89706481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 003/145] fix: respect n_fronts when sorting with a custom
 dominator

---
 pymoo/util/nds/non_dominated_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 2071ba4..8b2888d 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -54,7 +54,7 @@ class NonDominatedSorting:
             raw = fast_non_dominated_sort(F, dominator=self.dominator, **kwargs)
             fronts = []
             n_ranked = 0
-            for front in raw:
+            for front in raw[:n_fronts]:
                 fronts.append(np.array(front, dtype=int))
                 n_ranked += len(front)
                 if n_ranked >= n_stop_if_ranked:
-- 
2.43.0


From fcb12671c14f5ad430267b0b609bad91e64bbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 004/145] fix: ties and duplicates in the compiled fast best
 order sort (and read past the end)

---
 .../compiled/non_dominated_sorting.pyx        | 21 +++++--------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/pymoo/functions/compiled/non_dominated_sorting.pyx b/pymoo/functions/compiled/non_dominated_sorting.pyx
index b30cc2b..43d34f8 100644
--- a/pymoo/functions/compiled/non_dominated_sorting.pyx
+++ b/pymoo/functions/compiled/non_dominated_sorting.pyx
@@ -256,8 +256,8 @@ cdef vector[vector[int]] c_best_order_sort(double[:,:] F):
 cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     cdef:
-        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z, s_next
-        vector[int] rank, counter, check_if_equal
+        int n_points, n_obj, n_fronts, n_ranked, i, j, s, e, l, z
+        vector[int] rank, counter
         int[:,:] Q
         bool is_dominated
         vector[vector[int]] fronts, empty ,C
@@ -270,8 +270,9 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
     _Q = np.zeros((n_points, n_obj), dtype=np.intc)
     _Q[:, 0] = np.lexsort(F[:, ::-1].T, axis=0)
+    order = np.argsort(_Q[:, 0])
     for j in range(1, n_obj):
-        _Q[:, j] = np.lexsort(np.vstack([_Q[:, 0], F[:, j]]), axis=0)
+        _Q[:, j] = np.lexsort(np.vstack([order, F[:, j]]), axis=0)
     Q = _Q[:,:]
 
 
@@ -286,10 +287,6 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
             counter[s] += 1
     counter = vector[int](n_points)
 
-    check_if_equal = vector[int]()
-    for j in range(n_points):
-        check_if_equal.push_back(-1)
-
     rank = vector[int]()
     for i in range(n_points):
         rank.push_back(-1)
@@ -310,18 +307,10 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
 
             # index of the current solution
             s = Q[i, j]
-            s_next = Q[i + 1, j]
 
             # increase the counter for comparing this objective
             counter[s] += 1
 
-            # if not the last solution
-            if i < n_points - 1:
-                if check_if_equal[s] == -1:
-                    check_if_equal[s] = s_next
-                elif check_if_equal[s] != s_next:
-                    check_if_equal[s] = -2
-
             # if solution was already ranked before - just append it to the corresponding front
             if rank[s] != -1:
                 L[j][rank[s]].push_back(s)
@@ -345,7 +334,7 @@ cdef vector[vector[int]] c_fast_best_order_sort(double[:,:] F):
                         # get the domination relation - might return true even if equal
                         is_dominated = c_is_dominating_or_equal(F, e, s, C, counter[s])
 
-                        if is_dominated and check_if_equal[e] == s:
+                        if is_dominated:
                             is_equal = c_is_equal(F, s, e)
 
                         # if just one solution dominates the current one - go to the next front
-- 
2.43.0


From 5aec573d16783d24d4c1a2dcf9766e355753f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 005/145] fix: report the values of the optimum that is
 returned when nothing feasible was found

---
 pymoo/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..105aa4b 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -284,7 +284,7 @@ class Algorithm:
 
         # otherwise get the values from the population
         else:
-            X, F, CV, G, H = self.opt.get("X", "F", "CV", "G", "H")  # type: ignore
+            X, F, CV, G, H = opt.get("X", "F", "CV", "G", "H")  # type: ignore
 
             # if single-objective problem and only one solution was found - create a 1d array
             if self.problem.n_obj == 1 and len(X) == 1:  # type: ignore
-- 
2.43.0


From 2df180f858a6c4c318b4789c8527ad1057505409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 006/145] fix: NicheGA must not report infeasible solutions
 next to feasible ones

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..dd067d3 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -17,6 +17,7 @@ from pymoo.termination.xtol import DesignSpaceTermination
 from pymoo.util.clearing import EpsilonClearing
 from pymoo.util.display.column import Column
 from pymoo.util.display.single import SingleObjectiveOutput
+from pymoo.util.optimum import filter_optimum
 from pymoo.util.misc import norm_eucl_dist
 
 
@@ -228,7 +229,9 @@ class NicheGA(GA):
 
     def _set_optimum(self, **kwargs):
         if self.return_all_opt:
-            self.opt = self.pop[self.pop.get("iter") == 1]
+            opt = self.pop[self.pop.get("iter") == 1]
+            feas = opt.get("FEAS")[:, 0]
+            self.opt = opt[feas] if np.any(feas) else filter_optimum(opt, least_infeasible=True)
         else:
             super()._set_optimum()
 
-- 
2.43.0


From 6cc78b4418cc8b947ab03823bc017619ece5c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 007/145] fix: CTAEA must report feasible solutions if the
 population has any

---
 pymoo/algorithms/moo/ctaea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 9eb6b73..f3fee07 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -19,6 +19,7 @@ from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.dominator import Dominator
 from pymoo.util.misc import has_feasible, random_permutations
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
+from pymoo.util.optimum import filter_optimum
 
 
 # =========================================================================================================
@@ -327,7 +328,8 @@ class CTAEA(GeneticAlgorithm):
         if not has_feasible(self.pop):
             self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
         else:
-            self.opt = self.survival.opt
+            # the survival ranks by objectives only - infeasible solutions must not be part of the optimum
+            self.opt = filter_optimum(self.pop)
 
 
 parse_doc_string(CTAEA.__init__)
-- 
2.43.0


From 2115fda8697b9dde1f68ae4ae94d1c78483c8988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 008/145] fix: RVEA must not report infeasible members of the
 population next to feasible ones

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..20a357d 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -100,7 +100,7 @@ class RVEA(GeneticAlgorithm):
         if not has_feasible(self.pop):
             self.opt = self.pop[[np.argmin(self.pop.get("CV"))]]
         else:
-            self.opt = self.pop
+            self.opt = self.pop[self.pop.get("feas")]
 
 
 # ---------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 73dded7f457d90e98351132d6f1b2468970902f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 009/145] fix: MOPSO-CD archive must prefer feasible solutions

---
 pymoo/algorithms/moo/mopso_cd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..08676a8 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -173,6 +173,10 @@ class MOPSO_CD(Algorithm):
         else:
             combined = pop
 
+        # Feasible solutions first, otherwise only the least infeasible ones
+        feas, CV = combined.get("FEAS")[:, 0], combined.get("CV")[:, 0]
+        combined = combined[feas] if np.any(feas) else combined[CV == CV.min()]
+
         # Find non-dominated solutions
         F = combined.get("F")
         I = self.nds.do(F, only_non_dominated_front=True)  # noqa: E741
-- 
2.43.0


From 8d6ba31aa45f34cba65f2d9d7de3949f90318da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 010/145] fix: AGE-MOEA-II division by zero if a point
 coincides with the ideal point

---
 pymoo/algorithms/moo/age2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/moo/age2.py b/pymoo/algorithms/moo/age2.py
index 373c6d9..3da345f 100644
--- a/pymoo/algorithms/moo/age2.py
+++ b/pymoo/algorithms/moo/age2.py
@@ -73,6 +73,9 @@ class AGEMOEA2(GeneticAlgorithm):
 @jit(nopython=True, fastmath=True)
 def project_on_manifold(point, p):
     dist = np.sum(point[point > 0] ** p) ** (1 / p)
+    # the origin (e.g. all solutions of the front are equal) can not be projected
+    if dist == 0.0:
+        return point
     return np.multiply(point, 1 / dist)
 
 
-- 
2.43.0


From c6d0131a9d6c19b72260f682ca2f1da419808699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 011/145] fix: compiled 2-nearest-neighbor crowding fails if
 only two distinct points are left

---
 pymoo/functions/compiled/mnn.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 1f754cd..960e994 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -68,6 +68,9 @@ def calc_2nn(double[:, :] X, int n_remove=0):
     N = X.shape[0]
     M = X.shape[1]
 
+    if N <= M or N <= 2:
+        return np.full(N, HUGE_VAL)
+
     if n_remove <= (N - M):
         if n_remove < 0:
             n_remove = 0
-- 
2.43.0


From ec0783c252c486b715e5cfbdc59808cc2b4b1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 012/145] fix: Nelder-Mead must sort the initial simplex before
 the first step

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..45764d8 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -145,7 +145,8 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            simplex = yield self._initialize_simplex()
+            self.pop = FitnessSurvival().do(self.problem, simplex, n_survive=len(simplex))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From 7c49c87e048df61ec58f77c3988112d0957b9e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 013/145] fix: SPEA2 survival must not degenerate to nan if an
 objective is constant

---
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..60c695d 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -71,7 +71,11 @@ class SPEA2Survival(Survival):
 
             ideal, nadir = self.norm.ideal_point, self.norm.nadir_point
 
-            _F = (F - ideal) / (nadir - ideal)
+            # an objective where all solutions agree must not turn the distances into nan
+            norm = nadir - ideal
+            norm[norm == 0] = 1.0
+
+            _F = (F - ideal) / norm
             dists = vectorized_cdist(_F, _F, fill_diag_with_inf=True)
 
         # if no normalize is required simply use the F values from the population
-- 
2.43.0


From c62193657748bf7474dc34ac51826a7c34cd5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 014/145] fix: compiled pruning crowding distance read out of
 bounds for ties at an extreme and overwrote its input

---
 pymoo/functions/compiled/pruning_cd.pyx | 12 ++++++++++--
 pymoo/functions/compiled/utils.pxd      |  9 ++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pymoo/functions/compiled/pruning_cd.pyx b/pymoo/functions/compiled/pruning_cd.pyx
index fb7c1b7..e644d70 100644
--- a/pymoo/functions/compiled/pruning_cd.pyx
+++ b/pymoo/functions/compiled/pruning_cd.pyx
@@ -149,6 +149,12 @@ cdef c_calc_pcd_iter(
 
                 if i == I[n, m]:
 
+                    # the first and last solution have only one neighbor (it is an extreme because of a tie) -
+                    # after a removal the last solution is repeated until the end of the sorted array
+                    if n == 0 or n == N - 1 or I[n + 1, m] == i:
+                        D[i, m] = HUGE_VAL
+                        break
+
                     l = I[n - 1, m]
                     u = I[n + 1, m]
 
@@ -188,8 +194,10 @@ cdef cpp_set[int] c_get_calc_items(
             if I[n, m] == k:
 
                 # Add to set of items to be recalculated
-                calc_items.insert(I[n - 1, m])
-                calc_items.insert(I[n + 1, m])
+                if n > 0:
+                    calc_items.insert(I[n - 1, m])
+                if n < N - 1:
+                    calc_items.insert(I[n + 1, m])
 
                 # Remove element from sorted array
                 I[n:-1, m] = I[n + 1:, m]
diff --git a/pymoo/functions/compiled/utils.pxd b/pymoo/functions/compiled/utils.pxd
index 303807c..4a99594 100644
--- a/pymoo/functions/compiled/utils.pxd
+++ b/pymoo/functions/compiled/utils.pxd
@@ -91,7 +91,7 @@ cdef inline vector[int] c_get_argmax(double[:, :] X):
     return indexes
 
 
-# Performs normalization of a 2d memoryview
+# Performs normalization of a 2d memoryview (the array passed is not modified)
 cdef inline double[:, :] c_normalize_array(double[:, :] X, vector[int] extremes_max, vector[int] extremes_min):
 
     cdef:
@@ -100,6 +100,9 @@ cdef inline double[:, :] c_normalize_array(double[:, :] X, vector[int] extremes_
         int n, m, l, u
         double l_val, u_val, diff_val
         vector[double] min_vals, max_vals
+        double[:, :] _X
+
+    _X = np.empty((N, M), dtype=np.double)
 
     min_vals = vector[double]()
     max_vals = vector[double]()
@@ -124,6 +127,6 @@ cdef inline double[:, :] c_normalize_array(double[:, :] X, vector[int] extremes_
 
         for n in range(N):
 
-            X[n, m] = (X[n, m] - min_vals[m]) / diff_val
+            _X[n, m] = (X[n, m] - min_vals[m]) / diff_val
 
-    return X
+    return _X
-- 
2.43.0


From 56ed43636351c1c040f3f9c692ff128058212b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 015/145] fix: compiled M-nearest-neighbor metric counted a
 tied neighbor twice after a removal

---
 pymoo/functions/compiled/mnn.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymoo/functions/compiled/mnn.pyx b/pymoo/functions/compiled/mnn.pyx
index 960e994..22e05ce 100644
--- a/pymoo/functions/compiled/mnn.pyx
+++ b/pymoo/functions/compiled/mnn.pyx
@@ -198,6 +198,7 @@ cdef c_calc_mnn_iter(
 
     cdef:
         int i, j, m
+        bool is_neighbor
 
     # Iterate over items to calculate
     for i in calc_items:
@@ -209,6 +210,15 @@ cdef c_calc_mnn_iter(
             if (j == i):
                 continue
 
+            # Go to next if already a neighbor (otherwise it is added twice in case of a tie)
+            is_neighbor = False
+            for m in range(M):
+                if (Mnn[i, m] == j):
+                    is_neighbor = True
+
+            if is_neighbor:
+                continue
+
             # Replace at least the last neighbor
             elif (D[i, j] <= D[i, Mnn[i, M-1]]) or (Mnn[i, M-1] == -1):
 
-- 
2.43.0


From 5866ffcaca64e1236358b56bb547616bb58fad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 016/145] fix: python M-nearest-neighbor metric must not be nan
 if an objective is constant

---
 pymoo/functions/standard/mnn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/functions/standard/mnn.py b/pymoo/functions/standard/mnn.py
index 5c206ea..73e0ddc 100644
--- a/pymoo/functions/standard/mnn.py
+++ b/pymoo/functions/standard/mnn.py
@@ -66,7 +66,10 @@ def calc_mnn_base(X, n_remove=0, twonn=False):
 
     extremes = np.concatenate((extremes_min, extremes_max))
 
-    X = (X - min_vals) / (max_vals - min_vals)
+    norm = max_vals - min_vals
+    norm[norm == 0] = 1.0
+
+    X = (X - min_vals) / norm
 
     H = np.arange(N)
 
-- 
2.43.0


From ef9a3941bc8c79843b37ef8449b310956c5a2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 017/145] fix: setting constraint values discards the cached
 constraint violation

---
 pymoo/core/individual.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..ab820f7 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -207,6 +207,9 @@ class Individual:
         """
         self._G = value
 
+        # the cached constraint violation belongs to the previous values
+        self._CV = None
+
     @property
     def H(self) -> np.ndarray:
         """Get the equality constraint vector for an individual.
@@ -225,6 +228,9 @@ class Individual:
         """
         self._H = value
 
+        # the cached constraint violation belongs to the previous values
+        self._CV = None
+
     @property
     def CV(self) -> np.ndarray:
         """Get the constraint violation vector from cache or calculate it.
-- 
2.43.0


From 03cd5d4a645e54cbf47732eccc3bef2f0cfc50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 018/145] fix: count the evaluations of an algorithm with
 adaptive constraint handling

---
 pymoo/constraints/adaptive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..36a047f 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,7 +43,12 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
-        pop.apply(lambda ind: ind.set("config", self.config))
+
+        # the counter is kept by the wrapped evaluator
+        self.n_eval = self.wrapped.n_eval
+
+        for ind in [pop] if isinstance(pop, Individual) else pop:
+            ind.set("config", self.config)
         return pop
 
 
-- 
2.43.0


From 68c6ed15d73ec869d4e4532f473343224ba6c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 019/145] fix: evaluate a single assignment of a problem with
 explicit variables

---
 pymoo/core/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/problem.py b/pymoo/core/problem.py
index 9159435..9940592 100644
--- a/pymoo/core/problem.py
+++ b/pymoo/core/problem.py
@@ -189,6 +189,10 @@ class Problem:
         else:
             only_single_value = not (isinstance(X, list) or isinstance(X, np.ndarray))
 
+            # the evaluation always works with a collection of solutions
+            if only_single_value:
+                X = [X]
+
         # this is where the actual evaluation takes place
         _out = self.do(X, return_values_of, *args, **kwargs)
 
-- 
2.43.0


From 99aad109afbe2919d8b2fe6ed945944fabb12a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 020/145] fix: the joblib and ray runners can be copied and
 serialized

---
 pymoo/parallelization/joblib.py | 11 ++++++++++-
 pymoo/parallelization/ray.py    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..d92c186 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -24,4 +24,13 @@ class JoblibParallelization:
             return parallel(self.joblib.delayed(f)(x) for x in X)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can neither be copied nor serialized
+        state = self.__dict__.copy()
+        state.pop("joblib", None)
+        return state
+
+    def __setstate__(self, state):
+        import joblib
+
+        self.__dict__.update(state)
+        self.joblib = joblib
diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..32e6fa1 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -26,4 +26,13 @@ class RayParallelization:
         return self.ray.get(futures)
 
     def __getstate__(self):
-        return self.__dict__.copy()
+        # a module can neither be copied nor serialized
+        state = self.__dict__.copy()
+        state.pop("ray", None)
+        return state
+
+    def __setstate__(self, state):
+        import ray
+
+        self.__dict__.update(state)
+        self.ray = ray
-- 
2.43.0


From 01be79d2e18951ce2e9027a27cbdf74d8c158567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 021/145] fix: a termination passed to the constructor of an
 algorithm is not ignored

---
 pymoo/algorithms/base/local.py               | 3 ++-
 pymoo/algorithms/moo/mopso_cd.py             | 3 ++-
 pymoo/algorithms/moo/nsga2.py                | 3 ++-
 pymoo/algorithms/moo/omni.py                 | 3 ++-
 pymoo/algorithms/moo/pinsga2.py              | 3 ++-
 pymoo/algorithms/moo/spea2.py                | 3 ++-
 pymoo/algorithms/soo/nonconvex/brkga.py      | 3 ++-
 pymoo/algorithms/soo/nonconvex/cmaes.py      | 8 +++++---
 pymoo/algorithms/soo/nonconvex/de.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/es.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 3 ++-
 pymoo/algorithms/soo/nonconvex/nelder.py     | 3 ++-
 pymoo/algorithms/soo/nonconvex/pso_ep.py     | 3 ++-
 pymoo/algorithms/soo/univariate/exp.py       | 3 ++-
 15 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/pymoo/algorithms/base/local.py b/pymoo/algorithms/base/local.py
index bd2d147..e8c56c7 100644
--- a/pymoo/algorithms/base/local.py
+++ b/pymoo/algorithms/base/local.py
@@ -21,7 +21,8 @@ class LocalSearch(LoopwiseAlgorithm, Algorithm):
         super().__init__(output=output, **kwargs)
 
         # the default termination if not specified otherwise
-        self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
+        if kwargs.get("termination") is None:
+            self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
 
         # the type of initial sampling
         initial = initial if "x0" not in kwargs else kwargs["x0"]
diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 08676a8..50e1faa 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -58,7 +58,8 @@ class MOPSO_CD(Algorithm):
         self.sampling = sampling
 
         # Initialize termination if not provided
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
         # Initialize components
         self.nds = NonDominatedSorting()
diff --git a/pymoo/algorithms/moo/nsga2.py b/pymoo/algorithms/moo/nsga2.py
index 53b0b5b..70d9ec9 100644
--- a/pymoo/algorithms/moo/nsga2.py
+++ b/pymoo/algorithms/moo/nsga2.py
@@ -117,7 +117,8 @@ class NSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 80bc761..9d49e8f 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -424,7 +424,8 @@ class OmniOptimizer(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 207726f..df84e1a 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -80,7 +80,8 @@ class PINSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
         self.ranking_type = ranking_type
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 60c695d..6fe46a4 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -213,7 +213,8 @@ class SPEA2(GeneticAlgorithm):
             advance_after_initial_infill=True,
             **kwargs,
         )
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
 
 parse_doc_string(SPEA2.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..5feb9e7 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -126,7 +126,8 @@ class BRKGA(GeneticAlgorithm):
         self.n_elites = n_elites
         self.n_mutants = n_mutants
         self.bias = bias
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _infill(self):
         pop = self.pop
diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..3a23818 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -124,7 +124,8 @@ class CMAES(LocalSearch):
 
         super().__init__(x0=x0, output=output, **kwargs)
 
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
 
         self.es = None
         self.cma = None
@@ -148,7 +149,7 @@ class CMAES(LocalSearch):
             maxfevals=maxfevals,
             tolfun=tolfun,
             tolx=tolx,
-            **kwargs,
+            **{key: value for key, value in kwargs.items() if key != "termination"},
         )
 
         self.send_array_to_yield = True
@@ -246,7 +247,8 @@ class CMAES(LocalSearch):
 class SimpleCMAES(LocalSearch):
     def __init__(self, sigma=0.1, opts=None, normalize=True, **kwargs):
         super().__init__(**kwargs)
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
         self.es = None
         self.sigma = sigma
         self.normalize = normalize
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..239a368 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -266,7 +266,8 @@ class DE(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _initialize_advance(self, infills=None, **kwargs):
         FitnessSurvival().do(self.problem, self.pop, return_indices=True)
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..20d61ef 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -67,7 +67,8 @@ class ES(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.phi = phi
         self.gamma = gamma
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga.py b/pymoo/algorithms/soo/nonconvex/ga.py
index 595438a..76fa879 100644
--- a/pymoo/algorithms/soo/nonconvex/ga.py
+++ b/pymoo/algorithms/soo/nonconvex/ga.py
@@ -114,7 +114,8 @@ class GA(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
 
 class BGA(GA):
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index dd067d3..59a429b 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -222,7 +222,8 @@ class NicheGA(GA):
         )
 
         # self.termination = NicheTermination()
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # whether with rank one after clearing or just the best should be considered as optimal
         self.return_all_opt = return_all_opt
diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 45764d8..2e9f8b1 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -134,7 +134,8 @@ class NelderMead(LocalSearch):
         self.init_simplex_scale = init_simplex_scale
 
         # the termination used for nelder and mead if nothing else provided
-        self.termination = NelderAndMeadTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NelderAndMeadTermination()
 
     def _setup(self, problem, **kwargs):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..b7d986c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -206,7 +206,8 @@ class EPPSO(GeneticAlgorithm):
         self.neighbors = None
 
         # choose the single-objective default termination
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # the particles that fly around to find good solutions (pop is the pbest)
         self.swarm = None
diff --git a/pymoo/algorithms/soo/univariate/exp.py b/pymoo/algorithms/soo/univariate/exp.py
index 1407a1c..3705454 100644
--- a/pymoo/algorithms/soo/univariate/exp.py
+++ b/pymoo/algorithms/soo/univariate/exp.py
@@ -12,7 +12,8 @@ from pymoo.termination.default import DefaultSingleObjectiveTermination
 class ExponentialSearch(Algorithm):
     def __init__(self, delta=0.05, **kwargs):
         super().__init__(**kwargs)
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.alpha = delta
         self.point = None
 
-- 
2.43.0


From 98aff8a449a38e6d56f50380e5247dceb13a978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 022/145] fix: RVEA converts a budget of evaluations to too few
 iterations

---
 pymoo/algorithms/moo/rvea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 20a357d..12b42a2 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -79,7 +79,8 @@ class RVEA(GeneticAlgorithm):
 
         # if maximum functions termination convert it to generations
         if isinstance(self.termination, MaximumFunctionCallTermination):
-            n_gen = np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
+            # (the initial population is the first generation and is always evaluated)
+            n_gen = 1 + max(0, np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings))
             self.termination = MaximumGenerationTermination(n_gen)
 
         # check whether the n_gen termination is used - otherwise this algorithm can be not run
-- 
2.43.0


From 9e2c5b5fc174a9ddb290d206710a8369fcad189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 023/145] fix: pattern search explores in the order drawn from
 its own random generator

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
-- 
2.43.0


From 209f8318c4fc3bca4d640f658916131104ced3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 024/145] fix: the pattern move of pattern search must not
 leave the bounds

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index 02a22ed..ad46d0f 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -142,7 +142,7 @@ def exploration_move(problem, center, sign, delta, rho, randomize=True, random_s
 def pattern_move(problem, current, direction, step_size):
     # calculate the new X and repair out of bounds if necessary
     X = current.X + step_size * direction
-    set_to_bounds_if_outside_by_problem(problem, X)
+    X = set_to_bounds_if_outside_by_problem(problem, X)
 
     # create the new center individual
     return Individual(X=X)
-- 
2.43.0


From 4b32419db46859f6eb6b79e5562906a1909f9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 025/145] fix: UntilFeasibleTermination fails if the constraint
 violation increases

---
 pymoo/termination/cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..2efd452 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,5 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        # the violation can also become larger than it was initially
+        return max(0.0, 1 - cv / self.initial_cv)
-- 
2.43.0


From db1469ddcd3ac9bc974cf98d40442b34bd01ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 026/145] fix: MinimumFunctionValueTermination for goals and
 values that are not positive

---
 pymoo/termination/fmin.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..be4da56 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -14,4 +14,14 @@ class MinimumFunctionValueTermination(Termination):
         if not any(opt.get("feas")):
             return 0.0
         else:
-            return self.fmin / opt.get("F").min()
+            f = opt.get("F").min()
+
+            # the goal has been reached
+            if f <= self.fmin:
+                return 1.0
+
+            # the ratio is only meaningful for positive values
+            elif self.fmin > 0:
+                return self.fmin / f
+            else:
+                return 0.0
-- 
2.43.0


From 6f118094fe5c34a31107db7cd4e6efbf3f84c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 027/145] fix: IndicatorTermination misses a threshold reached
 at once and fails beyond it

---
 pymoo/termination/indicator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..12eeefa 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -39,6 +39,10 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # if the threshold has been reached
+        if v <= threshold if self.goal == "minimize" else v >= threshold:
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
-- 
2.43.0


From 071f77ee2afa3a736d764840cd85c130c7bb7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 028/145] fix: an archive without a maximum size cannot be
 created

---
 pymoo/util/archive.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..fad145e 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -48,7 +48,7 @@ class Archive(Population):
 
         obj = super().__new__(cls, individuals)
         obj.max_size = max_size
-        obj.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        obj.truncate_size = cls._limit(max_size, truncate_size)
         obj.truncation = truncation
         obj.duplicate_elimination = duplicate_elimination
 
@@ -64,10 +64,17 @@ class Archive(Population):
         duplicate_elimination = getattr(obj, "duplicate_elimination", DefaultDuplicateElimination(epsilon=1e-32))
 
         self.max_size = max_size
-        self.truncate_size = min(max_size, truncate_size) if truncate_size is not None else max_size
+        self.truncate_size = self._limit(max_size, truncate_size)
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    @staticmethod
+    def _limit(max_size, truncate_size):
+        # without a maximum size nothing is ever truncated
+        if max_size is None or truncate_size is None:
+            return max_size
+        return min(max_size, truncate_size)
+
     def add(self, sols):
 
         if len(self) > 0:
-- 
2.43.0


From 653906c411b9ea51fbd91c7849605b1536ce8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 029/145] fix: MOPSO_CD evaluates a population it throws away

---
 pymoo/algorithms/moo/mopso_cd.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 50e1faa..82e7f2a 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -87,9 +87,6 @@ class MOPSO_CD(Algorithm):
         self.pbest = self.pop.copy()  # Personal bests
         self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
 
-        # Evaluate initial population to set personal best objectives
-        self.evaluator.eval(self.problem, self.pop)
-
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
-- 
2.43.0


From c5ed598f5b0c5bc1919e0f0ccd451db4c5addd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 030/145] fix: duplicate elimination returns wrong indices if
 an individual occurs twice

---
 pymoo/core/duplicate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..a4564da 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -37,10 +37,15 @@ class DuplicateElimination:
 
         if return_indices:
             no_duplicate, is_duplicate = [], []
-            H = set(pop)
+
+            # pop is a subsequence of the original (which might contain the same object more than once)
+            n_kept = {}
+            for ind in pop:
+                n_kept[ind] = n_kept.get(ind, 0) + 1
 
             for i, ind in enumerate(original):
-                if ind in H:
+                if n_kept.get(ind, 0) > 0:
+                    n_kept[ind] -= 1
                     no_duplicate.append(i)
                 else:
                     is_duplicate.append(i)
-- 
2.43.0


From f7bcd5969a7d2a9cb091af71467b702e801ab82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 031/145] fix: HashDuplicateElimination compares the identity
 of individuals instead of their variables

---
 pymoo/core/duplicate.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index a4564da..889e9b3 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -123,6 +123,10 @@ class ElementwiseDuplicateElimination(DefaultDuplicateElimination):
 
 
 def to_hash(x):
+    # an array is not hashable, but the values it contains might be
+    if isinstance(x, np.ndarray):
+        x = tuple(x.tolist())
+
     try:
         h = hash(x)
     except:  # noqa: E722
@@ -135,21 +139,15 @@ def to_hash(x):
 
 
 class HashDuplicateElimination(DuplicateElimination):
-    def __init__(self, func=to_hash) -> None:
-        super().__init__()
-        self.func = func
-
     def _do(self, pop, other, is_duplicate):
         H = set()
 
         if other is not None:
-            for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+            for val in self.func(other):
+                H.add(to_hash(val))
 
-        for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+        for i, val in enumerate(self.func(pop)):
+            h = to_hash(val)
 
             if h in H:
                 is_duplicate[i] = True
-- 
2.43.0


From 6ea94fc8382425421da70ebbd614b3204cd676ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 032/145] fix: NoCrossover returns the parents themselves,
 which are then mutated in place

---
 pymoo/operators/crossover/nox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..82ec50e 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,6 +1,9 @@
 """No-crossover (pass-through) operator."""
 
+import numpy as np
+
 from pymoo.core.crossover import Crossover
+from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 
 
@@ -24,4 +27,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # the offsprings are new individuals, otherwise a mutation would change the parents
+        return Population.create(*[Individual(X=np.copy(parent.X)) for parent in offsprings])
-- 
2.43.0


From 9073cb85a533a47559179cf7a8306f7dbc0ef6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 033/145] fix: CTAEA fails if there are less solutions than
 reference directions

---
 pymoo/algorithms/moo/ctaea.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index f3fee07..6afb1e1 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -137,11 +137,12 @@ class CADASurvival:
             remainder = n_survive - len(Sc)
             # Solve sub-problem CV, tche
             SI = pop[CV > 0]
-            f1 = SI.get("CV")
-            _, f2 = self._associate(SI)
-            sub_F = np.column_stack([f1, f2])
-            fronts = NonDominatedSorting().do(sub_F, n_stop_if_ranked=remainder)
-            I = []  # noqa: E741
+            I, fronts = [], []  # noqa: E741
+            if len(SI) > 0:
+                f1 = SI.get("CV")
+                _, f2 = self._associate(SI)
+                sub_F = np.column_stack([f1, f2])
+                fronts = NonDominatedSorting().do(sub_F, n_stop_if_ranked=remainder)
             for front in fronts:
                 if len(I) + len(front) <= remainder:
                     I.extend(front)
@@ -210,7 +211,7 @@ class CADASurvival:
 
         itr = 1
         S = []
-        while len(S) < n_survive:
+        while len(S) < min(n_survive, len(Hd)):
             for i in range(n_survive):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
-- 
2.43.0


From 3bd583b8a054739289d438272772243f83744b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 034/145] fix: OmniOptimizer selection does not terminate for a
 population of one

---
 pymoo/algorithms/moo/omni.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 9d49e8f..40508d7 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -322,6 +322,10 @@ class NeighborBasedTournamentSelection(Selection):
         n_winners = n_select * n_parents
         n = len(pop)
 
+        # a single solution has no neighbor to compete against
+        if n == 1:
+            return np.zeros((n_select, n_parents), dtype=int)
+
         # normalize the decision space so that every variable contributes equally to the
         # distance used to determine the nearest neighbor
         X = pop.get("X").astype(float, copy=False)
-- 
2.43.0


From ff4c675780710e17d767684b820604a8da465ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 035/145] fix: normalized distances are nan if a variable is
 fixed by its bounds

---
 pymoo/algorithms/soo/nonconvex/pso_ep.py |  3 ++-
 pymoo/util/misc.py                       | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index b7d986c..da792c9 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -16,6 +16,7 @@ from pymoo.operators.sampling.rnd import FloatRandomSampling, random
 from pymoo.termination.default import DefaultSingleObjectiveTermination
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util import default_random_state
+from pymoo.util.misc import bounds_range
 from pymoo.util.sliding_window import SlidingWindow
 
 
@@ -257,7 +258,7 @@ class EPPSO(GeneticAlgorithm):
         Xp = self.pbest.get("X")
 
         xl, xu = self.problem.bounds()
-        delta = np.max(np.abs(X - Xp) / (xu - xl), axis=1)
+        delta = np.max(np.abs(X - Xp) / bounds_range(xl, xu), axis=1)
         [self.delta[k].append(delta[k]) for k in range(len(delta))]
 
         pbest = self.pbest
diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..a83750c 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -170,6 +170,19 @@ def func_euclidean_distance(a: Any, b: Any) -> Any:
     return np.sqrt(((a - b) ** 2).sum(axis=1))
 
 
+def bounds_range(xl: Any, xu: Any) -> Any:
+    """Range of each variable to divide by (one if the variable is fixed by its bounds).
+
+    Args:
+        xl: Lower bounds.
+        xu: Upper bounds.
+
+    Returns:
+        Range of each variable.
+    """
+    return np.where(xu == xl, 1.0, xu - xl)
+
+
 def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     """Create normalized euclidean distance function.
 
@@ -180,7 +193,7 @@ def func_norm_euclidean_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.sqrt((((a - b) / (xu - xl)) ** 2).sum(axis=1))
+    return lambda a, b: np.sqrt((((a - b) / bounds_range(xl, xu)) ** 2).sum(axis=1))
 
 
 def norm_eucl_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -237,7 +250,7 @@ def func_norm_manhatten_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]:
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).sum(axis=1)
+    return lambda a, b: np.abs((a - b) / bounds_range(xl, xu)).sum(axis=1)
 
 
 def norm_manhatten_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
@@ -294,7 +307,7 @@ def func_norm_tchebychev_distance(xl: Any, xu: Any) -> Callable[[Any, Any], Any]
     Returns:
         Distance function.
     """
-    return lambda a, b: np.abs((a - b) / (xu - xl)).max(axis=1)
+    return lambda a, b: np.abs((a - b) / bounds_range(xl, xu)).max(axis=1)
 
 
 def norm_tchebychev_dist_by_bounds(A: Any, B: Any, xl: Any, xu: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 299d4665bdf914288e647b6696748a6167695181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 036/145] fix: repairs return nan for fixed variables or a
 vanishing distance to the parent

---
 pymoo/operators/repair/bounce_back.py     | 5 +++++
 pymoo/operators/repair/bounds_repair.py   | 4 ++++
 pymoo/operators/repair/inverse_penalty.py | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..e96a4ef 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -25,6 +25,11 @@ def bounce_back(X, xl, xu):
 
     # otherwise bounds back into the feasible space
     _range = xu - xl
+
+    # a variable fixed by its bounds has no room to bounce back
+    fixed = _range == 0
+    X[fixed] = xl[fixed]
+
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..78504fe 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -116,6 +116,10 @@ def repair_periodic(Xp, xl, xu):
 
     S = XU - XL
 
+    # a variable fixed by its bounds can only have this value
+    fixed = S == 0
+    Xp[fixed] = XL[fixed]
+
     I = np.where(Xp < XL)  # noqa: E741
     Xp[I] = XU[I] - (XL[I] - Xp[I]) % S[I]
 
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..d7a6880 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -53,6 +53,9 @@ def inverse_penality(x, p, xl, xu, alpha=None, random_state=None):
 
         ret = x + (p - x) * Y / normv
 
+        # numerically there might be no distance left to the parent
+        ret = np.where(np.isfinite(ret), ret, p)
+
         # for floating point error - in theory it will always be in bounds
         ret[ret < xl] = xl[ret < xl]
         ret[ret > xu] = xu[ret > xu]
-- 
2.43.0


From 129968db2b797470bac0469d762093d1a41afe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 037/145] fix: DIRECT starts out of bounds if a variable is
 fixed by its bounds

---
 pymoo/algorithms/soo/nonconvex/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..68ce8eb 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -8,7 +8,7 @@ from pymoo.core.individual import Individual
 from pymoo.core.population import Population
 from pymoo.util.display.single import SingleObjectiveOutput
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
-from pymoo.util.normalization import normalize, denormalize
+from pymoo.util.normalization import normalize
 
 
 def norm_bounds(pop, problem):
@@ -48,7 +48,7 @@ class DIRECT(LocalSearch):
     def _setup(self, problem, **kwargs):
 
         xl, xu = problem.bounds()
-        X = denormalize(0.5 * np.ones(problem.n_var), xl, xu)
+        X = xl + 0.5 * (xu - xl)
 
         x0 = Individual(X=X)
         x0.set("xl", xl)
-- 
2.43.0


From 87778cad2bac881427d42754f6f5ed36ad6e0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 038/145] fix: bounds repair of DEX, Gaussian mutation and
 inverse penalty uses an unseeded generator

---
 pymoo/operators/crossover/dex.py          | 2 +-
 pymoo/operators/mutation/gauss.py         | 2 +-
 pymoo/operators/repair/inverse_penalty.py | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index d7a6880..6b7366a 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -80,13 +80,14 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
             problem: The optimization problem.
             X: Population variables to repair.
             P: Parent solutions within bounds.
+            random_state: Random state for reproducibility.
 
         Returns:
             Repaired population.
@@ -97,7 +98,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
-- 
2.43.0


From 9967ed0dbd740d630884fb45af725f71653f38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 039/145] fix: CTAEA does not terminate with fewer initial
 solutions than reference directions

---
 pymoo/algorithms/moo/ctaea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/ctaea.py b/pymoo/algorithms/moo/ctaea.py
index 6afb1e1..27979dd 100644
--- a/pymoo/algorithms/moo/ctaea.py
+++ b/pymoo/algorithms/moo/ctaea.py
@@ -212,7 +212,7 @@ class CADASurvival:
         itr = 1
         S = []
         while len(S) < min(n_survive, len(Hd)):
-            for i in range(n_survive):
+            for i in range(len(self.ref_dirs)):
                 (current_ca,) = np.where(niche_CA == i)
                 if len(current_ca) < itr:
                     for _ in range(itr - len(current_ca)):
-- 
2.43.0


From 354e811190c7ce37065eb5ff3a861eed165c6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 040/145] fix: CMAES overwrites the objective values of
 infeasible solutions and replaces its population when asked

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 3a23818..3adf223 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -202,10 +202,7 @@ class CMAES(LocalSearch):
         self.send_array_to_yield = X.ndim > 1
         X = np.atleast_2d(X)
 
-        # evaluate the population
-        self.pop = Population.new("X", self.norm.backward(X))
-
-        return self.pop
+        return Population.new("X", self.norm.backward(X))
 
     def _advance(self, infills=None, **kwargs):
 
@@ -213,12 +210,10 @@ class CMAES(LocalSearch):
             self.termination.force_termination = True
 
         else:
-            # set infeasible individual's objective values to np.nan - then CMAES can handle it
-            for ind in infills:
-                if not ind.feas:
-                    ind.F[:] = np.inf
+            self.pop = infills
 
-            F = infills.get("f").tolist()
+            # set infeasible individual's objective values to np.inf - then CMAES can handle it
+            F = np.where(infills.get("feas"), infills.get("f"), np.inf).tolist()
             if not self.send_array_to_yield:
                 F = F[0]
 
-- 
2.43.0


From 4e972aca389ae99355bb092d144aced0dd2a460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 041/145] fix: Clutch declares more constraints than it returns

---
 pymoo/problems/multi/clutch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/clutch.py b/pymoo/problems/multi/clutch.py
index cea0dcd..8115f0d 100644
--- a/pymoo/problems/multi/clutch.py
+++ b/pymoo/problems/multi/clutch.py
@@ -8,7 +8,7 @@ from pymoo.core.problem import Problem
 
 class Clutch(Problem):
     def __init__(self) -> None:
-        super().__init__(n_var=5, n_obj=2, n_ieq_constr=19, vtype=int)
+        super().__init__(n_var=5, n_obj=2, n_ieq_constr=8, vtype=int)
         # ri, ro, t, F, Xp
         # self.xl = np.array([60, 90, 1, 600, 2])
         self.xl: np.ndarray = np.array([0, 0, 0, 0, 0])
-- 
2.43.0


From 6e9a3fb69512446b8a9fed182815967befb51a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 042/145] fix: MultiObjectiveKnapsack declares one objective
 but returns two

---
 pymoo/problems/single/knapsack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/single/knapsack.py b/pymoo/problems/single/knapsack.py
index f3c39f8..a06aa3c 100644
--- a/pymoo/problems/single/knapsack.py
+++ b/pymoo/problems/single/knapsack.py
@@ -13,8 +13,9 @@ class Knapsack(Problem):
         W,  # weights for each item
         P,  # profit of each item
         C,  # maximum capacity
+        n_obj=1,
     ):
-        super().__init__(n_var=n_items, n_obj=1, n_ieq_constr=1, xl=0, xu=1, vtype=bool)
+        super().__init__(n_var=n_items, n_obj=n_obj, n_ieq_constr=1, xl=0, xu=1, vtype=bool)
 
         self.W = W
         self.P = P
@@ -27,7 +28,7 @@ class Knapsack(Problem):
 
 class MultiObjectiveKnapsack(Knapsack):
     def __init__(self, *args):
-        super().__init__(*args)
+        super().__init__(*args, n_obj=2)
 
     def _evaluate(self, x, out, *args, **kwargs):
         f1 = -np.sum(self.P * x, axis=1)
-- 
2.43.0


From 36f327f4c38f30cb1b79e9cc584af491f3b3d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 043/145] fix: SRES ranks with an unseeded generator

---
 pymoo/algorithms/soo/nonconvex/sres.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
-- 
2.43.0


From 95ceb3e9f37706854c7e6decb249c2b40f5b2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 044/145] fix: NicheGA breaks ties with an unseeded generator

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 59a429b..4c2015e 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -61,7 +61,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -76,6 +76,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -91,6 +92,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
-- 
2.43.0


From ca50e1d4acc141148b542de60ca3f44e5d5aa410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 045/145] fix: NSGA3 selection breaks ties with an unseeded
 generator

---
 pymoo/algorithms/moo/nsga3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
-- 
2.43.0


From 306f23856a906f09bfd6dc643d7608d77fa03c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 046/145] fix: UNSGA3 selection breaks ties with an unseeded
 generator

---
 pymoo/algorithms/moo/unsga3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
-- 
2.43.0


From e0e0452d22a5cec6287241eacd575191544fb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 047/145] fix: ConstrRankAndCrowding breaks ties with an
 unseeded generator

---
 pymoo/operators/survival/rank_and_crowding/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..14e20f9 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -192,7 +192,9 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(
+                            CV, order="ascending", method="numpy", random_state=kwargs.get("random_state")
+                        )  # noqa: E741
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
-- 
2.43.0


From 86027034e72a8311228ed9eb835d860bfb443110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 048/145] fix: archive truncation and CMOPSO survival use an
 unseeded generator

---
 pymoo/algorithms/moo/cmopso.py |  8 +++++---
 pymoo/core/algorithm.py        |  2 +-
 pymoo/util/archive.py          | 12 ++++++------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..5cb7afa 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -211,8 +211,10 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
-        self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
+        self.pop = self.survival.do(
+            self.problem, particles, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(CrowdingDistanceTournamentSurvival.__init__)
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 105aa4b..b812022 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -242,7 +242,7 @@ class Algorithm:
 
         # add the infill solutions to an archive
         if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
+            self.archive = self.archive.add(infills, random_state=self.random_state)
 
         return ret
 
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index fad145e..79639c3 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -9,7 +9,7 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class Truncation:
-    def __call__(self, sols, k):
+    def __call__(self, sols, k, random_state=None):
         pass
 
 
@@ -32,8 +32,8 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -75,7 +75,7 @@ class Archive(Population):
             return max_size
         return min(max_size, truncate_size)
 
-    def add(self, sols):
+    def add(self, sols, random_state=None):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -86,7 +86,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, random_state=random_state)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -97,7 +97,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, random_state=None):
         return self
 
 
-- 
2.43.0


From 9d8f35d477c963f9bfccd67e9c5642ce7fdec1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 049/145] fix: DNSGA2-B mutates with an unseeded generator

---
 pymoo/algorithms/moo/dnsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From 1dbd74424af1aa296277e7d1388abe29440e027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 050/145] fix: KGB objects share their knowledge through a
 mutable default argument

---
 pymoo/algorithms/moo/kgb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..eaa8da5 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = {} if ps is None else ps
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
-- 
2.43.0


From 0a038f5749991c9428e9458550bbef79a2ff8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 051/145] fix: randomized_argsort(method="quicksort") ignores
 the generator it is given

---
 pymoo/util/randomized_argsort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
-- 
2.43.0


From 9b94050444927ddcc2b95b98e40a5dc09aeba902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 052/145] fix: CMAES and SimpleCMAES use and change the global
 random state

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 3adf223..6049b57 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -166,7 +166,7 @@ class CMAES(LocalSearch):
             self.options["bounds"] = [xl, xu]
 
         seed = kwargs.get("seed", self.seed)
-        self.options["seed"] = seed
+        use_own_generator(self.options, seed)
 
         if isinstance(self.termination, MaximumGenerationTermination):
             self.options["maxiter"] = self.termination.n_max_gen
@@ -267,7 +267,7 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
+        use_own_generator(self.opts, self.seed)
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
@@ -298,6 +298,13 @@ class BIPOPCMAES(CMAES):
         super().__init__(restarts=restarts, bipop=True, **kwargs)
 
 
+def use_own_generator(options, seed):
+    # by default cma seeds and draws from the global generator of numpy (and takes a seed of zero for none)
+    if "randn" not in options or isinstance(getattr(options["randn"], "__self__", None), np.random.RandomState):
+        options["randn"] = np.random.RandomState(seed).randn
+    options["seed"] = np.nan
+
+
 def bounds_if_normalize(xl, xu):
     norm = ZeroToOneNormalization(xl=xl, xu=xu)
 
-- 
2.43.0


From a9180e49c0f52b5a1eae1edcccd7cbe4fdf4a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 053/145] fix: CallbackCollection never notifies its callbacks

---
 pymoo/core/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From 07ff36716838f117cb07522867cee639b7d56678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 054/145] fix: StaticProblem fails for elementwise problems

---
 pymoo/problems/static.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/static.py b/pymoo/problems/static.py
index 5dfdd88..4364083 100644
--- a/pymoo/problems/static.py
+++ b/pymoo/problems/static.py
@@ -9,6 +9,9 @@ class StaticProblem(Meta, Problem):
         super().__init__(problem)
         self.kwargs = kwargs
 
+        # the values are always provided for all solutions at once
+        self.elementwise = False
+
     def _evaluate(self, _, out, *args, **kwargs):
         for K, V in self.kwargs.items():
             out[K] = V
-- 
2.43.0


From 007613edfc1fe802d1aa41fe1029238d74ce66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 055/145] fix: compiled distance to weights rejects integer
 weights

---
 pymoo/functions/compiled/decomposition.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/functions/compiled/decomposition.pyx b/pymoo/functions/compiled/decomposition.pyx
index 747ad66..9bf5167 100644
--- a/pymoo/functions/compiled/decomposition.pyx
+++ b/pymoo/functions/compiled/decomposition.pyx
@@ -23,6 +23,7 @@ def calc_distance_to_weights(F, weights, utopian_point=None):
     if utopian_point is None:
         utopian_point = np.zeros(F.shape[1])
 
+    weights = np.asarray(weights, dtype=np.float64)
     norm = np.linalg.norm(weights, axis=1)
 
     d1, d2 = np.zeros(F.shape[0]), np.zeros(F.shape[0])
-- 
2.43.0


From 7616557d64c23279e2d8b42e14417890ae14c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 056/145] fix: normalization truncates integer values

---
 pymoo/util/normalization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..281b705 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -73,7 +73,8 @@ class ZeroToOneNormalization(Normalization):
             return X
 
         # simple copy the input
-        N = np.copy(X)
+        X = np.asarray(X)
+        N = X.astype(np.result_type(X.dtype, float))
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
@@ -93,7 +94,8 @@ class ZeroToOneNormalization(Normalization):
         xl, xu, xl_only, xu_only = self.xl, self.xu, self.xl_only, self.xu_only
         neither_nan = self.neither_nan
 
-        X = N.copy()
+        N = np.asarray(N)
+        X = N.astype(np.result_type(N.dtype, float))
         X[..., neither_nan] = xl[neither_nan] + N[..., neither_nan] * (xu[neither_nan] - xl[neither_nan])
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
-- 
2.43.0


From 7adf90739baf8b90077516a4c23d8323fea57d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 057/145] fix: KKTPM shifts the ideal point it is given

---
 pymoo/indicators/kktpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index bac58d5..35348e4 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -33,7 +33,7 @@ class KKTPM:
         # if not provided take the one defined in the problem
         if z is None:
             z = problem.ideal_point()
-        z -= utopian_eps
+        z = z - utopian_eps
 
         # for convenience get the counts directly
         n_solutions, n_obj, n_ieq_constr = (
-- 
2.43.0


From 35547bdff775efa410b7d027946ab1fc8d7f0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 058/145] fix: KKTPM fails for unconstrained problems

---
 pymoo/indicators/kktpm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index 35348e4..b253402 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -107,11 +107,12 @@ class KKTPM:
                     _kktpm = (1 - np.sum(u_m)) ** 2 + np.sum((a_m.T @ u) ** 2)
                     _fval = _kktpm
 
-                ujgj = -g @ u_j
-                if np.sum(u_m) + ujgj * (1 + ujgj) > 1:
-                    adjusted_kktpm = -(u_j @ g.T)
-                    projected_kktpm = (_kktpm * g @ g.T - g @ u_j) / (1 + g @ g.T)
-                    _kktpm = (_kktpm + adjusted_kktpm + projected_kktpm) / 3
+                if n_ieq_constr > 0:
+                    ujgj = -g @ u_j
+                    if np.sum(u_m) + ujgj * (1 + ujgj) > 1:
+                        adjusted_kktpm = -(u_j @ g.T)
+                        projected_kktpm = (_kktpm * g @ g.T - g @ u_j) / (1 + g @ g.T)
+                        _kktpm = (_kktpm + adjusted_kktpm + projected_kktpm) / 3
 
             # assign to the values to be returned
             kktpm[i] = _kktpm
-- 
2.43.0


From e3796b8a34ae31fd96c20e2ac866c05c1e2764a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 059/145] fix: reduction and energy reference directions fail
 for fewer points than objectives

---
 pymoo/util/ref_dirs/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From 6efbe9685f7698488d9097d69362a082a51d6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 060/145] fix: a single incremental reference direction is nan

---
 pymoo/util/ref_dirs/incremental.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/util/ref_dirs/incremental.py b/pymoo/util/ref_dirs/incremental.py
index e086f12..4b80b29 100644
--- a/pymoo/util/ref_dirs/incremental.py
+++ b/pymoo/util/ref_dirs/incremental.py
@@ -29,6 +29,9 @@ def check_n_points(n_points, n_dim):
 
 
 def incremental_lattice(n_partitions, n_dim):
+    if n_partitions == 0:
+        return np.full((1, n_dim), 1 / n_dim)
+
     I = n_dim * np.eye(n_dim)  # noqa: E741
     W = np.zeros((1, n_dim))
     edgeW = W
-- 
2.43.0


From 90874e7e6b3d555fea66904b6e1eca51d6a004eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 061/145] fix: MultiLayerReferenceDirectionFactory fails for
 factories as layers

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..2c33bfc 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -292,7 +292,7 @@ class MultiLayerReferenceDirectionFactory:
         """
         ref_dirs: list[NDArray] = []
         for factory in self.layers:
-            ref_dirs.append(factory)
+            ref_dirs.append(factory() if callable(factory) else factory)
         ref_dirs_arr = np.concatenate(ref_dirs, axis=0)
         is_duplicate = find_duplicates(ref_dirs_arr)
         return ref_dirs_arr[np.logical_not(is_duplicate)]
-- 
2.43.0


From 6235dadc4328b6e3b1924268c07352649788f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 062/145] fix: construction-based reference directions return
 more points than requested

---
 pymoo/util/ref_dirs/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/construction.py b/pymoo/util/ref_dirs/construction.py
index ff3941d..28c934e 100644
--- a/pymoo/util/ref_dirs/construction.py
+++ b/pymoo/util/ref_dirs/construction.py
@@ -60,7 +60,7 @@ class ConstructionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
             if self.verbose:
                 print(len(self.X), "x", x)
 
-        return self.X
+        return self.X[: self.n_points]
 
     def next(self):
 
-- 
2.43.0


From 263946c3dd59c2de556334061e7a9068ed383e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 063/145] fix: energy reference directions fail around a
 preferred point without free edges

---
 pymoo/util/ref_dirs/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/energy.py b/pymoo/util/ref_dirs/energy.py
index 04f910f..7764af6 100644
--- a/pymoo/util/ref_dirs/energy.py
+++ b/pymoo/util/ref_dirs/energy.py
@@ -113,7 +113,7 @@ class RieszEnergyReferenceDirectionFactory(ReferenceDirectionFactory):
 
         # if all points are frozen - simply return it
         if np.all(freeze):
-            return X
+            return X[:n_points]
 
         # initialize the optimizer for the run
         self.optimizer = Adam(alpha=0.005)
-- 
2.43.0


From ae9c57fb89c7f598dd7ee7ff96aa7d85fb74722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 064/145] fix: selection of points with maximum distance
 selects points repeatedly

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 2c33bfc..64445f4 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected = [i for i in not_selected if i != I]
 
     return selected
-- 
2.43.0


From c3b7b99568e18cfb15e4c815f718a1c23546fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 065/145] fix: SimpleZeroToOneNormalization fails for integer
 values

---
 pymoo/util/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 281b705..11447ea 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -135,7 +135,7 @@ class SimpleZeroToOneNormalization(Normalization):
         denom = xu - xl
 
         # we can not divide by zero -> plus small epsilon
-        denom += (denom == 0) * 1e-32
+        denom = denom + (denom == 0) * 1e-32
 
         # normalize the actual values
         N = (X - xl) / denom
-- 
2.43.0


From fa462d7b48fcf57c00cd5b2c572bd3c297109a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 066/145] fix: constraints as penalty or objective fail if the
 wrapped problem does not set all constraints

---
 pymoo/constraints/as_obj.py     | 7 +++++--
 pymoo/constraints/as_penalty.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..53c5aab 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -42,8 +42,11 @@ class ConstraintsAsObjective(Meta, Problem):
         else:
             out["F"] = CV
 
-        del out["G"]
-        del out["H"]
+        # the constraints do not exist anymore (the wrapped problem might not even have provided them)
+        for name in ["G", "H"]:
+            out.pop(name, None)
+            if name in return_values_of:
+                out[name] = np.full((len(X), 0), np.inf)
 
         return out
 
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..402fd63 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -34,7 +34,10 @@ class ConstraintsAsPenalty(Meta, Problem):
         # set the penalized objective values
         out["F"] = F + self.penalty * np.reshape(CV, F.shape)
 
-        del out["G"]
-        del out["H"]
+        # the constraints do not exist anymore (the wrapped problem might not even have provided them)
+        for name in ["G", "H"]:
+            out.pop(name, None)
+            if name in return_values_of:
+                out[name] = np.full((len(X), 0), np.inf)
 
         return out
-- 
2.43.0


From 702931fdb747a8499c03cc2d4169c5b8f5afa491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 067/145] fix: constraints as penalty fail for more than one
 objective

---
 pymoo/constraints/as_penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index 402fd63..a30deb7 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -32,7 +32,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * np.reshape(CV, (len(F), 1))
 
         # the constraints do not exist anymore (the wrapped problem might not even have provided them)
         for name in ["G", "H"]:
-- 
2.43.0


From e4ec135e807a161d4a62d20eebc4f22b46511523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 068/145] fix: constraint violation as the only objective has
 the wrong shape

---
 pymoo/constraints/as_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 53c5aab..b6897a3 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -40,7 +40,7 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = CV[:, None]
 
         # the constraints do not exist anymore (the wrapped problem might not even have provided them)
         for name in ["G", "H"]:
-- 
2.43.0


From 912a8e5abc72cfa60b199f5cd283ed4b00e918b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 069/145] fix: constraints from bounds fail if the bounds are
 removed or no other constraints exist

---
 pymoo/constraints/from_bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..b856e5a 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -21,12 +21,12 @@ class ConstraintsFromBounds(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get the boundaries for normalization
-        xl, xu = self.bounds()
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
 
-        out["G"] = anp.column_stack([out["G"], _G])
+        out["G"] = anp.column_stack([out["G"], _G]) if "G" in out else _G
 
         if "dG" in out:
             _dG = np.zeros((len(X), 2 * self.n_var, self.n_var))
-- 
2.43.0


From 9a4edb3eda8c233a6f2616e9038de5c4a9a5a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 070/145] fix: decomposed problem without keyword arguments for
 the decomposition fails

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..44de2e4 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From 075a75c9968ad0c3f760ce2d9548fa04e25797e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 071/145] fix: zero-to-one problem evaluates the wrong designs

---
 pymoo/problems/zero_to_one.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..3de4e4e 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,9 +14,9 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
         return out
-- 
2.43.0


From bf0640ed7673dc8dd68185cb462cb3ea51011704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 072/145] fix: line search problem repairs designs with the
 bounds of the step length

---
 pymoo/algorithms/base/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/line.py b/pymoo/algorithms/base/line.py
index 07cd012..d0fcc9c 100644
--- a/pymoo/algorithms/base/line.py
+++ b/pymoo/algorithms/base/line.py
@@ -56,7 +56,7 @@ class LineSearchProblem(Meta, Problem):
 
         x = self.point.X + alpha * self.direction
         if self.strict_bounds:
-            x = set_to_bounds_if_outside(x, self.xl, self.xu)
+            x = set_to_bounds_if_outside(x, *self.__object__.bounds())
         out["__X__"] = x
 
         super()._evaluate(x, out, *args, **kwargs)
-- 
2.43.0


From 41438497e183177372486d3ea5ad4c67a4410b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 073/145] fix: decomposed problem returns a wrong shape for a
 single solution

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 44de2e4..ef5a924 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -25,5 +25,5 @@ class MultiToSingleObjective(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
         out["__F__"] = F
-        out["F"] = self.decomposition.do(F, **self.kwargs)[:, None]
+        out["F"] = self.decomposition.do(F, **self.kwargs).reshape(len(F), 1)
         return out
-- 
2.43.0


From a3d748602b27fd57d73b53bae79c1ca23840ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 074/145] fix: constraints as penalty or objective fail for
 problems without constraints

---
 pymoo/constraints/as_obj.py     | 2 +-
 pymoo/constraints/as_penalty.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index b6897a3..b587896 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -34,7 +34,7 @@ class ConstraintsAsObjective(Meta, Problem):
         out["__F__"], out["__G__"], out["__H__"] = F, G, H
 
         # calculate the total constraint violation (here normalization shall be already included)
-        CV = calc_cv(G=G, H=H, config=self.config)
+        CV = calc_cv(G=G, H=H, config=self.config) * np.ones(len(X))
 
         # append the constraint violation as objective
         if self.append:
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index a30deb7..07802f3 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -29,7 +29,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         out["__F__"], out["__G__"], out["__H__"] = F, G, H
 
         # calculate the total constraint violation (here normalization shall be already included)
-        CV = calc_cv(G=G, H=H)
+        CV = calc_cv(G=G, H=H) * np.ones(len(X))
 
         # set the penalized objective values
         out["F"] = F + self.penalty * np.reshape(CV, (len(F), 1))
-- 
2.43.0


From 65f646e6455c83be81566057b3f2722a2a734344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 075/145] fix: constraints as penalty or objective fail for a
 single vector without all constraints

---
 pymoo/constraints/as_obj.py     | 2 +-
 pymoo/constraints/as_penalty.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index b587896..e53f8e1 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -31,7 +31,7 @@ class ConstraintsAsObjective(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({"__%s__" % k: v for k, v in zip("FGH", (F, G, H)) if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
         CV = calc_cv(G=G, H=H, config=self.config) * np.ones(len(X))
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index 07802f3..f553567 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -26,7 +26,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         F, G, H = from_dict(out, "F", "G", "H")
 
         # store a backup of the values in out
-        out["__F__"], out["__G__"], out["__H__"] = F, G, H
+        out.update({"__%s__" % k: v for k, v in zip("FGH", (F, G, H)) if v is not None})
 
         # calculate the total constraint violation (here normalization shall be already included)
         CV = calc_cv(G=G, H=H) * np.ones(len(X))
-- 
2.43.0


From 929a3fef87a5bfe134b1ab485e74a72813505fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 076/145] fix: replacing nested hyperparameters sets them as
 values

---
 pymoo/core/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index 7c04814..bd33e6d 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -146,7 +146,7 @@ def set_params(obj, params, as_value=True):
 
     for k, v in params.items():
         if isinstance(v, dict):
-            set_params(data[k], v)
+            set_params(data[k], v, as_value=as_value)
         else:
             if as_value:
                 data[k].set(v)
-- 
2.43.0


From 50f4ba8802ef110b1703135db4aff860662f2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 077/145] fix: hyperparameters of objects referring to each
 other can not be retrieved or set

---
 pymoo/core/parameters.py | 42 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index bd33e6d..d028932 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -46,37 +46,35 @@ def get_params_bfs(obj, flag, only_active):
     Returns:
         Dictionary of parameters nested by object hierarchy.
     """
-    ret = {}
-
-    q = [(None, obj)]
+    # for each variable and each object visited the shortest path it can be reached by
+    variables, visited = {}, {}
 
-    visited = set()
+    q = [([], obj)]
 
     while len(q) > 0:
         prefix, obj = q.pop()
 
         if isinstance(obj, Variable):
-            if obj not in visited and obj.flag == flag and (not only_active or obj.active):
-                # find the right spot in the ret dictionary
-                e = ret
-
-                for name in prefix[:-1]:
-                    if name not in e:
-                        e[name] = {}
-                    e = e[name]
+            if obj.flag == flag and (not only_active or obj.active):
+                if obj not in variables or len(prefix) < len(variables[obj]):
+                    variables[obj] = prefix
 
-                # set it so the value
-                e[prefix[-1]] = obj
+        # objects can refer to each other, each is only visited again if there is a shorter path to it
+        elif len(prefix) < visited.get(id(obj), len(prefix) + 1):
+            visited[id(obj)] = len(prefix)
 
-            # add it to have been visited
-            visited.add(obj)
+            for key, value in get_data(obj).items():
+                q.append((prefix + [key], value))
 
-        else:
-            data = get_data(obj)
-            for key in data:
-                new_prefix = [key] if prefix is None else prefix + [key]
-                entry = (new_prefix, data[key])
-                q.append(entry)
+    ret = {}
+    for variable, prefix in variables.items():
+        # find the right spot in the ret dictionary
+        e = ret
+        for name in prefix[:-1]:
+            e = e.setdefault(name, {})
+
+        # set it to the value
+        e[prefix[-1]] = variable
 
     return ret
 
-- 
2.43.0


From 7905bf516f3b8c9a23979f71aa6a1263324da73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 078/145] fix: hyperparameters of mixed variable operators can
 not be set

---
 pymoo/core/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index d028932..154fcd7 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -64,7 +64,8 @@ def get_params_bfs(obj, flag, only_active):
             visited[id(obj)] = len(prefix)
 
             for key, value in get_data(obj).items():
-                q.append((prefix + [key], value))
+                # operators can be provided for each type of variable - use the name of the type
+                q.append((prefix + [key.__name__ if isinstance(key, type) else key], value))
 
     ret = {}
     for variable, prefix in variables.items():
@@ -141,8 +142,11 @@ def set_params(obj, params, as_value=True):
         as_value: If True, call set() method on parameters. If False, assign directly.
     """
     data = get_data(obj)
+    types = {key.__name__: key for key in data if isinstance(key, type)}
 
     for k, v in params.items():
+        k = types.get(k, k)
+
         if isinstance(v, dict):
             set_params(data[k], v, as_value=as_value)
         else:
-- 
2.43.0


From 18d5c5da4dc97a26e2f3c857f63c7f717fa2da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 079/145] fix: sampling a choice changes the type of its
 options

---
 pymoo/core/variable.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..489d672 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,14 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        options = list(self.options)
+
+        # options of different types or sequences might be changed if they are converted to an array
+        if len(set(type(e) for e in options)) > 1 or any(np.ndim(e) > 0 for e in options):
+            options = np.empty(len(self.options), dtype=object)
+            options[:] = list(self.options)
+
+        return random_state.choice(options, size=n)
 
 
 def get(
-- 
2.43.0


From 90afe5d365f9cf9229881c6ee7bc780c5fddd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 080/145] fix: parameter control does not use the random state
 of the run

---
 pymoo/algorithms/soo/nonconvex/de.py | 2 +-
 pymoo/operators/control.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 239a368..86a6f85 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
-- 
2.43.0


From 49b1156210d37015217ab7d918d09912cd730efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 081/145] fix: mixed variable mating fails if the options of a
 choice are sequences

---
 pymoo/core/mixed.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 3a435c8..dd15403 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -104,18 +104,18 @@ class MixedVariableMating(InfillCriterion):
             crossover = self.crossover[clazz]
             assert crossover.n_parents == XOVER_N_PARENTS and crossover.n_offsprings == XOVER_N_OFFSPRINGS
 
-            _parents = [
-                [
-                    Individual(
-                        X=np.array(
-                            [parent.X[var] for var in list_of_vars],
-                            dtype="O" if clazz is Choice else None,
-                        )
-                    )
-                    for parent in parents
-                ]
-                for parents in pop
-            ]
+            def to_array(parent):
+                vals = [parent.X[var] for var in list_of_vars]
+                if clazz is not Choice:
+                    return np.array(vals)
+
+                # an option can be anything (also a sequence) and must stay what it is
+                ret = np.empty(len(vals), dtype=object)
+                for i, val in enumerate(vals):
+                    ret[i] = val
+                return ret
+
+            _parents = [[Individual(X=to_array(parent)) for parent in parents] for parents in pop]
 
             _vars = {e: vars[e] for e in list_of_vars}
             _xl = np.array([vars[e].lb if hasattr(vars[e], "lb") else None for e in list_of_vars])
-- 
2.43.0


From e326fd63eda0dbfc677c6234d6bad3a050ddc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 082/145] fix: pseudo weights are not defined if an objective
 is constant

---
 pymoo/mcdm/pseudo_weights.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymoo/mcdm/pseudo_weights.py b/pymoo/mcdm/pseudo_weights.py
index 8c70543..c40378c 100644
--- a/pymoo/mcdm/pseudo_weights.py
+++ b/pymoo/mcdm/pseudo_weights.py
@@ -19,10 +19,12 @@ class PseudoWeights(DecisionMaking):
             nadir = F.max(axis=0)
 
         # normalized distance to the worst solution
-        pseudo_weights = (nadir - F) / (nadir - ideal)
+        norm = nadir - ideal
+        pseudo_weights = (nadir - F) / np.where(norm == 0, 1.0, norm)
 
-        # normalize weights to sum up to one
-        pseudo_weights = pseudo_weights / np.sum(pseudo_weights, axis=1)[:, None]
+        # normalize weights to sum up to one - all are equally important if there is no difference to the worst at all
+        total = np.sum(pseudo_weights, axis=1)[:, None]
+        pseudo_weights = np.where(total == 0, 1.0 / F.shape[1], pseudo_weights / np.where(total == 0, 1.0, total))
 
         # search for the closest individual having this pseudo weights
         I = np.argmin(np.sum(np.abs(pseudo_weights - self.weights), axis=1))  # noqa: E741
-- 
2.43.0


From 1955d2723bbc8134884e159ce62bf88ba4d9a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 083/145] fix: high trade-off points ignore the radius provided

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..2497ded 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From eab73f559da7cf36868b9fbb230aa0336320e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 084/145] fix: finding neighbors fails without a minimum number
 of neighbors

---
 pymoo/core/decision_making.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 0a49f39..4fccddd 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -30,7 +30,7 @@ class NeighborFinder:
 
         # disable the minimum neighbor variable
         else:
-            self.n_min_neigbors = np.inf
+            self.n_min_neigbors = 0
 
         # either choose epsilon
         self.epsilon = epsilon
-- 
2.43.0


From 763700fbab90368b2bf5df795ccdf3de61aa0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 085/145] fix: high trade-off points fail if no trade-off can
 be calculated

---
 pymoo/core/decision_making.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/core/decision_making.py b/pymoo/core/decision_making.py
index 4fccddd..2065d89 100644
--- a/pymoo/core/decision_making.py
+++ b/pymoo/core/decision_making.py
@@ -84,6 +84,10 @@ def find_outliers_upper_tail(mu):
     )[0]
     mu = mu[I]
 
+    # if no value is left none can be an outlier
+    if len(mu) == 0:
+        return None
+
     # calculate mean and sigma
     mean, sigma = mu.mean(), mu.std()
 
-- 
2.43.0


From b6900091f4cfdd5093a3bc0ff86a0cad99b1f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 086/145] fix: the pareto front of the inverted DTLZ1 can not
 be calculated

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 1fbc2a1..d575019 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -466,7 +466,7 @@ class InvertedDTLZ1(DTLZ1):
         Returns:
             Pareto front solutions.
         """
-        return self.problem.pareto_front(*args, **kwargs)
+        return 0.5 - super()._calc_pareto_front(*args, **kwargs)
 
 
 class ScaledProblem(Problem):
-- 
2.43.0


From a55ff685d7ddb591c0964fe5550af9b8ce0d3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 087/145] fix: the pareto front of the convex DTLZ problems
 requires reference directions

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index d575019..658e545 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -573,7 +573,7 @@ class ConvexProblem(Problem):
         self.problem._evaluate(x, out, **kwargs)
         out["F"] = anp.power(out["F"], self.get_power(self.n_obj))
 
-    def _calc_pareto_front(self, ref_dirs, *args, **kwargs):
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
         """Calculate Pareto front with convex transformation.
 
         Args:
-- 
2.43.0


From 9b1f8a21b5b02d189368683f4d365bd14949c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 088/145] fix: fronts calculated without the cache still use
 the cached result of the inner problem

---
 pymoo/problems/many/dtlz.py | 4 ++--
 pymoo/problems/multi/srn.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 658e545..68e5fc2 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -526,7 +526,7 @@ class ScaledProblem(Problem):
         Returns:
             Scaled Pareto front solutions.
         """
-        return self.problem.pareto_front(*args, **kwargs) * ScaledProblem.get_scale(self.n_obj, self.scale_factor)
+        return self.problem.pareto_front(*args, use_cache=False, **kwargs) * ScaledProblem.get_scale(self.n_obj, self.scale_factor)
 
 
 class ConvexProblem(Problem):
@@ -584,7 +584,7 @@ class ConvexProblem(Problem):
         Returns:
             Transformed Pareto front solutions.
         """
-        F = self.problem.pareto_front(ref_dirs)
+        F = self.problem.pareto_front(ref_dirs, use_cache=False)
         return np.power(F, self.get_power(self.n_obj))
 
 
diff --git a/pymoo/problems/multi/srn.py b/pymoo/problems/multi/srn.py
index 94fa568..21a06b2 100644
--- a/pymoo/problems/multi/srn.py
+++ b/pymoo/problems/multi/srn.py
@@ -21,7 +21,7 @@ class SRN(Problem):
         out["G"] = anp.column_stack([g1, g2])
 
     def _calc_pareto_front(self, *args, n_points: int = 100, **kwargs) -> np.ndarray:  # noqa: ARG002
-        ps = self.pareto_set(n_points=n_points)
+        ps = self._calc_pareto_set(n_points=n_points)
         return self.evaluate(ps, return_values_of=["F"])
 
     def _calc_pareto_set(self, *args, n_points: int = 100, **kwargs) -> np.ndarray:  # noqa: ARG002
-- 
2.43.0


From 9d01fb5b8ba6dd734823f4104dee46b7fb89875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 089/145] fix: MW fronts modify the reference directions
 provided

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..d510d3f 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From c0b612c52ca235680de13581fd0f360cbb87e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 090/145] fix: MW11 evaluates to nan at the upper bound

---
 pymoo/problems/multi/mw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index d510d3f..b7c7fc8 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -317,7 +317,7 @@ class MW11(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(2.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(0.0, 2.0 - np.power(f0 / g, 2.0)))
 
         g0 = -1.0 * (3.0 - f0 * f0 - f1) * (3.0 - 2.0 * f0 * f0 - f1)
         g1 = (3.0 - 0.625 * f0 * f0 - f1) * (3.0 - 7.0 * f0 * f0 - f1)
-- 
2.43.0


From 7893707f139d0bbbe190b1b0621e20cc31a8ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 091/145] fix: the bounds of the flowshop problem do not
 contain all jobs

---
 pymoo/problems/single/flowshop_scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/flowshop_scheduling.py b/pymoo/problems/single/flowshop_scheduling.py
index aafc778..27c4425 100644
--- a/pymoo/problems/single/flowshop_scheduling.py
+++ b/pymoo/problems/single/flowshop_scheduling.py
@@ -20,7 +20,7 @@ class FlowshopScheduling(ElementwiseProblem):
         n_machines, n_jobs = processing_times.shape
         self.records = processing_times
 
-        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_machines, vtype=int, **kwargs)
+        super().__init__(n_var=n_jobs, n_obj=1, xl=0, xu=n_jobs, vtype=int, **kwargs)
 
     def _evaluate(self, x: Any, out: Any, *args: Any, **kwargs: Any) -> Any:  # noqa: ARG002
         out["F"] = self.makespan(x)
-- 
2.43.0


From 26e0c9bb75cd41b57143df26f5e7c15e2aba13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 092/145] fix: the pareto set of himmelblau has three
 dimensions

---
 pymoo/problems/single/himmelblau.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..6e2722d 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -1,5 +1,7 @@
 """Himmelblau single-objective test problem."""
 
+import numpy as np
+
 from pymoo.core.problem import Problem
 
 
@@ -14,9 +16,11 @@ class Himmelblau(Problem):
         return 0
 
     def _calc_pareto_set(self):
-        return [
-            [3.0, 2.0],
-            [-2.805118, 3.131312],
-            [-3.779310, -3.283186],
-            [3.584428, -1.848126],
-        ]
+        return np.array(
+            [
+                [3.0, 2.0],
+                [-2.805118, 3.131312],
+                [-3.779310, -3.283186],
+                [3.584428, -1.848126],
+            ]
+        )
-- 
2.43.0


From 092b46a3746ebdeb2d5b6679584cfda1b2f480e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 093/145] fix: the pareto set of the pressure vessel does not
 belong to its pareto front

---
 pymoo/problems/single/pressure_vessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/pressure_vessel.py b/pymoo/problems/single/pressure_vessel.py
index 0b56a3d..0791456 100644
--- a/pymoo/problems/single/pressure_vessel.py
+++ b/pymoo/problems/single/pressure_vessel.py
@@ -29,4 +29,4 @@ class PressureVessel(Problem):
         return 5.8853e03
 
     def _calc_pareto_set(self):
-        return [13, 7, 42.0984456, 176.6366]
+        return [12.4506985, 6.1543872, 40.3196187, 200.0]
-- 
2.43.0


From 16478e9096a5b956fc6af521f0c67717f42a5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 094/145] fix: the pareto set of G18 is not optimal

---
 pymoo/problems/single/g.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pymoo/problems/single/g.py b/pymoo/problems/single/g.py
index 4c44159..1bf4e0c 100644
--- a/pymoo/problems/single/g.py
+++ b/pymoo/problems/single/g.py
@@ -754,15 +754,15 @@ class G18(G):
 
     def _calc_pareto_set(self):
         return [
-            -0.9890005492667746,
-            0.1479118418638228,
-            -0.6242897641574451,
-            -0.7811841737429015,
-            -0.9876159387318453,
-            0.1504778305249072,
-            -0.6225959783340022,
-            -0.782543417629948,
-            0.0,
+            -0.657776192427943163,
+            -0.153418773482438542,
+            0.323413871675240938,
+            -0.946257611651304398,
+            -0.657776194376798906,
+            -0.753213434632691414,
+            0.323413874123576972,
+            -0.346462947962331735,
+            0.59979466285217542,
         ]
 
 
-- 
2.43.0


From bb34f93fec5c933b917a2035a1168698f91e9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 095/145] fix: the pareto front of DTLZ7 contains dominated
 points

---
 pymoo/problems/many/dtlz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 68e5fc2..61a233f 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -412,8 +412,13 @@ class DTLZ7(DTLZ):
         # At the Pareto front: g* = 1, so f_M = (1+g*)*h = 2*h
         # h = n_obj - sum(f_i/(1+g*) * (1+sin(3pi*f_i))) = n_obj - sum(f_i/2*(1+sin(3pi*f_i)))
         # => f_M = 2*n_obj - sum(f_i*(1+sin(3pi*f_i)))
+        # this is only optimal if no smaller f_i has a larger value of f_i*(1+sin(3pi*f_i))
+        f = np.linspace(0, 1, 10001)
+        val = f * (1 + np.sin(3 * np.pi * f))
+        f = f[val >= np.maximum.accumulate(val)]
+
         rng = np.random.default_rng(42)
-        F_first = rng.random((n_points * 20, self.n_obj - 1))
+        F_first = f[rng.integers(len(f), size=(n_points * 20, self.n_obj - 1))]
         F_last = 2 * self.n_obj - np.sum(F_first * (1 + np.sin(3 * np.pi * F_first)), axis=1)
         valid = F_last >= 0
         return np.column_stack([F_first[valid], F_last[valid]])
-- 
2.43.0


From 11ed38eab8c1862a98635efbf8116b2bb1751f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 096/145] fix: the pareto front of C3DTLZ1 is not feasible

---
 pymoo/problems/many/cdtlz.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pymoo/problems/many/cdtlz.py b/pymoo/problems/many/cdtlz.py
index dd08d79..d15573f 100644
--- a/pymoo/problems/many/cdtlz.py
+++ b/pymoo/problems/many/cdtlz.py
@@ -179,6 +179,25 @@ class C3DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_c3_linear(out["F"])
 
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            ref_dirs: Reference directions.
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        if ref_dirs is None:
+            ref_dirs = get_ref_dirs(self.n_obj)
+        F = super()._calc_pareto_front(ref_dirs, *args, **kwargs)
+
+        # the most restrictive constraint is the one of the smallest objective
+        a = np.sum(F, axis=1, keepdims=True) + np.min(F, axis=1, keepdims=True)
+        return F / a
+
 
 class C3DTLZ4(DTLZ4):
     """Constrained DTLZ4 problem with multiple spherical inequality constraints."""
-- 
2.43.0


From 0a9349669422c15e159e0b3cbbd0be573c843762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 097/145] fix: the pareto front of WFG2 contains dominated
 points

---
 pymoo/problems/many/wfg.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..a821273 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -8,6 +8,7 @@ from pymoo.core.problem import Problem
 from pymoo.problems.many import generic_sphere, get_ref_dirs
 from pymoo.functions import load_function
 from pymoo.util.misc import powerset
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util import default_random_state
 
 
@@ -94,6 +95,10 @@ class WFG(Problem):
         """Calculate objective values from post-processed variables."""
         return x[:, -1][:, None] + s * np.column_stack(h)
 
+    def _filter_pareto_front(self, pf):
+        """Remove points not being part of the Pareto front."""
+        return pf
+
     @default_random_state
     def _rand_optimal_position(self, n, random_state=None):
         """Generate random optimal positions in the parameter space."""
@@ -141,7 +146,7 @@ class WFG(Problem):
                 self._calc_pareto_set_interior(points_each_iteration),
                 return_values_of=["F"],
             )
-            pf = np.vstack([pf, _pf])
+            pf = self._filter_pareto_front(np.vstack([pf, _pf]))
 
             ideal, nadir = pf.min(axis=0), pf.max(axis=0)
 
@@ -265,6 +270,10 @@ class WFG2(WFG):
 
         out["F"] = self._calculate(y, self.S, h)
 
+    def _filter_pareto_front(self, pf):
+        """Keep only non-dominated points because the front is disconnected."""
+        return pf[NonDominatedSorting().do(pf, only_non_dominated_front=True)]
+
 
 class WFG3(WFG):
     """WFG3 test problem with linear shape and degeneracy."""
-- 
2.43.0


From 0e8c5d1ff58ad095e044df45b68a420ce3813aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 098/145] fix: the pareto fronts of DC1DTLZ and DC3DTLZ are not
 feasible

---
 pymoo/problems/many/dcdtlz.py | 93 +++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/pymoo/problems/many/dcdtlz.py b/pymoo/problems/many/dcdtlz.py
index 0908e27..87e31e6 100644
--- a/pymoo/problems/many/dcdtlz.py
+++ b/pymoo/problems/many/dcdtlz.py
@@ -1,6 +1,7 @@
 """Degenerate constrained DTLZ test problems (DC1DTLZ1, DC1DTLZ3, DC2DTLZ1, DC2DTLZ3, DC3DTLZ1, DC3DTLZ3)."""
 
 import pymoo.gradient.toolbox as anp
+import numpy as np
 
 from pymoo.problems.many.dtlz import DTLZ1, DTLZ3
 
@@ -52,6 +53,42 @@ def constraints_dc3(X, gx, a: int = 5, b: float = 0.5):
     return anp.column_stack([Ggx, Gx])
 
 
+def position_linear(F):
+    """Get the position variables of points on the DTLZ1 front.
+
+    Args:
+        F: Points on the Pareto front.
+
+    Returns:
+        Position variables (zero if a variable has no influence on the point).
+    """
+    X, rest = [], np.sum(F, axis=1)
+    for i in range(F.shape[1] - 1):
+        f = F[:, -1 - i]
+        free = rest <= 1e-8
+        X.append(np.where(free, 0.0, 1 - f / np.where(free, 1.0, rest)))
+        rest = rest - f
+    return np.column_stack(X)
+
+
+def position_spherical(F):
+    """Get the position variables of points on the DTLZ3 front.
+
+    Args:
+        F: Points on the Pareto front.
+
+    Returns:
+        Position variables (zero if a variable has no influence on the point).
+    """
+    X, rest = [], np.sum(F**2, axis=1)
+    for i in range(F.shape[1] - 1):
+        f = F[:, -1 - i]
+        free = rest <= 1e-8
+        X.append(np.where(free, 0.0, 2 / np.pi * np.arcsin(np.clip(f / np.sqrt(np.where(free, 1.0, rest)), 0, 1))))
+        rest = rest - f**2
+    return np.column_stack(X)
+
+
 class DC1DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with one inequality constraint."""
 
@@ -78,6 +115,20 @@ class DC1DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Feasible solutions of the unconstrained Pareto front.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = position_linear(F)
+        return F[constraint_dc1(X) <= 1e-8]
+
 
 class DC1DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with one inequality constraint."""
@@ -105,6 +156,20 @@ class DC1DTLZ3(DTLZ3):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_dc1(x)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Feasible solutions of the unconstrained Pareto front.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = position_spherical(F)
+        return F[constraint_dc1(X) <= 1e-8]
+
 
 class DC2DTLZ1(DTLZ1):
     """Degenerate constrained DTLZ1 problem with two inequality constraints."""
@@ -191,6 +256,20 @@ class DC3DTLZ1(DTLZ1):
         out["F"] = self.obj_func(X_, g)
         out["G"] = constraints_dc3(X_, g)
 
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Feasible solutions of the unconstrained Pareto front.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = position_linear(F)
+        return F[np.all(constraints_dc3(X, np.zeros(len(X))) <= 1e-8, axis=1)]
+
 
 class DC3DTLZ3(DTLZ3):
     """Degenerate constrained DTLZ3 problem with multiple inequality constraints."""
@@ -218,3 +297,17 @@ class DC3DTLZ3(DTLZ3):
         g = self.g1(X_M)
         out["F"] = self.obj_func(X_, g, alpha=1)
         out["G"] = constraints_dc3(X_, g)
+
+    def _calc_pareto_front(self, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Feasible solutions of the unconstrained Pareto front.
+        """
+        F = super()._calc_pareto_front(*args, **kwargs)
+        X = position_spherical(F)
+        return F[np.all(constraints_dc3(X, np.zeros(len(X))) <= 1e-8, axis=1)]
-- 
2.43.0


From 041445ad51751d3fcb2b866aa84b5b9f54a4040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 099/145] fix: MW6 evaluates to nan at the upper bound

---
 pymoo/problems/multi/mw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index b7c7fc8..ea98a38 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -195,7 +195,7 @@ class MW6(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.1 * 1.1 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(0.0, 1.1 * 1.1 - np.power(f0 / g, 2.0)))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
-- 
2.43.0


From 646f72e3ef1e11261963b81032dcd04417031ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 100/145] fix: setting the time of a dynamic problem keeps the
 pareto front of the previous time

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..f863ad3 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # remove the cache of the problem to recreate ps and pf
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From 35fb5d17b371212f370a2870c93cc9dc4d6e96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 101/145] fix: DF12 evaluates a design depending on the others
 in the batch

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From 92bd515fc372e553283f39985a9ed003bd1c2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 102/145] fix: D-NSGA-II-B fails if no individual is selected
 to be mutated after a change

---
 pymoo/algorithms/moo/dnsga2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 954a0ee..7f4bab7 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,8 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
+                if len(I) > 0:
+                    self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From 5ee5eed62c7e060e089e6f5f624ebf3a447ffdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 103/145] fix: the gradient backend stays active if the problem
 raises an exception

---
 pymoo/gradient/automatic.py | 44 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 18b53a6..7057f3f 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -16,17 +16,19 @@ class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
         f = super().__call__
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
 
-            out, grad = jax_elementwise_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
+                out, grad = jax_elementwise_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
 
-            out, grad = autograd_elementwise_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_elementwise_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = np.array(v)
@@ -69,17 +71,19 @@ class AutomaticDifferentiation(Meta, Problem):
         f = F(self.__object__)
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
-
-            out, grad = jax_vectorized_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
-
-            out, grad = autograd_vectorized_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
+
+                out, grad = jax_vectorized_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
+
+                out, grad = autograd_vectorized_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = v
-- 
2.43.0


From 32fe28fe4400fd7c45ebd4896e53caadf4ae99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 104/145] fix: element-wise automatic differentiation fails for
 constant values

---
 pymoo/gradient/grad_autograd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymoo/gradient/grad_autograd.py b/pymoo/gradient/grad_autograd.py
index a4fca86..6c65a4c 100644
--- a/pymoo/gradient/grad_autograd.py
+++ b/pymoo/gradient/grad_autograd.py
@@ -85,6 +85,11 @@ def autograd_elementwise_value_and_grad(f, x):  # type: ignore[name-defined]
             if len(val.shape) == 0:
                 val = anp.array([val])
 
+            # if the value does not depend on the variables the gradient is zero
+            if not isbox(val):
+                jac[name] = np.zeros((len(val), len(x)))
+                continue
+
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
 
-- 
2.43.0


From 8944bad2dc7ab0f2554d42e738d672d9c2f33993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 105/145] fix: gradients are missing or infinite if only values
 or only gradients are requested

---
 pymoo/gradient/automatic.py    |  9 ++++++++-
 pymoo/gradient/grad_complex.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 7057f3f..49e07ad 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -7,6 +7,12 @@ from pymoo.core.problem import Problem, ElementwiseEvaluationFunction
 from pymoo.gradient import activate, deactivate
 
 
+def values_to_differentiate(return_values_of):
+    """Get the names of all values to be evaluated to return the values and gradients requested."""
+    vals = [v[1:] if v in ("dF", "dG", "dH") else v for v in return_values_of]
+    return list(dict.fromkeys(v for v in vals if not v.startswith("d")))
+
+
 class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
     def __init__(self, problem, backend="autograd", args=(), kwargs={}):
         super().__init__(problem, args, kwargs)
@@ -59,7 +65,8 @@ class AutomaticDifferentiation(Meta, Problem):
 
     def do(self, x, return_values_of, *args, **kwargs):
 
-        vals_not_grad = [v for v in return_values_of if not v.startswith("d")]
+        # the values to be calculated, also if only their gradients are requested
+        vals_not_grad = values_to_differentiate(return_values_of)
 
         class F:
             def __init__(self, object):
diff --git a/pymoo/gradient/grad_complex.py b/pymoo/gradient/grad_complex.py
index 811c947..49b336d 100644
--- a/pymoo/gradient/grad_complex.py
+++ b/pymoo/gradient/grad_complex.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from pymoo.core.meta import Meta
 from pymoo.core.problem import Problem
+from pymoo.gradient.automatic import values_to_differentiate
 
 
 def calc_complex_gradient(problem, return_values_of, x, eps, *args, **kwargs):
@@ -36,14 +37,18 @@ class ComplexNumberGradient(Meta, Problem):
         self.eps = eps
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # the values to be calculated, also if only their gradients are requested
+        vals_not_grad = values_to_differentiate(return_values_of)
 
-        vals_not_grad = [v for v in return_values_of if not v.startswith("d")]
+        out = self.__object__.do(X, vals_not_grad, *args, **kwargs)
+
+        for name in vals_not_grad:
+            out["d" + name] = np.full(np.shape(out[name]) + (X.shape[1],), np.inf)
 
         for i, x in enumerate(X):
             grad = calc_complex_gradient(self.__object__, vals_not_grad, x, self.eps, *args, **kwargs)
 
-            for name, value in grad.items():
-                out["d" + name][i] = value
+            for name in vals_not_grad:
+                out["d" + name][i] = grad[name]
 
         return out
-- 
2.43.0


From 70e01b5269bd3170a0b5b82c02a76421bcbfb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 106/145] fix: DEX ignores its dither and jitter parameters

---
 pymoo/operators/crossover/dex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index b768ce1..e4a56e2 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -100,7 +100,7 @@ class DEX(Crossover):
         F = self.F if self.F is not None else rnd_F(m, random_state=random_state)
 
         # prepare the out to be set
-        Xp = de_differential(X[:, m], F, random_state=random_state)
+        Xp = de_differential(X[:, m], F, self.dither, self.jitter, random_state=random_state)
 
         # if the problem has boundaries to be considered
         if problem.has_bounds():
@@ -111,7 +111,7 @@ class DEX(Crossover):
                 F = rnd_F(m, random_state=random_state)
 
                 # actually execute the differential equation
-                Xp[m] = de_differential(X[:, m], F, random_state=random_state)
+                Xp[m] = de_differential(X[:, m], F, self.dither, self.jitter, random_state=random_state)
 
             # if still infeasible do a random initialization
             Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
-- 
2.43.0


From 18971c217ed0fc59629aa0884095a8981458167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 107/145] fix: RVEA keeps a solution exactly on a reference
 vector whatever its APD (nan)

---
 pymoo/algorithms/moo/rvea.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index 12b42a2..c2ce61a 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -110,7 +110,7 @@ class RVEA(GeneticAlgorithm):
 
 
 def calc_gamma(V):
-    gamma = np.arccos((-np.sort(-1 * V @ V.T))[:, 1])
+    gamma = np.arccos(np.clip((-np.sort(-1 * V @ V.T))[:, 1], -1.0, 1.0))
     gamma = np.maximum(gamma, 1e-64)
     return gamma
 
@@ -173,7 +173,8 @@ class APDSurvival(Survival):
         F_prime = F / dist_to_ideal[:, None]
 
         # calculate for each solution the acute angles to ref dirs
-        acute_angle = np.arccos(F_prime @ self.V.T)
+        # (rounding must not make the cosine larger than one - the angle and the APD would be nan)
+        acute_angle = np.arccos(np.clip(F_prime @ self.V.T, -1.0, 1.0))
         niches = acute_angle.argmin(axis=1)
 
         # assign to each reference direction the solution
-- 
2.43.0


From 70214d74a78dfa8fc3b27ece3cf31b1cc5b77b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 108/145] fix: NelderMead ignores init_simplex_scale

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 2e9f8b1..ad5b22f 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -141,7 +141,7 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
-- 
2.43.0


From 5436dbaf40fcae685e4b9db5905310d6650bad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 109/145] fix: Wolfe line search zooms into an interval without
 a suitable step

---
 pymoo/algorithms/soo/univariate/wolfe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index abafb25..2a45c26 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -78,7 +78,7 @@ class WolfeSearch(Algorithm):
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
             # if the wolfe condition is violate we have found our upper bound
-            if _F > sol_F + self.c1 * sol_dF @ direction or (i > 1 and F >= _F):
+            if _F > sol_F + self.c1 * sol_dF @ direction or (i > 1 and _F >= F):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
@@ -141,7 +141,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
         # if the wolfe condition is violate we have found our upper bound
-        if _F > sol_F + c1 * sol_dF @ direction or (i > 1 and F >= _F):
+        if _F > sol_F + c1 * sol_dF @ direction or (i > 1 and _F >= F):
             return zoom(last, current)
 
         # for the other condition we need the gradient information
-- 
2.43.0


From f3b2bdb0c9395171b3c373e36e6cb792a2dcce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 110/145] fix: QuadraticInterpolationSearch leaves its bracket
 and never interpolates

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..ff72306 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -51,11 +51,11 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
-            else:
                 b = c
+            else:
+                a = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From 276a39fa86d90f89b0a4a35cb52e79c8b834f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 111/145] fix: BracketSearch ignores the bounds it is created
 with

---
 pymoo/algorithms/base/bracket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..0785805 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -14,7 +14,8 @@ class BracketSearch(Algorithm):
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+        self.a = a if a is not None else self.a
+        self.b = b if b is not None else self.b
 
     def _initialize_infill(self):
 
-- 
2.43.0


From 0e1a04303d1b778125434444786efe830a9f5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 112/145] fix: DIRECT divides boxes that are not potentially
 optimal if there are too many candidates

---
 pymoo/algorithms/soo/nonconvex/direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 68ce8eb..feb9b39 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,7 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem, candidates, n_survive=self.n_max_candidates, algorithm=self
                 )
 
             return candidates
-- 
2.43.0


From bd281b9ab6ea9045876c41a748b578a93d925edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 113/145] fix: DE with fewer offsprings than members never
 replaces the remaining members

---
 pymoo/algorithms/soo/nonconvex/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 86a6f85..54eb8eb 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -273,10 +273,11 @@ class DE(GeneticAlgorithm):
         FitnessSurvival().do(self.problem, self.pop, return_indices=True)
 
     def _infill(self):
+        # one trial for each member - only some of them are used if fewer offsprings are asked for
         infills = self.mating.do(
             self.problem,
             self.pop,
-            self.n_offsprings,
+            max(self.n_offsprings, len(self.pop)),
             algorithm=self,
             random_state=self.random_state,
         )
-- 
2.43.0


From 6e88053178b3b4f9812ae331ee745417f40a44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 114/145] fix: parents selected for a differential are not
 distinct

---
 pymoo/operators/selection/rnd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..87b455f 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,11 +50,17 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
 
+        # if there are still duplicates directly draw from the indices not used yet
+        for k in rem:
+            allowed = np.setdiff1d(np.arange(N), D[k])
+            if len(allowed) > 0:
+                X[k, col] = random_state.choice(allowed)
+
         J.append(col)
 
     return X
-- 
2.43.0


From f740e7b06c0f233b5207cea772c7b5839c3a3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 115/145] fix: NRBO proposes nan if the best solution is the
 origin

---
 pymoo/algorithms/soo/nonconvex/nrbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index ed4bb17..ef1f1be 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -52,7 +52,9 @@ def Search_Rule(Xb, Xw, Xn, rho, random_state=None):
     yw = r1 * (tmp + r1 * dx)
     yb = r1 * (tmp - r1 * dx)
 
-    NRSR = random_state.standard_normal() * ((yw - yb) * dx) / (2 * (yw + yb - 2 * Xn))
+    tmp = yw + yb - 2 * Xn
+    tmp[tmp == 0.0] = 1e-12
+    NRSR = random_state.standard_normal() * ((yw - yb) * dx) / (2 * tmp)
 
     step = NRSR - rho
     X1 = Xn - step
-- 
2.43.0


From 10c1c55f23a0cd9bcb3a5a36fc6dfa6fa426cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 116/145] fix: ToReplacement fails and takes the indices of the
 sorted solutions for their ranks

---
 pymoo/core/survival.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..bab54da 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -128,6 +128,7 @@ class ToReplacement(Survival):
         pop: Any,
         off: Any,
         random_state: Any = None,
+        n_survive: int | None = None,
         **kwargs: Any,
     ) -> Any:
         """Perform replacement."""
@@ -140,7 +141,9 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+        rank = np.empty(len(merged), dtype=int)
+        rank[indices] = np.arange(len(merged))
+        merged.set("__rank__", rank)
 
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
-- 
2.43.0


From 742629c7067ea0f23698885947e976405c6b4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 117/145] fix: numbers wider than their column are displayed as
 different numbers

---
 pymoo/util/display/column.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/display/column.py b/pymoo/util/display/column.py
index e183820..48bb8d4 100644
--- a/pymoo/util/display/column.py
+++ b/pymoo/util/display/column.py
@@ -1,5 +1,7 @@
 """Column display formatting for algorithm output."""
 
+from numbers import Number
+
 import numpy as np
 
 
@@ -44,7 +46,8 @@ def format_text(value, width, truncate):
         else:
             text = str(value)
 
-        if truncate and len(text) > width:
+        # a number is never truncated, because the remaining digits are a different number
+        if truncate and len(text) > width and not isinstance(value, Number):
             text = text[:width]
     else:
         text = "-"
-- 
2.43.0


From 7c875640d9cd98cc1bd47819579deb222a899d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 118/145] fix: RunningMetric is nan or huge if an objective of
 all solutions is zero

---
 pymoo/util/running_metric.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/util/running_metric.py b/pymoo/util/running_metric.py
index fba919c..a6a3425 100644
--- a/pymoo/util/running_metric.py
+++ b/pymoo/util/running_metric.py
@@ -49,8 +49,7 @@ class RunningMetric(Callback):
         # find the normalization constant to divide by
         norm = c_nadir - c_ideal
 
-        # make sure all dimensions in ideal are strictly lower than in nadir
-        c_nadir[c_ideal == c_nadir] += 1e-16
+        # if the range is degenerated disable the normalization by dividing by one
         norm[c_ideal == c_nadir] = 1.0
 
         # append the current optimum to the history
-- 
2.43.0


From f7bdd91695b5c6081ba60b4af20e87d2a1d400a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 119/145] fix: PINSGA2 uses the preference only for solutions
 which come later in the population

---
 pymoo/util/vf_dominator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/util/vf_dominator.py b/pymoo/util/vf_dominator.py
index e782ff3..cc96db7 100644
--- a/pymoo/util/vf_dominator.py
+++ b/pymoo/util/vf_dominator.py
@@ -93,6 +93,9 @@ class VFDominator:
 
             dom = np.logical_or(dom, split_by_v2)
 
+            # the same the other way round, the relation has to be antisymmetric
+            non_dom = np.logical_or(non_dom, np.reshape(np.logical_and(Lv > v2, Rv < v2), (n, m)))
+
         M = non_dom * 1 + dom * -1
 
         return M
-- 
2.43.0


From 2a807bca7319e607991140d491b620c65a39ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 120/145] fix: PINSGA2 takes the rank of the second solution
 for the position of the second best

---
 pymoo/algorithms/moo/pinsga2.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index df84e1a..38e6d0e 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -332,7 +332,8 @@ class PINSGA2(GeneticAlgorithm):
                 if vf_res.fit:
                     self.vf_res = vf_res
                     self.vf_plot_flag = True
-                    self.v2 = self.vf_res.vf(eta_F[dm_ranks[1] - 1] * -1).item()
+                    second = np.argsort(dm_ranks, kind="stable")[1]
+                    self.v2 = self.vf_res.vf(eta_F[second] * -1).item()
                     break
 
                 else:
@@ -348,14 +349,10 @@ class PINSGA2(GeneticAlgorithm):
                     else:
                         self._warn("Removing the second best preferred solution from the fit.")
 
-                        # ranks start at 1, not zero
-                        rank_to_remove = dm_ranks[1]
-                        eta_F = np.delete(eta_F, rank_to_remove - 1, axis=0)
-
-                        dm_ranks = np.concatenate(([dm_ranks[0]], dm_ranks[2:]))
-
-                        # update the ranks, since we just removed one
-                        dm_ranks[dm_ranks > rank_to_remove] = dm_ranks[dm_ranks > rank_to_remove] - 1
+                        # only the order of the ranks matters, the others can stay as they are
+                        second = np.argsort(dm_ranks, kind="stable")[1]
+                        eta_F = np.delete(eta_F, second, axis=0)
+                        dm_ranks = np.delete(dm_ranks, second)
 
 
 parse_doc_string(PINSGA2.__init__)
-- 
2.43.0


From 068e7b99a8890a85c8f2ad23ae5e3bea8c43d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 121/145] fix: PINSGA2 does not notice that the decision maker
 prefers no solution

---
 pymoo/algorithms/moo/pinsga2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 38e6d0e..7cde5ef 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -297,7 +297,9 @@ class PINSGA2(GeneticAlgorithm):
                 else:
                     raise ValueError("Invalid ranking type [%s] given." % self.ranking_type)
 
-            if len(set(rank)) == 0:
+            dm_ranks = np.asarray(dm_ranks)
+
+            if len(set(dm_ranks.tolist())) == 1:
                 self._warn("No preference between any two points provided.")
 
                 self._reset_dm_preference()
-- 
2.43.0


From d38bc1f62303b9965e64bdc633cc912715373353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 122/145] fix: PINSGA2 fails as long as no solution is feasible

---
 pymoo/algorithms/moo/pinsga2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 7cde5ef..2f5ca46 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -255,7 +255,11 @@ class PINSGA2(GeneticAlgorithm):
             self.presi_signs = np.ones(F.shape[1])
 
         # Eta is the number of solutions displayed to the DM
-        eta_F_indices = select_points_with_maximum_distance(F, to_find, random_state=self.random_state)
+        # no solution has a rank as long as none is feasible
+        if len(F) > 0:
+            eta_F_indices = select_points_with_maximum_distance(F, to_find, random_state=self.random_state)
+        else:
+            eta_F_indices = np.array([], dtype=int)
 
         self.eta_F = F[eta_F_indices]
         self.eta_F = self.eta_F[self.eta_F[:, 0].argsort()]
-- 
2.43.0


From f1510bf539d6daa24ed738d94566b8d23790c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 123/145] fix: PINSGA2 fails for ranks entered as asked for and
 accepts too few

---
 pymoo/algorithms/moo/pinsga2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 2f5ca46..d99b648 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -127,7 +127,10 @@ class PINSGA2(GeneticAlgorithm):
         if raw_ranks == "":
             ranks = []
         else:
-            ranks = [int(raw_rank) for raw_rank in raw_ranks.split()]
+            try:
+                ranks = [int(raw_rank) for raw_rank in raw_ranks.replace(",", " ").split()]
+            except ValueError:
+                ranks = []
 
         return ranks
 
@@ -213,7 +216,7 @@ class PINSGA2(GeneticAlgorithm):
         while ranks_invalid:
             fc = F.shape[0]
 
-            if len(ranks) > 0 and max(ranks) <= fc and min(ranks) >= 1:
+            if len(ranks) == fc and max(ranks) <= fc and min(ranks) >= 1:
                 ranks_invalid = False
 
             else:
-- 
2.43.0


From 3b98319b909d58b8f916f5d2282a30bf49219948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 124/145] fix: fitting a value function sorts the ranks of the
 caller

---
 pymoo/util/value_functions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..a769590 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -89,7 +89,7 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         ineq_ub.append(0)
 
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     constr = NonlinearConstraint(_build_constr_poly(P_sorted, poly_vf, ranks, delta), ineq_lb, ineq_ub)
 
@@ -149,7 +149,7 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
 
     # Sort P
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     # Inequality constraints
     lb = [-np.inf] * (P.shape[0] - 1)
@@ -600,12 +600,10 @@ class OptimizeLinearVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-        self.ranks = ranks
         self.delta = delta
 
         super().__init__(
@@ -692,8 +690,7 @@ class OptimizePolyVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-- 
2.43.0


From 74e560cef6a45a77b114b0e0b5c43848c2d9a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 125/145] fix: fitting a value function fails with SLSQP and if
 no feasible one is found

---
 pymoo/util/value_functions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index a769590..5f0d05b 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -638,18 +638,21 @@ def _validate_vf(res, verbose):
     message = ""
 
     if isinstance(res, pymoo.core.result.Result):
-        success = np.all(res.G <= 0)
-        epsilon = res.X[-1]
+        # there is no solution at all if none is feasible
+        success = res.X is not None and np.all(res.G <= 0)
+        epsilon = res.X[-1] if res.X is not None else -1000
         if not success:
             message = "Constraints not met\n"
         if epsilon < 0:
             message = message + "Epsilon negative\n"
 
     elif isinstance(res, OptimizeResult):
-        success = res.success and res.constr_violation <= 0
+        # not all methods report the violation, but none is successful without being feasible
+        violation = res.get("constr_violation", 0)
+        success = res.success and violation <= 0
         epsilon = res.x[-1]
 
-        if not (res.constr_violation <= 0):
+        if not (violation <= 0):
             message = "Constraints not met."
         else:
             message = res.message
-- 
2.43.0


From 70f4b5c815e1a2fbd71069b3c110a509658592a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 126/145] fix: create_vf passes verbose as the number of
 iterations

---
 pymoo/util/value_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index 5f0d05b..908276a 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -30,12 +30,12 @@ def create_vf(
 ):
 
     if vf == "linear":
-        return create_linear_vf(P, ranks, delta, eps_max, method, verbose)
+        return create_linear_vf(P, ranks, delta, eps_max, method)
     elif vf == "poly":
         return create_poly_vf(P, ranks, delta, eps_max, method, verbose)
 
     else:
-        raise ValueError("Value function '%d' not supported." % vf)
+        raise ValueError("Value function '%s' not supported." % vf)
 
     return lambda f_new: np.sum(f_new)
 
-- 
2.43.0


From 981d8322b9b275d7e3c5c61e5f73d864bc106bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:05 +0000
Subject: [PATCH 127/145] fix: ZeroToOne returns derivatives with respect to
 the original variables

---
 pymoo/problems/zero_to_one.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 3de4e4e..f52b0b3 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -19,6 +19,15 @@ class ZeroToOne(Meta, Problem):
         out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
+        # the derivatives are with respect to the normalized variables
+        xl, xu = self.__object__.bounds()
+        scale = np.where(xl == xu, 1.0, xu - xl)
+        for name in ["F", "G", "H"]:
+            if out.get("d" + name) is not None:
+                out["d" + name] = out["d" + name] * scale
+            if out.get("dd" + name) is not None:
+                out["dd" + name] = out["dd" + name] * scale[:, None] * scale
+
         return out
 
     def denormalize(self, x):
-- 
2.43.0


From eb29451a82bcbbdeecdf2b45532179f1c3627327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 128/145] fix: the archive misses the solutions of the current
 iteration for callbacks, history and result

---
 pymoo/core/algorithm.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index b812022..19a9dd0 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -220,6 +220,9 @@ class Algorithm:
             # set this algorithm to be initialized
             self.is_initialized = True
 
+            # add the infill solutions to an archive
+            self._add_to_archive(infills)
+
             # always advance to the next iteration after initialization
             self._post_advance()
 
@@ -227,6 +230,9 @@ class Algorithm:
             # call the implementation of the advance method - if the infill is not None
             val = self._advance(infills=infills, **kwargs)
 
+            # add the infill solutions to an archive
+            self._add_to_archive(infills)
+
             # always advance to the next iteration - except if the algorithm returns False
             if val is None or val:
                 self._post_advance()
@@ -240,10 +246,6 @@ class Algorithm:
         else:
             ret = self.opt  # type: ignore
 
-        # add the infill solutions to an archive
-        if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills, random_state=self.random_state)
-
         return ret
 
     def result(self) -> Result:
@@ -305,6 +307,10 @@ class Algorithm:
     def tell(self, *args, **kwargs) -> Population | Result:
         return self.advance(*args, **kwargs)
 
+    def _add_to_archive(self, infills: Population | None) -> None:
+        if self.archive is not None and infills is not None:
+            self.archive = self.archive.add(infills, random_state=self.random_state)
+
     def _set_optimum(self) -> None:
         self.opt = filter_optimum(self.pop, least_infeasible=True)
 
-- 
2.43.0


From fd3bd1e96f0c2f26c390d7b604be900f192bc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:51 +0000
Subject: [PATCH 129/145] fix: the optimum does not depend on the archive being
 updated in the same iteration

---
 pymoo/core/algorithm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 19a9dd0..7178411 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -220,9 +220,6 @@ class Algorithm:
             # set this algorithm to be initialized
             self.is_initialized = True
 
-            # add the infill solutions to an archive
-            self._add_to_archive(infills)
-
             # always advance to the next iteration after initialization
             self._post_advance()
 
@@ -230,12 +227,11 @@ class Algorithm:
             # call the implementation of the advance method - if the infill is not None
             val = self._advance(infills=infills, **kwargs)
 
-            # add the infill solutions to an archive
-            self._add_to_archive(infills)
-
             # always advance to the next iteration - except if the algorithm returns False
             if val is None or val:
                 self._post_advance()
+            else:
+                self._add_to_archive(infills)
 
         # if the algorithm has terminated, then do the finalization steps and return the result
         if self.termination.has_terminated():  # type: ignore
@@ -319,6 +315,9 @@ class Algorithm:
         # update the current optimum of the algorithm
         self._set_optimum()
 
+        # add the infill solutions to an archive
+        self._add_to_archive(self.off)
+
         # update the current termination condition of the algorithm
         self.termination.update(self)  # type: ignore
 
-- 
2.43.0


From cfb63daf19b7440db78b0362ce9af16846ea4a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 130/145] fix: draw plots in their own axes and not in the
 current ones of pyplot

---
 pymoo/visualization/pcp.py  | 3 +--
 pymoo/visualization/util.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymoo/visualization/pcp.py b/pymoo/visualization/pcp.py
index 329a750..b569fea 100644
--- a/pymoo/visualization/pcp.py
+++ b/pymoo/visualization/pcp.py
@@ -4,7 +4,6 @@ import numpy as np
 
 from pymoo.core.plot import Plot
 from pymoo.util.misc import set_if_none, set_if_none_from_tuples
-from pymoo.visualization.matplotlib import plt
 from pymoo.visualization.util import normalize, parse_bounds
 
 
@@ -59,7 +58,7 @@ class PCP(Plot):
             set_if_none(_kwargs, "color", self.colors[k % len(self.colors)])
 
             for i in range(len(F)):
-                plt.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
+                self.ax.plot(np.arange(F.shape[1]), F[i, :], **_kwargs)
 
         # Plot the parallel coordinate axes
         for i in range(self.n_dim):
diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 05d1245..676ba5c 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -37,12 +37,12 @@ def get_uniform_points_around_circle(n: int) -> np.ndarray:  # noqa: ANN101
 def plot_circle(ax, center: float = 0, radius: float = 1, **kwargs) -> None:  # noqa: ANN001
     P = get_circle_points(5000)
     P = (P + center) * radius
-    plt.plot(P[:, 0], P[:, 1], **kwargs)
+    ax.plot(P[:, 0], P[:, 1], **kwargs)
 
 
 def plot_radar_line(ax, x, **kwargs) -> None:  # noqa: ANN001
     x = np.vstack([x, x[0]])
-    plt.plot(x[:, 0], x[:, 1], **kwargs)
+    ax.plot(x[:, 0], x[:, 1], **kwargs)
 
 
 def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
@@ -52,7 +52,7 @@ def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noq
 
 def plot_axes_lines(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
     for x, y in X:
-        plt.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
+        ax.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
 
 
 def plot_polygon(ax, x, **kwargs) -> None:  # noqa: ANN001
-- 
2.43.0


From d207f5844f83ed49ab3c4be088935def1bf6990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 131/145] fix: pairwise scatter plots of lines

---
 pymoo/visualization/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/scatter.py b/pymoo/visualization/scatter.py
index 075f9a1..f2237f4 100644
--- a/pymoo/visualization/scatter.py
+++ b/pymoo/visualization/scatter.py
@@ -72,7 +72,7 @@ def plot_pairwise(sc) -> None:  # noqa: ANN001
                     ax.set_xlabel(labels[i])
                     ax.set_ylabel(labels[j])
                 else:
-                    func(0, 0, s=1, color="white")
+                    ax.scatter(0, 0, s=1, color="white")
                     ax.set_xticks([])
                     ax.set_yticks([])
                     ax.text(0, 0, labels[i], ha="center", va="center", fontsize=20)
-- 
2.43.0


From a0934970b0810a2b3c7ef8335002cfad662fde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 132/145] fix: scatter plots keep the style of the data when
 drawn again

---
 pymoo/visualization/scatter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymoo/visualization/scatter.py b/pymoo/visualization/scatter.py
index f2237f4..4e5c9c8 100644
--- a/pymoo/visualization/scatter.py
+++ b/pymoo/visualization/scatter.py
@@ -12,7 +12,7 @@ def plot_1d(sc) -> None:
     labels = sc.get_labels()
     ax = sc.ax
 
-    for k, (F, kwargs) in enumerate(sc.to_plot):
+    for k, (F, kwargs) in enumerate(sc.to_plot_styled):
         func = getattr(ax, kwargs.pop("mode"))
         func(F, np.zeros_like(F), **kwargs)
         ax.set_xlabel(labels[0])
@@ -23,7 +23,7 @@ def plot_2d(sc):  # noqa: ANN001, ANN201
     labels = sc.get_labels()
     ax = sc.ax
 
-    for k, (F, kwargs) in enumerate(sc.to_plot):
+    for k, (F, kwargs) in enumerate(sc.to_plot_styled):
         func = getattr(ax, kwargs.pop("mode"))
         func(F[:, 0], F[:, 1], **kwargs)
         ax.set_xlabel(labels[0])
@@ -37,7 +37,7 @@ def plot_3d(sc, angle) -> None:  # noqa: ANN001
     labels = sc.get_labels()
     ax = sc.ax
 
-    for k, (F, kwargs) in enumerate(sc.to_plot):
+    for k, (F, kwargs) in enumerate(sc.to_plot_styled):
         # here alo `plot_trisurf` is allowed
         func = getattr(ax, kwargs.pop("mode"))
         func(F[:, 0], F[:, 1], F[:, 2], **kwargs)
@@ -58,7 +58,7 @@ def plot_pairwise(sc) -> None:  # noqa: ANN001
     sc.init_figure(n_rows=sc.n_dim, n_cols=sc.n_dim)
     labels = sc.get_labels()
 
-    for k, (F, kwargs) in enumerate(sc.to_plot):
+    for k, (F, kwargs) in enumerate(sc.to_plot_styled):
         assert F.shape[1] >= 2, "A pairwise sc plot needs at least two dimensions."
         mode = kwargs.pop("mode")
 
@@ -120,7 +120,8 @@ class Scatter(Plot):
 
             to_plot.append([F, v])
 
-        self.to_plot = to_plot
+        # the data added stay as they are - the plot can be drawn again after a reset
+        self.to_plot_styled = to_plot
 
         if self.n_dim == 1:
             plot_1d(self)
-- 
2.43.0


From aaef2ae06aa5659003e69d94880336289246bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 133/145] fix: solution labels of a heatmap can be switched off
 and survive drawing it again

---
 pymoo/visualization/heatmap.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index baaf53c..48e8f0b 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -74,27 +74,28 @@ class Heatmap(Plot):
         self.ax.set_xticklabels(self.get_labels())
 
         # no solution labels should be used
-        if self.solution_labels is None:
-            pass
+        solution_labels = self.solution_labels
+        if solution_labels is None or solution_labels is False:
+            solution_labels = None
 
         # if true, just use a number for each solution
-        elif isinstance(self.solution_labels, bool) and self.solution_labels:
-            self.solution_labels = np.arange(len(F)) + 1
+        elif solution_labels is True:
+            solution_labels = np.arange(len(F)) + 1
 
         # otherwise, use directly the label provided
         else:
-            if len(self.solution_labels) != len(F):
+            if len(solution_labels) != len(F):
                 raise Exception(
                     "The labels provided for each solution must be equal to the number of solutions being plotted."
                 )
 
-        if self.solution_labels is None:
+        if solution_labels is None:
             self.ax.set_yticks([])
             self.ax.set_yticklabels([])
 
         else:
             # for ordered by objective apply it to labels
-            self.solution_labels = [self.solution_labels[i] for i in indices]
+            solution_labels = [solution_labels[i] for i in indices]
 
             self.ax.set_yticks(np.arange(len(F)))
-            self.ax.set_yticklabels(self.solution_labels)
+            self.ax.set_yticklabels(solution_labels)
-- 
2.43.0


From e665c3d69098e8ef6dd2d446fe951493281362e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 134/145] fix: heatmaps ordered by a list of some of the
 objectives

---
 pymoo/visualization/heatmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/visualization/heatmap.py b/pymoo/visualization/heatmap.py
index 48e8f0b..667e892 100644
--- a/pymoo/visualization/heatmap.py
+++ b/pymoo/visualization/heatmap.py
@@ -53,8 +53,9 @@ class Heatmap(Plot):
 
         # dot the sorting if required
         if self.order_by_objectives is not None and self.order_by_objectives is not False:
-            if isinstance(self.order_by_objectives, list) and len(self.order_by_objectives) == self.n_dim:
-                L = self.order_by_objectives
+            if isinstance(self.order_by_objectives, list):
+                L = list(self.order_by_objectives)
+                L += [i for i in range(self.n_dim) if i not in L]
             elif isinstance(self.order_by_objectives, int):
                 L = [i for i in range(F.shape[1]) if i != self.order_by_objectives]
                 L.insert(0, self.order_by_objectives)
-- 
2.43.0


From 7b4dde7d23be5d4f2a9ced4c5576f93bdf94dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 135/145] fix: scale of the inner boundary of a radar plot

---
 pymoo/visualization/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/radar.py b/pymoo/visualization/radar.py
index c36408a..6ab5291 100644
--- a/pymoo/visualization/radar.py
+++ b/pymoo/visualization/radar.py
@@ -100,7 +100,7 @@ class Radar(Plot):
             inner = np.zeros((self.n_dim, 1)) * V
             outer = np.ones((self.n_dim, 1)) * V
         else:
-            inner = bounds[[0]].T * V
+            inner = (bounds[[0]].T * V) / bounds[1].max()
             outer = (bounds[[1]].T * V) / bounds[1].max()
 
         for k, (F, kwargs) in enumerate(to_plot_norm):
-- 
2.43.0


From bdf92c2e30d993949282718b2e085e1d715506f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 136/145] fix: parallel coordinate plots determine the bounds
 from the data each time they are drawn

---
 pymoo/visualization/pcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymoo/visualization/pcp.py b/pymoo/visualization/pcp.py
index b569fea..9c2e620 100644
--- a/pymoo/visualization/pcp.py
+++ b/pymoo/visualization/pcp.py
@@ -44,12 +44,13 @@ class PCP(Plot):
         self.init_figure()
 
         # if no normalization of each axis the bounds are based on the overall min and max
-        if not self.normalize_each_axis and self.bounds is None:
+        bounds = self.bounds
+        if not self.normalize_each_axis and bounds is None:
             _F = np.vstack([e[0] for e in self.to_plot])
-            self.bounds = [_F.min(), _F.max()]
+            bounds = [_F.min(), _F.max()]
 
         # normalize the input
-        bounds = parse_bounds(self.bounds, self.n_dim)
+        bounds = parse_bounds(bounds, self.n_dim)
         to_plot_norm, bounds = normalize(self.to_plot, bounds, return_bounds=True)
 
         # plot for each set the lines
-- 
2.43.0


From e7571c086fb28fc51db61af32a604a5e81b56d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 137/145] fix: fitness landscapes of problems with one variable

---
 pymoo/visualization/fitness_landscape.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/visualization/fitness_landscape.py b/pymoo/visualization/fitness_landscape.py
index 66e9a7c..c60a6bd 100644
--- a/pymoo/visualization/fitness_landscape.py
+++ b/pymoo/visualization/fitness_landscape.py
@@ -2,7 +2,6 @@
 
 import numpy as np
 
-import pymoo.visualization.util
 from pymoo.core.plot import Plot
 from pymoo.util.misc import all_combinations
 
@@ -62,7 +61,7 @@ class FitnessLandscape(Plot):
 
             X = np.linspace(problem.xl[0], problem.xu[0], num=n_samples)[:, None]
             Z = problem.evaluate(X, return_values_of=["F"])
-            pymoo.visualization.util.plot(X, Z)
+            self.ax.plot(X[:, 0], Z[:, 0])
             self.ax.set_xlabel("x")
             self.ax.set_ylabel("f(x)")
 
-- 
2.43.0


From 785d1f45a7ddc8f20f5259d0bfb9a32fa81f25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 138/145] fix: a fitness landscape does not change the options
 it is given

---
 pymoo/visualization/fitness_landscape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/visualization/fitness_landscape.py b/pymoo/visualization/fitness_landscape.py
index c60a6bd..0fae762 100644
--- a/pymoo/visualization/fitness_landscape.py
+++ b/pymoo/visualization/fitness_landscape.py
@@ -46,9 +46,9 @@ class FitnessLandscape(Plot):
         if self.kwargs_surface is None:
             self.kwargs_surface = dict(cmap="summer", rstride=1, cstride=1)
 
-        self.kwargs_contour = kwargs_contour
-        if self.kwargs_contour is None:
-            self.kwargs_contour = dict(linestyles="solid", offset=-1)
+        if kwargs_contour is None:
+            kwargs_contour = dict(linestyles="solid", offset=-1)
+        self.kwargs_contour = dict(kwargs_contour)
 
         self.kwargs_contour_labels = kwargs_contour_labels
 
-- 
2.43.0


From 359d7397753199d410876273e979db3f091bae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 139/145] fix: problem surfaces are no longer plotted with the
 variables exchanged

---
 pymoo/visualization/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 676ba5c..24a5cc4 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -278,8 +278,8 @@ def plot_problem_surface(
 
         A = np.zeros((n_samples * n_samples, 2))
         counter = 0
-        for i, x in enumerate(X_range):
-            for j, y in enumerate(Y_range):
+        for j, y in enumerate(Y_range):
+            for i, x in enumerate(X_range):
                 A[counter, 0] = x
                 A[counter, 1] = y
                 counter += 1
-- 
2.43.0


From bffc88969a9ca947ac88087db03ecafc5f9d997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 140/145] fix: the axes of a contour plot of a problem can be
 returned

---
 pymoo/visualization/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 24a5cc4..4a478fe 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -291,8 +291,9 @@ def plot_problem_surface(
             ax = fig.add_subplot(111, projection="3d")
             ax.plot_wireframe(X, Y, F)
         elif plot_type == "contour":
-            CS = plt.contour(X, Y, F)
-            plt.clabel(CS, inline=1, fontsize=10)
+            ax = fig.add_subplot(111)
+            CS = ax.contour(X, Y, F)
+            ax.clabel(CS, inline=1, fontsize=10)
         elif plot_type == "wireframe+contour":
             ax = fig.add_subplot(111, projection="3d")
             ax.plot_surface(X, Y, F, cmap=cmap, rstride=1, cstride=1)
-- 
2.43.0


From 7673b934c2d70610462b67f8c5e66e1415b466fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:30 +0000
Subject: [PATCH 141/145] fix: MOPSO-CD decides about its personal bests
 considering constraints

---
 pymoo/algorithms/moo/mopso_cd.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 82e7f2a..3bf22c0 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -14,6 +14,7 @@ from pymoo.util import default_random_state
 from pymoo.util.archive import MultiObjectiveArchive
 from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.display.output import Output
+from pymoo.util.dominator import get_relation
 from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
@@ -251,10 +252,11 @@ class MOPSO_CD(Algorithm):
         """Update personal best positions."""
         for i in range(len(new_pop)):
             # Compare new position with personal best
-            if self._dominates(new_pop[i].F, self.pbest_f[i]):
+            rel = get_relation(new_pop[i], self.pbest[i])
+            if rel == 1:
                 self.pbest[i] = new_pop[i].copy()
                 self.pbest_f[i] = new_pop[i].F.copy()
-            elif self._dominates(self.pbest_f[i], new_pop[i].F):
+            elif rel == -1:
                 # Keep current pbest
                 pass
             else:
@@ -275,10 +277,6 @@ class MOPSO_CD(Algorithm):
                         self.pbest[i] = new_pop[i].copy()
                         self.pbest_f[i] = new_pop[i].F.copy()
 
-    def _dominates(self, f1, f2):
-        """Check if f1 dominates f2."""
-        return np.all(f1 <= f2) and np.any(f1 < f2)
-
     def _set_optimum(self, **kwargs):
         """Set the optimum solutions from the archive."""
         if len(self.archive) > 0:
-- 
2.43.0


From e3a56a674f204a9b5f8d036761aed0d702d128ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:52 +0000
Subject: [PATCH 142/145] fix: petal diagram of more than ten objectives

---
 pymoo/visualization/petal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/visualization/petal.py b/pymoo/visualization/petal.py
index 75da915..cc04870 100644
--- a/pymoo/visualization/petal.py
+++ b/pymoo/visualization/petal.py
@@ -62,7 +62,7 @@ class Petal(Plot):
             v = np.column_stack([np.cos(t), np.sin(t)])
 
             P = np.vstack([center, F[i] * v])
-            plot_polygon(ax, P, color=self.colors[i])
+            plot_polygon(ax, P, color=self.colors[i % len(self.colors)])
 
         # draw the outer circle
         plot_circle(ax, **self.axis_style)
-- 
2.43.0


From bf087e30153c14248beb2ec8db19424b36fb0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 143/145] fix: R-NSGA-II uses the current extreme points only
 as reference points

---
 pymoo/algorithms/moo/rnsga2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/rnsga2.py b/pymoo/algorithms/moo/rnsga2.py
index b21d46b..0631995 100644
--- a/pymoo/algorithms/moo/rnsga2.py
+++ b/pymoo/algorithms/moo/rnsga2.py
@@ -100,12 +100,13 @@ class RankAndModifiedCrowdingSurvival(Survival):
             self.ideal_point = np.zeros(self.n_obj)
             self.nadir_point = np.ones(self.n_obj)
 
+        ref_points = self.ref_points
         if self.extreme_points_as_reference_points:
-            self.ref_points = np.vstack([self.ref_points, get_extreme_points_c(F, self.ideal_point)])
+            ref_points = np.vstack([ref_points, get_extreme_points_c(F, self.ideal_point)])
 
         # calculate the distance matrix from ever solution to all reference point
         dist_to_ref_points = calc_norm_pref_distance(
-            F, self.ref_points, self.weights, self.ideal_point, self.nadir_point
+            F, ref_points, self.weights, self.ideal_point, self.nadir_point
         )
 
         for k, front in enumerate(fronts):
-- 
2.43.0


From 908495c301f4c03b701c943b483e4a130dd70cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:46 +0000
Subject: [PATCH 144/145] fix: R-NSGA-III reports no optimum if dominated
 solutions are closest to all reference directions

---
 pymoo/algorithms/moo/rnsga3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7dc697b..be3530d 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -153,6 +153,8 @@ class AspirationPointSurvival(Survival):
         # set the optimum, first front and closest to all reference directions
         closest = np.unique(dist_matrix[:, np.unique(niche_of_individuals)].argmin(axis=0))
         self.opt = pop[intersect(fronts[0], closest)]
+        if len(self.opt) == 0:
+            self.opt = pop[fronts[0]]
 
         # if we need to select individuals to survive
         if len(pop) > n_survive:
-- 
2.43.0


From 380a2c90709dec692f565312b6127008885b427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:46 +0000
Subject: [PATCH 145/145] fix: R-NSGA-III exchanges the worst points of front
 and population

---
 pymoo/algorithms/moo/rnsga3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index be3530d..c3afb74 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -125,8 +125,8 @@ class AspirationPointSurvival(Survival):
             self.extreme_points,
             self.ideal_point,
             self.worst_point,
-            worst_of_population,
             worst_of_front,
+            worst_of_population,
         )
 
         I = np.concatenate(fronts)  # noqa: E741
-- 
2.43.0

