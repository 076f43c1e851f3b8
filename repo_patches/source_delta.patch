From 5fa3406065c7e7ffee354202e34c14c8f378e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 01/26] fix: generate_initial_sol yields a label array for a
 single region too

---
 region/util.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..bba90e4 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,10 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
-
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
-- 
2.43.0


From bcc7fb53b3ae6b1650a477d345996a681877cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 02/26] fix: array_from_dict_values returns one row per
 requested key

---
 region/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index bba90e4..726727a 100755
--- a/region/util.py
+++ b/region/util.py
@@ -63,8 +63,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     >>> (it_2d == desired_2d).all()
     True
     """
-    if sorted_keys is None:
-        sorted_keys = sorted(dct)
+    sorted_keys = sorted(dct) if sorted_keys is None else list(sorted_keys)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
         it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
@@ -74,7 +73,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From bbb380b67f09c876ae618bdf8978bb9f0454fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 03/26] fix: exact p-regions models measure multi-attribute
 areas as points

---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..1fb39e1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From 741538b0258564a800a0355f8f7b25f8ad77f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 04/26] fix: flow model admits regions of n_areas - n_regions +
 1 areas

---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 1fb39e1..b05b51e 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -386,7 +386,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
-- 
2.43.0


From eca499660c9335a48a656834f73b907756d311de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 05/26] fix: order model has an order for every area of the
 largest region

---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index b05b51e..4d76266 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -439,7 +439,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
-- 
2.43.0


From 8a134b021d8b103a8c690895ffe72386fad6d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 06/26] fix: tree model is feasible for n_areas - n_regions < 2

---
 region/p_regions/exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 4d76266..a1c57e4 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -565,12 +565,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + (n_areas - n_regions + 1) * x[i, j] \
+                    + (n_areas - n_regions - 1) * x[j, i] \
+                    <= n_areas - n_regions
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= n_areas - n_regions + 1
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 97c0ad8fd9d9f5c74727ed2a6ed09a1f000c0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 07/26] fix: read the regions of the tree model from its
 spanning forest

---
 region/p_regions/exact.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a1c57e4..7da2e30 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -581,18 +581,14 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
+    # build a list of regions like [{0, 1, 2, 5}, {3, 4, 6, 7, 8}]: each tree
+    # in the forest defined by x is a region (t does not tell regions apart if
+    # there is no dissimilarity between them)
+    forest = nx.Graph()
+    forest.add_nodes_from(I)
+    forest.add_edges_from((i, j) for i in I for j in neighbors(adj, i)
+                          if x[i, j].varValue == 1)
+    regions = list(nx.connected_components(forest))
 
     result = array_from_region_list(regions)
     return result
-- 
2.43.0


From 6017867a2f0d11660700924d55596aa7fef86a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 08/26] fix: exact models raise instead of returning labels
 nobody computed

The solver's status was ignored: for a problem without a feasible solution the
variables' values were turned into a meaningless label array.
---
 region/max_p_regions/exact.py |  5 +++--
 region/p_regions/exact.py     |  7 +++++--
 region/util.py                | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..48facbf 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -9,8 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
-    get_solver_instance, raise_distance_metric_not_set,\
+    array_from_graph_or_dict, assert_solved, check_solver, copy_func,\
+    get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
 
@@ -155,6 +155,7 @@ class MaxPRegionsExact:
         # Solve the optimization problem
         solver = get_solver_instance(solver)
         prob.solve(solver=solver)
+        assert_solved(prob)
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 7da2e30..4c303c5 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -8,8 +8,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
-    get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
+    array_from_graph_or_dict, array_from_region_list, assert_solved,\
+    check_solver, copy_func, get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
 
@@ -403,6 +403,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    assert_solved(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -489,6 +490,7 @@ def _order(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    assert_solved(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -580,6 +582,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    assert_solved(prob)
 
     # build a list of regions like [{0, 1, 2, 5}, {3, 4, 6, 7, 8}]: each tree
     # in the forest defined by x is a region (t does not tell regions apart if
diff --git a/region/util.py b/region/util.py
index 726727a..c5bb1c8 100755
--- a/region/util.py
+++ b/region/util.py
@@ -905,3 +905,24 @@ def get_solver_instance(solver_string):
     }[solver_string.lower()]
     solver_instance = solver()
     return solver_instance
+
+
+def assert_solved(prob):
+    """
+    Parameters
+    ----------
+    prob : :class:`pulp.LpProblem`
+        An optimization problem after its `solve` method has been called.
+
+    Raises
+    ------
+    exc : `ValueError`
+        A `ValueError` is raised if the solver did not find an optimal
+        solution, e.g. because there is no feasible solution.
+    """
+    if prob.status != pulp.LpStatusOptimal:
+        raise ValueError(
+            "There is no optimal solution. The solver's status is: {}.".format(
+                pulp.LpStatus[prob.status]
+            )
+        )
-- 
2.43.0


From 111f0239c64b7977b293d54ad7ccc9b4518beccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 09/26] fix: exact max-p-regions copes with areas that are all
 alike

log10(0) raised an error if the sum of dissimilarities is 0 (which includes the
case of one single area).
---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 48facbf..b67e449 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -89,7 +89,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        total_dissim = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(total_dissim)) if total_dissim > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From 12391623b9d61a31a6cb59f83c32fd6749eef3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 10/26] fix: threshold guard checks both the donor and the
 recipient region

`x.any() < 0` is never true, so negative spatially extensive attributes were
never checked in the recipient region.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..05e7a1a 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -185,7 +185,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -193,7 +193,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From 32da0b6a33a8e46c7bcee37dc1b2b8e83a2cb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 11/26] fix: threshold guard reports the objective value of its
 decorated strategy

Its own copy was never updated, so the AZP stopped after its first pass.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 05e7a1a..1fa1b63 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -177,8 +177,8 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
+        # attr, objective_func, and objective_val are those of the decorated
+        # strategy (see __getattr__)
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
-- 
2.43.0


From df8a071bd4f450a557e5582a48958fe247de2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 12/26] fix: local search of the max-p heuristic keeps no
 guards of former problems

The local search's move strategy was wrapped once more for each partition and
never restored, so a second fit was still subject to the first problem's
threshold. The default local search reseeded the generator without regard to
random_state.
---
 region/max_p_regions/heuristics.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..206c74d 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -100,27 +100,29 @@ class MaxPRegionsHeu:
             feasible_partitions.append(
                 self.assign_enclaves(partition, enclaves, areas_dict, attr))
 
-        for partition in feasible_partitions:
-
-            # local search phase
-            if self.local_search is None:
-                self.local_search = AZP()
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
+        # local search phase
+        local_search = self.local_search
+        if local_search is None:
+            local_search = AZP(random_state=self.random_state)
+        move_strategy = local_search.allow_move_strategy
+        local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            spatially_extensive_attr, threshold, move_strategy)
+        try:
             for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
+                local_search.fit_from_scipy_sparse_matrix(
                     adj,
                     attr,
                     max_p,
                     initial_labels=array_from_region_list(partition),
                     objective_func=objective_func)
-                partition = self.local_search.labels_
+                partition = local_search.labels_
                 obj_value = objective_func(partition, attr)
                 if obj_value < best_obj_value:
                     best_obj_value = obj_value
                     best_partition = partition
-            self.labels_ = best_partition
+        finally:
+            local_search.allow_move_strategy = move_strategy
+        self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
     fit.__doc__ = "Alias for :meth:`fit_from_scipy_sparse_matrix`.\n\n" \
-- 
2.43.0


From 8feeead4b1f2a3e7fe42514b63514108d58f2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 13/26] fix: simulated annealing respects the threshold of the
 max-p heuristic

The fit method replaced the threshold guard installed by MaxPRegionsHeu.
---
 region/p_regions/azp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..eb67292 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -617,9 +618,15 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        move_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # local search of the max-p-regions heuristic: keep the threshold
+            move_strategy = AllowMoveAZPMaxPRegions(
+                self.allow_move_strategy.spatially_extensive_attr_all,
+                self.allow_move_strategy.threshold, move_strategy)
+        self.allow_move_strategy = move_strategy
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
-- 
2.43.0


From 533b02fe76806e4932a57ecde49c90eef99acb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 14/26] fix: simulated annealing forgets the solutions of
 former fits

---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index eb67292..5f1a3d0 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -633,6 +633,8 @@ class AZPSimulatedAnnealing:
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
             random_state=self.random_state)
+        self.visited = []
+        self.move_made = False
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
-- 
2.43.0


From a707686d71022d0d995044ed71edb7f25ba5b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 15/26] fix: AZPBasicTabu terminates if equally good solutions
 form a cycle

The termination condition was consulted only if there was no improving or
equivalent move. Step 4's move is made only if there is no aspirational move
(as the comment says): the best move found before the aspirational move may
not be possible after it. No tabu move may empty a region.
---
 region/p_regions/azp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 5f1a3d0..989217f 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -804,12 +804,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -846,6 +845,7 @@ class AZPBasicTabu(AZPTabu):
                 improving_tabus = [
                     move for move in self.tabu
                     if labels[move.area] == move.old_region
+                    and count(labels, move.old_region) > 1
                     and self.objective_func.update(move.area, move.new_region,
                                                    labels, attr) < 0
                 ]
@@ -856,15 +856,11 @@ class AZPBasicTabu(AZPTabu):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
-                if stop:
-                        break
                 else:
                     # step 4: If there is no improving move and no aspirational
                     # move, then make the best move even if it is nonimproving
                     # (that is, results in a worse value of the objective
                     # function).
-                    if stop:
-                        break
                     if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                         self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
-- 
2.43.0


From 2afbddb44d61e4264ffe7070774f96bf2e85103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 16/26] fix: AZPReactiveTabu neither crashes nor mixes up
 components

The list of visited solutions survived from one component (and fit) to the
next, a search without possible moves and a tabu list longer than 1 raised an
error, and the random moves of step 11 could run out or empty a region.
---
 region/p_regions/azp.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 989217f..c4d72fb 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -933,6 +933,9 @@ class AZPReactiveTabu(AZPTabu):
             Refer to the return value in :meth:`AZP._azp_connected_component`.
         """
         self.reset_tabu(1)
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         # if there is only one region in the initial solution, just return it.
         distinct_regions = list(np.unique(initial_labels))
         if len(distinct_regions) == 1:
@@ -978,6 +981,9 @@ class AZPReactiveTabu(AZPTabu):
                 if obj_val_diff < best_objval_diff:
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
+            if best_move is None:  # there is nothing left to do
+                last_step = (11, tuple(labels))
+                break
             # step 5: Make the move if possible. Update the tabu status.
             if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
@@ -1016,7 +1022,15 @@ class AZPReactiveTabu(AZPTabu):
                         p = math.floor(1 + self.avg_it_until_rep / 2)
                         possible_moves.pop(best_move_index)
                         for _ in range(p):
-                            move = possible_moves.pop(random.randrange(len(possible_moves)))
+                            # leave out moves that are not possible anymore
+                            possible_moves = [
+                                move for move in possible_moves
+                                if labels[move.area] == move.old_region
+                                and count(labels, move.old_region) > 1
+                            ]
+                            if not possible_moves:
+                                break
+                            move = pop_randomly_from(possible_moves)
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
                         continue
@@ -1028,7 +1042,8 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu,
+                                      math.ceil(1.1 * self.tabu.maxlen))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From 6a778e1c9bee0f7c53d01db943372e800f4a6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 17/26] fix: fit_from_networkx keeps areas and attributes
 together

The rows of the adjacency matrix were in the order of the graph's nodes, those
of the attributes in the order of the sorted nodes. Initial labels came as a
two-dimensional array nobody can handle.
---
 region/max_p_regions/exact.py      |  2 +-
 region/max_p_regions/heuristics.py |  2 +-
 region/p_regions/azp.py            | 10 ++++++----
 region/p_regions/exact.py          |  2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index b67e449..8099ede 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -332,7 +332,7 @@ class MaxPRegionsExact:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 206c74d..e115b24 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -292,7 +292,7 @@ class MaxPRegionsHeu:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c4d72fb..9311220 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -187,10 +187,11 @@ class AZP:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(graph,
+                                                      initial_labels).ravel()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -571,10 +572,11 @@ class AZPSimulatedAnnealing:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(graph,
+                                                      initial_labels).ravel()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 4c303c5..1aae33c 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -248,7 +248,7 @@ class PRegionsExact:
             See the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         self.fit_from_scipy_sparse_matrix(
             adj, attr, n_regions, method=method, solver=solver, metric=metric)
-- 
2.43.0


From 37de5539c37e2053828fbaba1201d17507cff757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 18/26] fix: ObjectiveFunctionCenter.update is the change of
 the objective

Looking at nothing but the two regions involved is sufficient for sums only,
not for any other reduction.
---
 region/objective_function.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..f960ad1 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -146,20 +146,12 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
     def update(self, moving_area, recipient_region, labels, attr):
         donor_region = labels[moving_area]
 
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        overall_before = self(labels, attr)
 
         labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        overall_after = self(labels, attr)
         labels[moving_area] = donor_region
 
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
         diff = overall_after - overall_before
 
         return diff
-- 
2.43.0


From 3cec122e92ff78ae5c821ab364aa48948e5528e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 19/26] fix: SKATER scores regions with an affinity

The score calls the metric with two arguments.
---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..cf79054 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 0e1ce929ad9b24a2387fc63a339772597096a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 20/26] fix: SKATER keeps neighbors together that are alike

A dissimilarity of 0 removed the edge between two neighbors.
---
 region/skater/skater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index cf79054..e497f0a 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,7 +79,8 @@ class Spanning_Forest(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        # neighbors without any dissimilarity are still neighbors
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
         
         if super_verbose:
-- 
2.43.0


From c3e015469aadac9ca99dc290d528bedcc4fe0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 21/26] fix: SKATER's score accepts any labels

---
 region/skater/skater.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index e497f0a..b2e8686 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -169,15 +169,14 @@ class Spanning_Forest(object):
                 raise ValueError('Labels not provided and MSF_Prune object has not been fit to data yet.')
         assert data.shape[0] == len(labels), "Length of label array ({}) does not match "\
                                              "length of data ({})! ".format(labels.shape[0], data.shape[0])
-        _, subtree_quorums = np.unique(labels, return_counts=True)
-        n_subtrees = len(subtree_quorums)
+        subtree_labels, subtree_quorums = np.unique(labels, return_counts=True)
         if (subtree_quorums < quorum).any():
             return np.inf
         part_scores = [self.reduction(self.metric(X=data[labels==l],
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in subtree_labels]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From 6b622b35477a3a922c74973c4549f9b7289690a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 22/26] fix: dictionaries give the same adjacency matrix in any
 order

---
 region/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index c5bb1c8..5bca3a2 100755
--- a/region/util.py
+++ b/region/util.py
@@ -118,7 +118,9 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    adj.sort_indices()  # independent of the order of the neighbors
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From 5f565ffedfc485dd8c11d4779d78bff702d38820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:24 +0000
Subject: [PATCH 23/26] fix: nodes without one of the attributes are refused

---
 region/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/util.py b/region/util.py
index 5bca3a2..dc7a634 100755
--- a/region/util.py
+++ b/region/util.py
@@ -197,8 +197,8 @@ def dict_from_graph_attr(graph, attr, array_values=False):
         attr = [attr]
     data_dict = {node: [] for node in graph.nodes()}
     for a in attr:
-        for node, value in nx.get_node_attributes(graph, a).items():
-            data_dict[node].append(value)
+        for node in data_dict:
+            data_dict[node].append(graph.nodes[node][a])
     if array_values:
         for node in data_dict:
             data_dict[node] = np.array(data_dict[node])
-- 
2.43.0


From 58b428f731499f3527a835d3af7db55db0441613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:24 +0000
Subject: [PATCH 24/26] fix: values of different lengths are refused instead of
 shifted

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index dc7a634..9f53bea 100755
--- a/region/util.py
+++ b/region/util.py
@@ -66,7 +66,10 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     sorted_keys = sorted(dct) if sorted_keys is None else list(sorted_keys)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
-        it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
+        rows = [list(dct[key]) for key in sorted_keys]
+        if any(len(row) != len(rows[0]) for row in rows):
+            raise ValueError("The values must have the same length.")
+        it = itertools.chain.from_iterable(rows)
     else:
         it = (dct[key] for key in sorted_keys)
 
-- 
2.43.0


From d37d8d5848cfd27ca048043afcba0ae479f469f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 25/26] fix: a dictionary must give a value for every node of
 the graph

---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 9f53bea..38ca4ba 100755
--- a/region/util.py
+++ b/region/util.py
@@ -249,7 +249,7 @@ def array_from_graph(graph, attr):
     True
     """
     dct = dict_from_graph_attr(graph, attr)
-    return array_from_dict_values(dct)
+    return array_from_dict_values(dct, sorted(graph))
 
 
 def array_from_graph_or_dict(graph, attr):
-- 
2.43.0


From 42c5fa55ba476f113dcaca0e502a63b50110fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 26/26] fix: "precomputed" is not a known metric

---
 region/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/util.py b/region/util.py
index 38ca4ba..3be83c7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -485,6 +485,8 @@ def get_metric_function(metric=None):
 
     if isinstance(metric, str):
         try:
+            if metric == "precomputed":  # not a function
+                raise KeyError(metric)
             return distance_metrics()[metric]
         except KeyError:
             raise ValueError(
-- 
2.43.0

