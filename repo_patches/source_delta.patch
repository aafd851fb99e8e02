From bb0dd4486e86663faee967a86bac70264f4b71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 01/28] fix: collinear segments intersect only if their extents
 overlap

---
 nonasymptotic/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..25448fe 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -37,7 +37,13 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     # then do some vectorized casework (we're really going to rely on some numpy ufunc stuff)
 
     # first, check for collinearity (avoid some bad numerical cases we'd miss)
-    is_collinear = np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0)
+    is_collinear = (np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed1, 0.0)
+                    & np.equal(intersect_coeff_unnormed2, 0.0))
+
+    # collinear segments only intersect if their extents overlap
+    is_overlapping = np.all((np.maximum(np.minimum(s1e1, s1e2), np.minimum(s2e1, s2e2))
+                             <= np.minimum(np.maximum(s1e1, s1e2), np.maximum(s2e1, s2e2))), axis=1)
+    is_collinear = is_collinear & is_overlapping
 
     # next, check parallel  (avoid some bad numerics)
     # not actually necessary because of nice numpy numerics handling
-- 
2.43.0


From 6fdd2f86a57693d9b2a2bd84bcfb4ff8a3c5b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 02/28] fix: narrow-passage curve points and direction have one
 coordinate per dimension

---
 nonasymptotic/envs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index ae0cf4e..e8db725 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -402,7 +402,7 @@ class NarrowPassage(Environment):
         ]
 
         self.dim = dim
-        self.line_dir = np.array([1.0] + [0.0] * self.dim)
+        self.line_dir = np.array([1.0] + [0.0] * (self.dim - 1))
 
         # (see is motion valid for definition of lines)
         self.coll_lines = [
@@ -423,7 +423,7 @@ class NarrowPassage(Environment):
 
     def arclength_to_curve_point(self, t_normed):
         t = np.clip(t_normed, 0.0, 1.0)
-        point_on_curve = np.array([-0.5] + [0.0] * self.dim)
+        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))
         point_on_curve[0] += t
         return point_on_curve
 
-- 
2.43.0


From b8ac480fec6596e38129b7e53a755116858322d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 03/28] fix: narrow-passage distance projects onto the curve's
 extent

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index e8db725..708f6cb 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -459,7 +459,7 @@ class NarrowPassage(Environment):
         raise NotImplementedError
 
     def distance_to_path(self, points):
-        proj_points_clipped = np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)
+        proj_points_clipped = np.clip(points[:, 0], -0.5, 0.5).reshape(-1, 1)
         return np.linalg.norm(points - proj_points_clipped * self.line_dir, axis=1)
 
     @property
-- 
2.43.0


From a5a0105b4fed0c97255f233e2f5167baf786a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 04/28] fix: last leg of the maze curve comes from the previous
 cell

---
 nonasymptotic/envs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 708f6cb..44c85fb 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -621,8 +621,8 @@ class GrayCodeWalls(Environment):
         elif t_leg == 1 + 2 * (len(self.no_walls_linear_list) - 2) + 1:
             cube_coords = np.array(self.no_walls_linear_list[-1])
             t_backup = 0.5 - (t - (t_leg - 1) * 0.5)
-            t_point = cube_coords + np.ones(self.dim) * 0.5
-            t_point[-1] += t_backup
+            dir_to_entrance = np.array(self.no_walls_linear_list[-2]) - cube_coords
+            t_point = cube_coords + np.ones(self.dim) * 0.5 + t_backup * dir_to_entrance
 
         else:
             cube = self.no_walls_linear_list[int(t_leg / 2)]
-- 
2.43.0


From 74b01f1664dc0def9e394a91f30bcccb8b737493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 05/28] fix: maze opening lies between the current and the next
 cell, not the goal cell

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 44c85fb..f88b1c4 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -673,7 +673,7 @@ class GrayCodeWalls(Environment):
 
             # compute shared opening on path:
             start_cube_center = start_cube + np.ones(self.dim) * 0.5
-            next_cube_center = goal_cube + np.ones(self.dim) * 0.5
+            next_cube_center = next_cube + np.ones(self.dim) * 0.5
             between_cubes_point = (start_cube_center + next_cube_center) / 2
 
             # solve for point at cube opening.
-- 
2.43.0


From b849f7be1b9f487a79f1a4867014b3bb64ef24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 06/28] fix: final maze motion check measures walls in the cell
 that was entered

---
 nonasymptotic/envs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index f88b1c4..5f143b0 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -695,7 +695,8 @@ class GrayCodeWalls(Environment):
             start_cube = next_cube  # this needs to be done so we don't get trapped in the same cube
 
         # if start and goal are in the same cube, then return true because cubes are convex
-        return self.distance_to_wall(start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
+        return (self._distance_to_wall_in_cube(start_cube, start) >= 0.0
+                and self._distance_to_wall_in_cube(goal_cube, goal) >= 0.0)
 
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError('Not done yet!')
-- 
2.43.0


From 94c56f1222ec2885f34cb5598b5a2118ec1e3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 07/28] fix: maze motion may start on the opening between two
 cells

---
 nonasymptotic/envs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 5f143b0..7a6fa5f 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -678,8 +678,8 @@ class GrayCodeWalls(Environment):
 
             # solve for point at cube opening.
             t = (between_cubes_point[next_cube_dir_ind] - start[next_cube_dir_ind]) / dir_vec[next_cube_dir_ind]
-            if t <= 0.0 or np.any(np.isnan(t)):
-                # we are only in while loop if we are spanning multiple blocks. so if t = 0 or nan, then line does
+            if t < 0.0 or np.any(np.isnan(t)):
+                # we are only in while loop if we are spanning multiple blocks. so if t < 0 or nan, then line does
                 # not travel through the exit of this block on the path, so it must have collided somewhere else
                 return False
             motion_point_at_opening = dir_vec * t + start
-- 
2.43.0


From 57ab7342652cbcef127dfb4441e85fe767a22afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 08/28] fix: sample search bisects with exact integers (counts
 above 2**53 never terminated)

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 101c9f0..089dfb8 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -118,7 +118,7 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         elif m_samples_ub <= m_samples_lb:
             raise ArithmeticError('Something wrong happened.')
 
-        test_samples = int((m_samples_lb + m_samples_ub) / 2)
+        test_samples = (m_samples_lb + m_samples_ub) // 2
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
         next_gamma = samples_to_log2_prob(test_samples + 1)
-- 
2.43.0


From 8ef745b930171c721e82da957ee925b9f99fbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 09/28] fix: net radius accounts for the factor 2 of the
 failure bound

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 089dfb8..0159ccd 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -72,7 +72,7 @@ def compute_net_radius_from_prob(dim, n_samples, failure_prob, vol_env, ad_hoc_m
 
     return (
             (2 / n_samples / measure_unit_sphere)
-            * (math.log2(ss_comb_sum) - math.log2(failure_prob))
+            * (math.log2(ss_comb_sum) - math.log2(failure_prob) + 1)
     ) ** (1 / dim)
 
 
-- 
2.43.0


From 2372a630167f22fcc9b6b49d6dff8553fea2d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 10/28] fix: mean variant of the Hoeffding bound scales the
 relative deviation by the ball mass

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 0159ccd..6508012 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -212,7 +212,7 @@ def compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m_samples, k_neighbo
     # all points will land in it and mess everything up)
     # but preserving some monotonicity properties of the prob bound
     tail_val = np.maximum(tail_val, 0.0)
-    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 / (p_r_ball ** 2)
+    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)
     return log_p_fail
 
 
-- 
2.43.0


From 1dff10483a74143276a3f14c2825e3afb910d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 11/28] fix: effective connection radius does not clip the
 unit-ball measure (radius came out too large)

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 6508012..c1c13d8 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -293,7 +293,7 @@ def compute_eff_conn_rad_bound(m_samples, k_neighbors, dim, vol_env, failure_pro
     """
     Computes the expression provided in Corollary 1.
     """
-    measure_unit_sphere = np.minimum(compute_vol_unit_sphere(dim) / vol_env, 1.0)
+    measure_unit_sphere = compute_vol_unit_sphere(dim) / vol_env
     numer = k_neighbors - np.sqrt(2 * k_neighbors * (np.log(m_samples) - np.log(failure_prob)))
     denom = (m_samples - 1) * measure_unit_sphere
     return math.pow(numer / denom, 1 / dim)
-- 
2.43.0


From bad25a64655832bc3bbff4b05273f13bdba71022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 12/28] fix: box corners scale each box axis by its own half
 extent

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From d289d9652b6914d905ea362f705b2d8786a12bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 13/28] fix: batched polygon test uses every edge of both
 polygons

---
 exps/tamp_environment/turtlebot_move/separating_axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/separating_axis.py b/exps/tamp_environment/turtlebot_move/separating_axis.py
index 3352aa6..647994a 100644
--- a/exps/tamp_environment/turtlebot_move/separating_axis.py
+++ b/exps/tamp_environment/turtlebot_move/separating_axis.py
@@ -124,10 +124,11 @@ def vec_separating_axis_theorem(polygons_a, polygons_b):
     edges_b = vec_vertices_to_edges(polygons_b)
     axes_a = vec_normalize(vec_orthogonal(edges_a))
     axes_b = vec_normalize(vec_orthogonal(edges_b))
+    axes = np.concatenate([axes_a, axes_b], axis=1)
     results = np.ones(batch_size, dtype=bool)
 
-    for i in range(polygons_a.shape[1]):  
-        axis = np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)
+    for i in range(axes.shape[1]):
+        axis = axes[:, [i], :]
         projection_a = vec_project(polygons_a, axis)
         projection_b = vec_project(polygons_b, axis)
         overlapping = vec_overlap(projection_a, projection_b)
-- 
2.43.0


From b88beaf22598128fd49225788ba805e602edfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 14/28] fix: threshold roadmap drops edges longer than the
 connection radius on the first build too

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..4e6c644 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -562,7 +562,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
-- 
2.43.0


From f5da4791c55b8be37e92d1a382002f6241445f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 15/28] fix: threshold roadmap keeps doubling the neighbour
 count on growth until the radius is covered

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 4e6c644..750bb09 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -587,7 +587,7 @@ class SimpleRadiusPRM(SimplePRM):
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
                 self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                threshold_rad=self.conn_r)
 
-- 
2.43.0


From 23d4d803adba1b8e8210235f66ab4be2d4e8122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 16/28] fix: growing the threshold roadmap after a query adds
 one vertex per sample

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 750bb09..08ba3e8 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -579,7 +579,7 @@ class SimpleRadiusPRM(SimplePRM):
             # check to make sure we are still within threshold. if not, we need to build a new graph with
             # new neighbors
             if np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors:
-                self.prm_graph.addNodes(m_new_samples)
+                # (the merge also adds the new vertices; ids of vertices removed by queries are restored)
                 g_new_conns = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                include_starting=past_n_samples,
                                                                                threshold_rad=self.conn_r)
-- 
2.43.0


From af19a99961327f14264c9122aa922303f641ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 17/28] fix: reducing the neighbour count keeps edges to which
 the other endpoint is still entitled

---
 nonasymptotic/prm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 08ba3e8..e4fdc22 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -433,10 +433,12 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # next, throw away edges we don't need.
+        kept_edge_list = self.master_edges[:, :new_k_nearest_neighbors]
         throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
         for u, vs in enumerate(throw_away_edge_list):
             for v in vs:
-                if self._g_prm.hasEdge(u, v):
+                # (u may still be one of the nearest neighbors of v)
+                if self._g_prm.hasEdge(u, v) and u not in kept_edge_list[v]:
                     self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
-- 
2.43.0


From 784aa3ae3d363f9324455664c686965627039fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 18/28] fix: radius truncation of the k-NN roadmap keeps edges
 of exactly that length and does not modify the graph while iterating it

---
 nonasymptotic/prm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index e4fdc22..6e1bd93 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -461,8 +461,9 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
-            if w >= new_conn_r:
+        # (collected first, the graph must not change while iterating over it)
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
+            if w > new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
         self.conn_r = new_conn_r
-- 
2.43.0


From 2911bbc90c9b0c6d8568a7a660043c583a3f3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 19/28] fix: a refused growth of the k-NN roadmap leaves its
 connection radius alone

---
 nonasymptotic/prm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 6e1bd93..714c9a2 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -363,8 +363,6 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
     def grow_to_n_samples(self, n_samples):
 
-        self.conn_r = None  # clear the connection radius
-
         if self._samples is None:  # if new, initialize everything
             self._samples = np.zeros((n_samples, self.d))
 
@@ -386,6 +384,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
             self._samples = np.concatenate([self._samples, new_samples])
 
+        self.conn_r = None  # clear the connection radius
+
         # build the index
         # if we are growing the graph, it means that a previous check with a larger radius worked.
         # so know the PRM is complete for a larger radius, so we can lose NNs losslessly.
-- 
2.43.0


From 17becf61e051fcad77d869ac791b6e65e11de281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 20/28] fix: reloading the k-NN roadmap applies both the
 current neighbour count and the current radius

---
 nonasymptotic/prm.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 714c9a2..528f370 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -424,6 +424,21 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # (could make gigabytes of a difference)
             return self.certified_max_conn_r, np.unique(self.master_dists, axis=None)
 
+    def _remove_farther_neighbors(self, k_neighbors):
+        kept_edge_list = self.master_edges[:, :k_neighbors]
+        throw_away_edge_list = self.master_edges[:, k_neighbors:]
+        for u, vs in enumerate(throw_away_edge_list):
+            for v in vs:
+                # (u may still be one of the nearest neighbors of v)
+                if self._g_prm.hasEdge(u, v) and u not in kept_edge_list[v]:
+                    self._g_prm.removeEdge(u, v)
+
+    def _remove_longer_edges(self, conn_r):
+        # (collected first, the graph must not change while iterating over it)
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
+            if w > conn_r:
+                self._g_prm.removeEdge(u, v)
+
     def set_nearest_neighbors(self, new_k_nearest_neighbors):
         if new_k_nearest_neighbors > self.max_k_neighbors:
             raise ArithmeticError('Cannot grow KNN PRM past the original set number of neighbors.')
@@ -431,15 +446,11 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we need to grow the graph, then reload the master graph.
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            if self.conn_r is not None:  # the current radius still applies
+                self._remove_longer_edges(self.conn_r)
 
         # next, throw away edges we don't need.
-        kept_edge_list = self.master_edges[:, :new_k_nearest_neighbors]
-        throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
-        for u, vs in enumerate(throw_away_edge_list):
-            for v in vs:
-                # (u may still be one of the nearest neighbors of v)
-                if self._g_prm.hasEdge(u, v) and u not in kept_edge_list[v]:
-                    self._g_prm.removeEdge(u, v)
+        self._remove_farther_neighbors(new_k_nearest_neighbors)
 
         self.k_neighbors = new_k_nearest_neighbors
 
@@ -459,12 +470,10 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            self._remove_farther_neighbors(self.k_neighbors)  # the current neighbor count still applies
 
         # then iterate over and remove the edges that are too large
-        # (collected first, the graph must not change while iterating over it)
-        for u, v, w in list(self._g_prm.iterEdgesWeights()):
-            if w > new_conn_r:
-                self._g_prm.removeEdge(u, v)
+        self._remove_longer_edges(new_conn_r)
 
         self.conn_r = new_conn_r
 
-- 
2.43.0


From 807ccf576a463dada94091b89d6f70b7bcdd3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 21/28] fix: resumed experiment tasks skip the finished trials
 and their seeds

---
 exps/run_knn_radius_trial.py               | 7 ++++++-
 exps/run_narrow_passage_clearance_trial.py | 9 +++++----
 exps/run_straight_line_optimality_trial.py | 7 ++++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..3ac6dbe 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -75,7 +75,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # each trial numbers its rows from zero, so the zeros in the index count the finished trials.
+    n_done = (all_tasks_record_df.index == 0).sum()
+    tasks = tasks[n_done:]  # skip ahead if we have completed entries
+    for _ in range(n_done):  # ... and skip their seeds as well
+        rng.integers(0, 2 ** 32)
 else:
     all_tasks_record_df = None
 
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..f9f0015 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -258,10 +258,11 @@ if __name__ == '__main__':
     if os.path.exists(df_save_path):
         all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
 
-        # there is one seed per 'master' task, so we can count unique seeds to
-        # see by how many we need to skip ahead.
-        n_seeds = all_tasks_record_df['seed'].unique().shape[0]
-        tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+        # each trial numbers its rows from zero, so the zeros in the index count the finished trials.
+        n_done = (all_tasks_record_df.index == 0).sum()
+        tasks = tasks[n_done:]  # skip ahead if we have completed entries
+        for _ in range(n_done):  # ... and skip their seeds as well
+            rng.integers(0, 2 ** 32)
     else:
         all_tasks_record_df = None
 
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..176cd58 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -172,7 +172,12 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # each trial numbers its rows from zero, so the zeros in the index count the finished trials.
+    n_done = (all_tasks_record_df.index == 0).sum()
+    tasks = tasks[n_done:]  # skip ahead if we have completed entries
+    for _ in range(n_done):  # ... and skip their seeds as well
+        rng.integers(0, 2 ** 32)
 else:
     all_tasks_record_df = None
 
-- 
2.43.0


From b21e4fb14c5a5f34dd4a6a7ec94ec7ae75eabaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 22/28] fix: kNN-radius trial passes its seed as the seed, not
 as the line length

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 3ac6dbe..ec02382 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -13,7 +13,7 @@ from nonasymptotic.ann import get_ann
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
-- 
2.43.0


From 501a6f100ac0f686bcf7ebef92f21ac7fc84f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 23/28] fix: kNN-radius trial stops at neighbour counts the
 table does not have

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index ec02382..7a6f191 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -31,7 +31,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         build_time = graph_build_et - graph_build_st
 
         for nn in neighbor_schedule:
-            if nn > s:
+            if nn >= s:
                 break
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
-- 
2.43.0


From 69f7aaa712f296fc48e531fafcc812c6747b4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 24/28] fix: narrow-passage trial without connections records
 all columns

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f9f0015..e1a5632 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -74,6 +74,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 np.nan,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From 2d4aca06041450c1b5dc4183100a7624422e4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 25/28] fix: straight-line driver imports from the package, as
 the other drivers do

---
 exps/run_straight_line_optimality_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 176cd58..c6e29d9 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -36,8 +36,8 @@ import json
 import sys
 import os
 
-from envs import StraightLine
-from prm import SimpleNearestNeighborRadiusPRM
+from nonasymptotic.envs import StraightLine
+from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM
 
 
 def straight_line_trial(delta_clear, dim, rng_seed,
-- 
2.43.0


From a4875ffa983d96bfe2b5271cacc8d90a7ca3a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 26/28] fix: the always-present hole marker lies outside every
 polygon

---
 nonasymptotic/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index c1b3573..1a96d33 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -94,10 +94,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         'vertices': vertices,
         'segments': segments,
         'holes': np.concatenate([
-            np.array([[-100.0, -100.0]]),
+            vertices.min(axis=0, keepdims=True) - 1.0,
             interior_points
         ])
-        # put a point that will always be outside because of boundedness of input space
+        # put a point that is always outside (below and left of every vertex)
     }
 
     triangle_out = tr.triangulate(data, 'p')  # so the boundaries are included in the triangulation
-- 
2.43.0


From 2d96a48089988bad2514be2975481f69079d7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 27/28] fix: every region enclosed by a multipolygon gets a
 hole marker

---
 nonasymptotic/sampler.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 1a96d33..1a786f6 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -1,8 +1,8 @@
 import numpy as np
 import triangle as tr
 from matplotlib import pyplot as plt
-from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, difference, \
-    get_coordinates, point_on_surface, Polygon, get_num_points, Point
+from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, intersects, difference, \
+    get_parts, get_coordinates, point_on_surface, Polygon, get_num_points, Point
 from shapely.affinity import affine_transform
 from shapely.plotting import plot_polygon
 
@@ -21,7 +21,6 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         polys = np.array(mpolygon.geoms)
 
         mpoly_exterior_rings = get_exterior_ring(polys)
-        exterior_polys = np.array(MultiPolygon(zip(mpoly_exterior_rings, [[]] * mpoly_exterior_rings.size)).geoms)
 
         # gather all the interior rings
         num_mpoly_holes = get_num_interior_rings(polys)
@@ -30,22 +29,14 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
             [get_interior_ring(polys, i) for i in range(max_num_holes)]
         ) if max_num_holes > 0 else np.array([])
         mpoly_interior_rings = mpoly_interior_rings[mpoly_interior_rings != np.array(None)]
-        interior_polys = np.array(MultiPolygon(zip(mpoly_interior_rings, [[]] * mpoly_interior_rings.size)).geoms)
-
-        # check nestedness (numpy vectorized brute force)
-        _inpolys, _expolys = np.meshgrid(interior_polys, exterior_polys, indexing="ij")
-        _covers = covers(_inpolys, _expolys)
-        _cover_inds = np.moveaxis(
-            np.mgrid[0:interior_polys.size, 0:exterior_polys.size],
-            0, 2
-        )[_covers]
-
-        # we're not expecting many intersections, so for loop is okay
-        for i_inpoly, i_expoly in _cover_inds:
-            interior_polys[i_inpoly] = difference(interior_polys[i_inpoly], exterior_polys[i_expoly])
-
-        # compute correct representative points
-        interior_points = get_coordinates(point_on_surface(interior_polys))
+
+        # compute a representative point of every region that is left free inside: a hole may contain other
+        # polygons (and be split by them where they touch it), and polygons that touch may enclose a region.
+        # (the region that reaches the frame is the outside, it needs no marker.)
+        frame = mpolygon.envelope.buffer(1.0)
+        free_regions = get_parts(difference(frame, mpolygon))
+        free_regions = free_regions[~intersects(free_regions, frame.exterior)]
+        interior_points = get_coordinates(point_on_surface(free_regions))
 
     elif isinstance(mpolygon, Polygon):
         mpoly_exterior_rings = np.array([mpolygon.exterior])
-- 
2.43.0


From 71283945d217e783a839f7ff50b20dc3a2315ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 28/28] fix: vertices shared by touching rings are handed to
 the triangulator once

---
 nonasymptotic/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 1a786f6..ff086be 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -80,6 +80,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
     )
     segments = np.hstack([conn_from_arr.reshape(-1, 1), conn_to_arr.reshape(-1, 1)])
 
+    # rings may touch: the triangulator cannot cope with vertices that occur twice
+    vertices, vertex_ids = np.unique(vertices, axis=0, return_inverse=True)
+    segments = vertex_ids.reshape(-1)[segments]
+
     # compute triangulation
     data = {
         'vertices': vertices,
-- 
2.43.0

