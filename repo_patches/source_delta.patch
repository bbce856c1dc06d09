From 82d00f40d8559da150717e1e622c3f3fbad6de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:19 +0000
Subject: [PATCH 01/25] fix: get_non_dominated keeps duplicated non-dominated
 points instead of dropping all copies

---
 hvd/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..341a44e 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -229,9 +229,8 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     pareto_indices = []
     for idx, p in enumerate(pareto_front):
         if weakly_dominated:
-            cond = np.all(np.any(pareto_front[:idx] > p, axis=1)) and np.all(
-                np.any(pareto_front[idx + 1 :] > p, axis=1)
-            )
+            # NOTE: copies of `p` do not dominate it
+            cond = np.all(np.any(pareto_front > p, axis=1) | np.all(pareto_front == p, axis=1))
         else:
             cond = np.all(
                 np.any(pareto_front[:idx] > p, axis=1) & np.all(~np.isclose(pareto_front[:idx], p), axis=1)
@@ -241,7 +240,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From 2b241dea2d894683d86f53ea5287e970ef2302e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 02/25] fix: honour minimization=False when objective values or
 Jacobians are passed to HypervolumeDerivatives

---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..ff35e51 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From b31a736ea5b07756212ccf0f9c633b5ff6411b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 03/25] fix: scale the curvature term of the generational
 distance Hessian for p != 2

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..ebe2e30 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From bc76e76c7e7d2366d9a9f61c7f1525751b1c0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 04/25] fix: break ties between dimensions consistently in the
 hypervolume sweep (>= 4 objectives)

---
 hvd/hypervolume.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..5b1db8a 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -146,7 +146,9 @@ class HyperVolume:
         dimensions = len(self.ref)
         nodeList = MultiList(dimensions)
         nodes = [MultiList.Node(dimensions, point) for point in front]
-        for i in range(dimensions):
+        # NOTE: ties in one dimension are broken by the order in the next dimension. Otherwise, two tied points
+        # can be marked as dominated by each other in `hvRecursive`
+        for i in reversed(range(dimensions)):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
         self.list = nodeList
@@ -154,7 +156,7 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        idx = np.argsort([node.cargo[i] for node in nodes], kind="stable")
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From 591ad0de660df192f91af82656b85e41625a68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 05/25] fix: use the current beta in the MMDMatching
 derivatives instead of the one compiled first

---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From c4429c3e6e50f1e3474dca82bbc241a41f8c2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 06/25] fix: match fewer clusters of Y than reference
 components to the assigned components

---
 hvd/reference_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..7ba1f1a 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -132,17 +132,17 @@ class ReferenceSet:
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: List[np.ndarray]) -> List[Tuple[int, int]]:
+        """pairs (component of the reference set, cluster of `Y`); a component can be left without a cluster"""
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From fb64a30c6272ddf44880e04181e5f3c4fbbe6c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 07/25] fix: do not create empty clusters of Y when a reference
 component is not closest to any point

---
 hvd/reference_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 7ba1f1a..27512e8 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -127,7 +127,8 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                # NOTE: a component which is not the closest one of any point gets no cluster
+                self.Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
-- 
2.43.0


From dcbe364f99265f31d5ae8a1fedee6768da0b32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 08/25] fix: State.save removes the attribute 'jac', there is
 no '_jac'

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 10e01042a70dc436470dd9907a80bd03d6a1066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:47 +0000
Subject: [PATCH 09/25] fix: HVN step-size limit is one for a zero step instead
 of failing on an empty minimum

---
 hvd/newton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..c8d84d5 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -273,7 +273,9 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        s = dist[v < 0] / np.abs(v[v < 0])
+        # NOTE: no boundary is approached if the step is zero
+        return min(1, 0.25 * np.min(s)) if len(s) > 0 else 1
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 5b7648603b7be23fb64307ca16f6d3605aa75ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:47 +0000
Subject: [PATCH 10/25] fix: project the step on the blocked coordinate, not on
 one with a 0/0 distance ratio

---
 hvd/mmd_newton.py | 2 +-
 hvd/newton.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..83b7c47 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -392,7 +392,7 @@ class MMDNewton:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
+            proj_dim = [np.nanargmin(_) for _ in s[idx]]
             proj_axis = normal_vectors[:, proj_dim]
             step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
             step[:, : self.dim_p] = step_primal
diff --git a/hvd/newton.py b/hvd/newton.py
index c8d84d5..0d8d5c2 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -681,7 +681,7 @@ class DpN:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
+            proj_dim = [np.nanargmin(_) for _ in s[idx]]
             proj_axis = normal_vectors[:, proj_dim]
             step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
             step[:, : self.dim_p] = step_primal
-- 
2.43.0


From 11bd12cfe2c5dff9dcbe39220b007cfa1e963494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 11/25] fix: DpN line search respects the maximal step size for
 steps near zero

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 0d8d5c2..30a8b1b 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -616,7 +616,7 @@ class DpN:
         """backtracking line search with Armijo's condition"""
         c1 = 1e-4
         if np.all(np.isclose(step, 0)):
-            return np.ones((self.N, 1))
+            return np.ones((self.N, 1)) if max_step_size is None else max_step_size.reshape(-1, 1)
 
         def phi_func(alpha, i):
             state = deepcopy(self.state)
-- 
2.43.0


From 4628159c361e6e814e27554d69182f35c7fd33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 12/25] fix: freeze the matching of the reference set during
 line searches

---
 hvd/mmd_newton.py | 8 ++++----
 hvd/newton.py     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 83b7c47..8cc74e2 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,9 +301,9 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
-            self.indicator.re_match = False
+            self.ref.re_match = False  # the matching is frozen during the search
             R_ = self._compute_R(state_)[0]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             return np.linalg.norm(R_)
 
         step_size = min(max_step_size) if max_step_size is not None else 1
@@ -337,10 +337,10 @@ class MMDNewton:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.indicator.re_match = False
+            self.ref.re_match = False  # the matching is frozen during the search
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
diff --git a/hvd/newton.py b/hvd/newton.py
index 30a8b1b..41487dd 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -623,9 +623,9 @@ class DpN:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.active_indicator.re_match = False
+            self.ref.re_match = False  # the matching is frozen during the search
             R_ = self._compute_R(state)[0][i]
-            self.active_indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From 5d442966c0d321ae123186321d75fa597b1ba83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 13/25] fix: skip the MMD line search only for steps near zero
 and keep the maximal step size then

---
 hvd/mmd_newton.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 8cc74e2..4474a28 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -295,8 +295,8 @@ class MMDNewton:
     ) -> float:
         """backtracking line search with Armijo's condition. Global step-size control"""
         c1 = 1e-6
-        if 11 < 2 or np.any(np.isclose(np.median(step[:, : self.dim_p]), np.finfo(np.double).resolution)):
-            return np.array([1])
+        if np.all(np.isclose(step, 0)):
+            return np.array([1 if max_step_size is None else min(max_step_size)])
 
         def phi_func(alpha):
             state_ = deepcopy(self.state)
@@ -329,8 +329,8 @@ class MMDNewton:
         # TODO: use the backtracking line search in scipy
         """backtracking line search with Armijo's condition"""
         c1 = 1e-4
-        if 11 < 2 or np.all(np.isclose(step, 0)):
-            return np.ones((self.N, 1))
+        if np.all(np.isclose(step, 0)):
+            return np.ones((self.N, 1)) if max_step_size is None else max_step_size
 
         def phi_func(alpha, i):
             state = deepcopy(self.state)
-- 
2.43.0


From a5f801352bbb0a2768033790b00d409b06272c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:29 +0000
Subject: [PATCH 14/25] fix: MMDNewton without matching shifts the reference
 set only when its shift condition holds

---
 hvd/mmd_newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 4474a28..726b950 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -285,7 +285,8 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
+        if len(indices) > 0:
+            self.ref.shift(0.08, indices)
         for k in indices:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
-- 
2.43.0


From 1c80b46968834e657671eefef638a61d90d733ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:52 +0000
Subject: [PATCH 15/25] fix: MMDNewton without matching has no medoids to log,
 failing with more points than reference points

---
 hvd/mmd_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 726b950..7b6d1fd 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -287,7 +287,7 @@ class MMDNewton:
         indices = np.nonzero(masks)[0]
         if len(indices) > 0:
             self.ref.shift(0.08, indices)
-        for k in indices:  # log the updated medoids
+        for k in indices if self.matching else []:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
 
-- 
2.43.0


From 7f46475ef3441174ea63bf8d36f4c12a36134cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 16/25] fix: CF1-CF7 use the odd and even variables for an odd
 number of variables

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From 1de120ae7131c391b82db9375afd0d88ab231721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 17/25] fix: CF4's second penalty keeps its quadratic term
 beyond the kink

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..1f3415c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -219,7 +219,7 @@ class CF4(CMOP):
         h = jax.numpy.where(
             temp[0],
             jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, abs(Y[:, 1]), (Y[:, 2:] ** 2).ravel()])),
-            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, jnp.array([0.125]), (Y[:, 2:] ** 2).ravel()])),
+            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, 0.125 + (Y[:, 1] - 1) ** 2, (Y[:, 2:] ** 2).ravel()])),
         )
         F1 = X[:, 0] + jnp.sum(h[:, J1], 1)
         F2 = 1 - X[:, 0] + jnp.sum(h[:, J2], 1)
-- 
2.43.0


From 566ef85ac2810686e66801428d271060ef5824e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:09 +0000
Subject: [PATCH 18/25] fix: CF1's Pareto front holds its 21 feasible points
 only

---
 hvd/problems/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 1f3415c..cfbaf3a 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -62,8 +62,9 @@ class CF1(CMOP):
         y = jnp.atleast_2d(self._objective(x))
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
-    def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+    def get_pareto_front(self, N: int = 21) -> np.ndarray:
+        # the constraint leaves the 21 points where |sin(20 * pi * f)| vanishes
+        f = np.arange(21) / 20
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 51c17783e88edaf1b9b8b646f304555a3d599697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:09 +0000
Subject: [PATCH 19/25] fix: CF8's Pareto front takes the second objective of
 each point from the sphere

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index cfbaf3a..8f6c702 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -480,7 +480,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From 4c2e0951ec7ed199fb397719aea9520b1ce548be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:09 +0000
Subject: [PATCH 20/25] fix: ZDT6 attains its Pareto front at the optimal
 decision vectors

---
 hvd/problems/zdt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..ca53580 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -107,7 +107,8 @@ class ZDT6(ZDT):
 
     def _objective(self, x: jnp.ndarray) -> jnp.ndarray:
         f1 = 1 - jnp.exp(-4 * x[0]) * jnp.sin(6 * jnp.pi * x[0]) ** 6
-        g = 1 + 9 * jnp.maximum(jnp.mean(x[1:]), _EPS) ** 0.25
+        m = jnp.mean(x[1:])
+        g = 1 + 9 * jnp.where(m > _EPS, jnp.maximum(m, _EPS) ** 0.25, 0.0)
         return jnp.array([f1, g * (1 - (f1 / g) ** 2)])
 
     def get_pareto_front(self, n_pareto_points: int = 100) -> np.ndarray:
-- 
2.43.0


From b7386bc72da7eceb11595b5441e537b42fbc582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:09 +0000
Subject: [PATCH 21/25] fix: DTLZ6 attains its Pareto front at the optimal
 decision vectors

---
 hvd/problems/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..4e6a68b 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -135,7 +135,7 @@ class DTLZ5(_DTLZ):
 class DTLZ6(DTLZ5):
     def g(self, x_M: jnp.ndarray) -> float:
         x_M_ = jnp.clip(jnp.abs(x_M), eps)
-        return jnp.sum(jnp.power(x_M_, 0.1))
+        return jnp.sum(jnp.where(jnp.abs(x_M) > eps, jnp.power(x_M_, 0.1), 0.0))
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
         x = np.random.rand(N, self.n_var - self.k)
-- 
2.43.0


From 36dc2ee876a23d1bf269a696f0680ed400baca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:41 +0000
Subject: [PATCH 22/25] fix: sampled hypervolume contributions no longer crash
 under jit

The helpers call numpy functions and Python loops on their arguments, which jax.jit
cannot trace: environmental selection with three or more objectives raised a TypeError.
---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 9e049483a5398c135e602b8cdedcd50ab5846984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:33 +0000
Subject: [PATCH 23/25] fix: filling a front gives short components no point
 instead of crashing

A component whose share of the requested points rounds to zero made interpolate_tst
write the end points into an empty array.
---
 hvd/rsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..2608a2a 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -44,7 +44,7 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     keep[1:] = np.any(np.diff(P, axis=0) != 0, axis=1)
     P = P[keep]
     n = len(P)
-    if n < 2:
+    if n < 2 or Nf < 1:
         return np.repeat(P[:1], Nf, axis=0)
 
     seg = P[1:] - P[:-1]
-- 
2.43.0


From 5ed44dd08b7f1020cc687032f3f48cbfdd0527ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:47 +0000
Subject: [PATCH 24/25] fix: bootstrapping returns the current reference set
 when no iteration renews it

A run of at most interval iterations ended with an UnboundLocalError after all the work was done.
---
 hvd/bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..b4fd03e 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,7 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    ref: ReferenceSet = optimizer.ref  # returned as is if the run is too short for bootstrapping
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From 1fb05ecfac7ab4ac032ab8be071c23223c9bd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:31 +0000
Subject: [PATCH 25/25] fix: automatic hypervolume derivatives follow a changed
 reference point

---
 hvd/hypervolume_derivatives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index ff35e51..47c463a 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -91,6 +91,8 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # NOTE: the differentiated functions depend on the reference point
+        self._HV_Jac, self._HV_Hessian = None, None
 
     @property
     def objective_points(self):
-- 
2.43.0

