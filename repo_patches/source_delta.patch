From 6e100e0505374dd7bee38347d5a37bf7ed5b1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 01/41] fix: so3.left_apply_quat raised instead of multiplying
 quaternions

---
 gconv/geometry/groups/so3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..4ff8fe7 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -184,9 +184,11 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     Returns:
         - Tensor of shape `(..., 4)`.
     """
+    q1, q2 = torch.broadcast_tensors(q1, q2)
+
     q = q1.new_empty(q1.shape)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +196,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From ee60562dfc563a708264e66ba3625ac2f95403b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 02/41] fix: so3.matrix_to_quat was wrong for batch shapes
 other than (N,)

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 4ff8fe7..c451e27 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -265,7 +265,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
-- 
2.43.0


From 02ee10ea46b9820699cafab02b7bad8c888832e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 03/41] fix: so3.matrix_to_euler was wrong at gimbal lock and
 for batch shapes other than (N,)

---
 gconv/geometry/groups/so3.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index c451e27..27b6177 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -318,21 +318,30 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
-
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    # NOTE: atan2 is used instead of acos, since acos is too inaccurate around
+    #       0 and pi to be able to detect a gimbal lock.
+    g[..., 1] = torch.atan2(
+        torch.hypot(matrix_trans[..., 0, 2], matrix_trans[..., 1, 2]),
+        matrix_trans[..., 2, 2],
+    )
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
     not_safe2 = ~safe2
 
     # step 5b
-    g[safe, 2] = torch.atan2(matrix_trans[safe, 0, 2], -matrix_trans[safe, 1, 2])
+    # NOTE: gamma is determined given alpha, such that the angles stay accurate
+    #       close to a gimbal lock.
     g[safe, 0] = torch.atan2(matrix_trans[safe, 2, 0], matrix_trans[safe, 2, 1])
+    sin_alpha, cos_alpha = torch.sin(g[safe, 0]), torch.cos(g[safe, 0])
+    g[safe, 2] = torch.atan2(
+        -(sin_alpha * r[safe, 0, 0] + cos_alpha * r[safe, 0, 1]),
+        sin_alpha * r[safe, 1, 0] + cos_alpha * r[safe, 1, 1],
+    )
 
     g[~safe, 2] = 0
     g[not_safe1, 0] = torch.atan2(
@@ -345,7 +354,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From 054253e45bad0b7dfa3a2fd92d7267d6ebe62cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 04/41] fix: so3.so3_log was zero for half turns and inaccurate
 close to them

---
 gconv/geometry/groups/so3.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 27b6177..11ee927 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -476,34 +476,15 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     Returns:
         - Tensor of shape (..., 3).
     """
-    # clamping to prevent numerical instabilities
-    theta = torch.acos(
-        torch.clamp(
-            ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2, -1 + eps, 1 - eps
-        )
-    )
-
-    theta_sin_inv = 0.5 * theta / torch.sin(theta)
-
-    c1 = theta_sin_inv * (R[..., 2, 1] - R[..., 1, 2])
-    c2 = theta_sin_inv * (R[..., 0, 2] - R[..., 2, 0])
-    c3 = theta_sin_inv * (R[..., 1, 0] - R[..., 0, 1])
-
-    mask = theta == 0.0
-
-    c1[mask] = 0.5 * R[mask, 2, 1] - R[mask, 1, 2]
-    c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
-    c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
-
-    mask = theta == pi
-
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    # NOTE: determined from the quaternion, since the skew symmetric part of `R`
+    #       vanishes for half turns.
+    q = matrix_to_quat(R)
+    q = torch.where(q[..., :1] < 0, -q, q)
 
-    c = torch.stack((c1, c2, c3), dim=-1)
+    v_norm = torch.linalg.norm(q[..., 1:], dim=-1, keepdim=True)
+    theta = 2 * torch.atan2(v_norm, q[..., :1])
 
-    return c
+    return theta / torch.clamp(v_norm, min=eps) * q[..., 1:]
 
 
 def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 56360d2fc8e781df4d2fa3775013581450eabff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 05/41] fix: so2.nearest_neighbour_distance compared elements
 with themselves

---
 gconv/geometry/groups/so2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..165e215 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,11 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    dists = geodesic_distance(grid[:, None], grid)
+
+    # an element is not its own neighbour, an only element has none
+    is_self = torch.eye(grid.shape[0], dtype=torch.bool, device=grid.device)
+    dists = dists.masked_fill(is_self, math.inf)
+    dists = torch.cat((dists, dists.new_full((grid.shape[0], 1), math.inf)), dim=-1)
+
+    return dists.amin(-1)
-- 
2.43.0


From f071c2f3cbc67ffa9b3e2a1069184980637075dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 06/41] fix: so3.nearest_neighbour_distance raised for grids of
 zero or one element

---
 gconv/geometry/groups/so3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 11ee927..3a62d4c 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -659,7 +659,14 @@ def nearest_neighbour_distance(q: Tensor) -> Tensor:
     if q.ndim == 3:
         q = matrix_to_quat(q)
 
-    return geodesic_distance(q[:, None], q).sort()[0][:, 1]
+    dists = geodesic_distance(q[:, None], q)
+
+    # an element is not its own neighbour, an only element has none
+    is_self = torch.eye(q.shape[0], dtype=torch.bool, device=q.device)
+    dists = dists.masked_fill(is_self, torch.inf)
+    dists = torch.cat((dists, dists.new_full((q.shape[0], 1), torch.inf)), dim=-1)
+
+    return dists.amin(-1)
 
 
 def grid_sample(
-- 
2.43.0


From ce96d6ecf7922029fcb979b2a89bc86afd187403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 07/41] fix: E3 kernels derived the default sampling width from
 coefficients and matrices as if they were quaternions

---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..bba4ac0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From 248a517f328e4b0efeb5ae3df9e6f343f59294af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 08/41] fix: the grid cache stored Euler angles for every
 parameterization and shared its tensors with callers

---
 gconv/geometry/groups/_grid_cache.py | 7 +++++--
 gconv/geometry/groups/so3.py         | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..8c06b28 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,15 +19,18 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = (
+        grid.clone()
+    )
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-    return _grid_cache[grid_type.lower()][parameterization.lower()][size]
+    return _grid_cache[grid_type.lower()][parameterization.lower()][size].clone()
 
 
 _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
     "so3": {
+        "euler": {},
         "quat": {
             1: Tensor([[1.0, 0.0, 0.0, 0.0]]),
             2: Tensor(
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 3a62d4c..b7493fa 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -596,10 +596,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
         _grid_cache.save_grid(grid, "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From 469311c229535aaf1f5d6e099ae7816cd0dbe472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 09/41] fix: the cached matrix grid of size 1 had no batch
 dimension

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 8c06b28..c8e6c37 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -426,7 +426,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From bcaff7f48124a43602eab331ed2e169ac29520ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 10/41] fix: s2.spherical_to_euler_neg_gamma raised and did not
 negate gamma

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From f56ea9973038d5633c562d475e2c8f68cc0e44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 11/41] fix: s2.uniform_grid_s2 did not reject unknown
 parameterizations

---
 gconv/geometry/groups/s2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index b0b7f59..9a96287 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -125,6 +125,11 @@ def uniform_grid_s2(
         case "quat":
             add_alpha = True
             param_fn = so3.euler_to_quat
+        case _:
+            raise ValueError(
+                "Parameterization must be 'spherical', 'euclidean', 'quat', 'matrix', "
+                f"or 'euler', got {parameterization=}."
+            )
 
     grid = random_s2((n,), device=device)
 
-- 
2.43.0


From f408d5e5427499c7ac62b13e8e0fd6f744caa261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 12/41] fix: s2.euclid_to_spherical was inaccurate or nan close
 to the poles

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index 9a96287..0e22220 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -43,7 +43,7 @@ def euclid_to_spherical(x: Tensor) -> Tensor:
     """
     g = x.new_empty((*x.shape[:-1], 2))
 
-    g[..., 0] = torch.acos(x[..., 2])
+    g[..., 0] = torch.atan2(torch.hypot(x[..., 0], x[..., 1]), x[..., 2])
     g[..., 1] = torch.atan2(x[..., 1], x[..., 0])
 
     return g
-- 
2.43.0


From 62f3aa22146408bc28ffa2d6a60ae725f8f6cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 13/41] fix: spatial pooling modules raised since the spatial
 dimensions were dropped

---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From 382a9555453f0bd77dc5335caeb303d1463e7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 14/41] fix: GMaxGroupPool and GMaxGlobalPool returned (values,
 indices) tuples

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From bea46d576f31237f22ec0c5a4d0a403e46ee1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 15/41] fix: GWrap raised on construction

---
 gconv/gnn/modules/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..d62ff01 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,8 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
+
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From d5b08a87d4ed3012a0ed04e2aa3bfdd41b85856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 16/41] fix: __all__ of gconv.gnn.modules.gconv named classes
 that do not exist

---
 gconv/gnn/modules/gconv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..6313c44 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -27,10 +27,10 @@ from torch import Tensor
 from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
 
 __all__ = [
-    "GConvLifting2d",
-    "GConvLifting3d",
-    "GConvSeparable2d",
-    "GConvSeparable3d",
+    "GLiftingConv2d",
+    "GLiftingConv3d",
+    "GSeparableConv2d",
+    "GSeparableConv3d",
     "GConv2d",
     "GConv3d",
 ]
-- 
2.43.0


From f0e74184eb46faa9b010d1c0ceccd0f502dca6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 17/41] fix: separable and subgroup kernels mixed up the input
 and output group dimensions

---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From 352e06c35ddd76adb4084478d181ceade4b9b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 18/41] fix: separable convolutions applied stride, padding and
 dilation to the subgroup convolution as well

---
 gconv/gnn/modules/gconv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 6313c44..d4c53be 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -297,15 +297,17 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, pointwise in the spatial dimensions, i.e., stride, padding
+        # and dilation only concern the spatial conv
+        conv = F.conv2d if len(self.kernel_size) == 2 else F.conv3d
+        input = conv(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 2bda42cecd630e33d785efe66b8e29eda1d2c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 19/41] fix: SE2 kernels ignored mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From ddd66bc46733ba0a35e91cf93669293850984a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 20/41] fix: spatial grids of size 1 did not consist of the
 origin, such that the mask was zero

---
 gconv/gnn/functional/grid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..55e8117 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -5,6 +5,14 @@ from torch import Tensor
 from torch.nn.functional import grid_sample
 
 
+def _create_axis(size: int, device: str | None = None) -> Tensor:
+    # linspace would return -1 rather than the origin
+    if size == 1:
+        return torch.zeros(1, device=device)
+
+    return torch.linspace(-1, 1, size, device=device)
+
+
 def create_grid_R3(size: int, device: str | None = None) -> Tensor:
     """
     Creates normalized coordinate grid of size
@@ -17,7 +25,7 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    x = _create_axis(size, device=device)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -35,7 +43,7 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    x = _create_axis(size, device=device)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From af6b4e5d63dd46d78ced42eb16ac7c9449b9e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 21/41] fix: so2.angle_to_matrix raised for a single angle

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 165e215..d592570 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From 80eecf88d3a14cc679ee5715fb47c60f18334aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 22/41] fix: E2 and E3 kernels did not set the group kernel
 size to that of a provided grid

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 15 +++++++++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..a20164d 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,11 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +125,11 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +228,11 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index bba4ac0..9bb980b 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,11 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +125,11 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +228,11 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            group_kernel_size = (
+                int((grid_H[:, 0] == 1).sum()),
+                int((grid_H[:, 0] == -1).sum()),
+            )
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From 7842f2f864436a5e057ee0c44ddabf08c0da9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 23/41] fix: o3.random_grid raised for tuple sizes

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..b341099 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From 76904f4d208e0665339617a0238886448d584f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 24/41] fix: o2 and o3 grid_sample raised for elements of a
 subgroup without signal

---
 gconv/geometry/groups/o2.py | 4 ++++
 gconv/geometry/groups/o3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..23cc6a6 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -189,11 +189,15 @@ def grid_sample(
         so2_signal = so2.grid_sample(
             R[so2_idx], so2_signal, so2_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so2_signal = signal.new_zeros(so2_idx.shape[0], *signal.shape[1:])
 
     if n_reflections:
         r_signal = so2.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(r_idx.shape[0], *signal.shape[1:])
 
     sampled_signal = torch.cat((so2_signal, r_signal), dim=0)
 
diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index b341099..41fe65f 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -198,11 +198,15 @@ def grid_sample(
         so3_signal = so3.grid_sample(
             R[so3_idx], so3_signal, so3_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so3_signal = signal.new_zeros(so3_idx.shape[0], *signal.shape[1:])
 
     if n_reflections:
         r_signal = so3.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(r_idx.shape[0], *signal.shape[1:])
 
     sampled_signal = torch.cat((so3_signal, r_signal), dim=0)
 
-- 
2.43.0


From 730e4d84a200d7d0ef4ad4b1d8f2baec63329224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 25/41] fix: layers did not reject empty group kernels given as
 int or grid

---
 gconv/gnn/modules/gconv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index d4c53be..f871821 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -55,10 +55,10 @@ class GroupConvNd(nn.Module):
         bias: bool = False,
     ) -> None:
         super().__init__()
-        if isinstance(group_kernel_size, tuple) and (
-            any(i < 0 for i in group_kernel_size) or sum(group_kernel_size) <= 0
-        ):
-            raise ValueError("group_kernel_size must contain positive integers")
+        for size in (group_kernel_size, kernel.group_kernel_size):
+            size = (size,) if isinstance(size, int) else size
+            if isinstance(size, tuple) and (any(i < 0 for i in size) or sum(size) <= 0):
+                raise ValueError("group_kernel_size must contain positive integers")
         if groups <= 0:
             raise ValueError("groups must be a positive integer")
         if in_channels % groups != 0:
-- 
2.43.0


From f4772244820f1427be7e179c3ade8442e99a9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 26/41] fix: kernels shared their grids with the caller and
 other kernels

---
 gconv/gnn/kernels/kernel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..baedffe 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -99,10 +99,13 @@ class GroupKernel(nn.Module):
 
         self.groups = groups
 
-        self.register_buffer("grid_H", grid_H)
-        self.register_buffer("grid_Rn", grid_Rn)
+        # buffers are copies, since loading a state dict modifies them in-place
+        self.register_buffer("grid_H", grid_H.clone() if grid_H is not None else None)
+        self.register_buffer(
+            "grid_Rn", grid_Rn.clone() if grid_Rn is not None else None
+        )
 
-        self.register_buffer("mask", mask)
+        self.register_buffer("mask", mask.clone() if mask is not None else None)
 
         self.det_H = det_H
         self.inverse_H = inverse_H
-- 
2.43.0


From bbcdcee8fdf5d3ddded5fe035ad798d46e225b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 27/41] fix: loading a state dict kept sampling widths derived
 from the replaced group grid

---
 gconv/gnn/kernels/kernel.py                | 16 +++++
 gconv/gnn/kernels/kernel_en/kernel_e2.py   | 72 ++++++++++++----------
 gconv/gnn/kernels/kernel_en/kernel_e3.py   | 72 ++++++++++++----------
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 24 ++++++--
 gconv/gnn/kernels/kernel_sen/kernel_se3.py | 24 ++++++--
 gconv/gnn/kernels/kernel_sen/kernel_so3.py | 12 +++-
 6 files changed, 141 insertions(+), 79 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index baedffe..c34a432 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -116,6 +116,22 @@ class GroupKernel(nn.Module):
         self.sample_H_kwargs = sample_H_kwargs
         self.sample_Rn_kwargs = sample_Rn_kwargs
 
+    def default_sample_H_kwargs(self) -> dict:
+        """
+        Returns the sample_H_kwargs that are derived from grid_H because they
+        were not provided, e.g., sampling widths.
+        """
+        return {}
+
+    def _load_from_state_dict(self, *args, **kwargs) -> None:
+        super()._load_from_state_dict(*args, **kwargs)
+
+        # grid_H may have been replaced
+        self.sample_H_kwargs = {
+            **self.sample_H_kwargs,
+            **self.default_sample_H_kwargs(),
+        }
+
     def extra_repr(self):
         s = f"mask={self.mask is not None}"
         if self.sample_H_kwargs:
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index a20164d..13802e7 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -133,22 +133,6 @@ class GSeparableKernelE2(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:]
-                ).mean()
-            )
-
-        if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:]
-                ).mean()
-            )
-
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
             "mode": group_sampling_mode,
@@ -181,6 +165,26 @@ class GSeparableKernelE2(GSeparableKernel):
             sample_Rn_kwargs,
         )
 
+        self._default_rotation_width = not group_rotation_sampling_width
+        self._default_reflection_width = not group_reflection_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        n_rotations, _ = self.group_kernel_size
+        R = self.grid_H[:, 1:]
+
+        kwargs = {}
+        if self._default_rotation_width:
+            kwargs["rotation_width"] = (
+                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean()
+            )
+        if self._default_reflection_width:
+            kwargs["reflection_width"] = (
+                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean()
+            )
+
+        return kwargs
+
 
 class GKernelE2(GKernel):
     def __init__(
@@ -236,22 +240,6 @@ class GKernelE2(GKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:]
-                ).mean()
-            )
-
-        if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so2.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:]
-                ).mean()
-            )
-
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
             "mode": group_sampling_mode,
@@ -283,3 +271,23 @@ class GKernelE2(GKernel):
             sample_H_kwargs,
             sample_Rn_kwargs,
         )
+
+        self._default_rotation_width = not group_rotation_sampling_width
+        self._default_reflection_width = not group_reflection_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        n_rotations, _ = self.group_kernel_size
+        R = self.grid_H[:, 1:]
+
+        kwargs = {}
+        if self._default_rotation_width:
+            kwargs["rotation_width"] = (
+                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean()
+            )
+        if self._default_reflection_width:
+            kwargs["reflection_width"] = (
+                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean()
+            )
+
+        return kwargs
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 9bb980b..ede0ada 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -133,22 +133,6 @@ class GSeparableKernelE3(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
-
-        if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
-
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
             "mode": group_sampling_mode,
@@ -181,6 +165,26 @@ class GSeparableKernelE3(GSeparableKernel):
             sample_Rn_kwargs,
         )
 
+        self._default_rotation_width = not group_rotation_sampling_width
+        self._default_reflection_width = not group_reflection_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        n_rotations, _ = self.group_kernel_size
+        R = self.grid_H[:, 1:].unflatten(-1, (3, 3))
+
+        kwargs = {}
+        if self._default_rotation_width:
+            kwargs["rotation_width"] = (
+                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean()
+            )
+        if self._default_reflection_width:
+            kwargs["reflection_width"] = (
+                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean()
+            )
+
+        return kwargs
+
 
 class GKernelE3(GKernel):
     def __init__(
@@ -236,22 +240,6 @@ class GKernelE3(GKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_rotation_sampling_width:
-            group_rotation_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
-
-        if not group_reflection_sampling_width:
-            group_reflection_sampling_width = (
-                0.8
-                * so3.nearest_neighbour_distance(
-                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
-                ).mean()
-            )
-
         sample_H_kwargs = {
             "signal_grid_size": group_kernel_size,
             "mode": group_sampling_mode,
@@ -283,3 +271,23 @@ class GKernelE3(GKernel):
             sample_H_kwargs,
             sample_Rn_kwargs,
         )
+
+        self._default_rotation_width = not group_rotation_sampling_width
+        self._default_reflection_width = not group_reflection_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        n_rotations, _ = self.group_kernel_size
+        R = self.grid_H[:, 1:].unflatten(-1, (3, 3))
+
+        kwargs = {}
+        if self._default_rotation_width:
+            kwargs["rotation_width"] = (
+                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean()
+            )
+        if self._default_reflection_width:
+            kwargs["reflection_width"] = (
+                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean()
+            )
+
+        return kwargs
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 517019a..7c4163d 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -108,9 +108,6 @@ class GSeparableKernelSE2(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_sampling_width:
-            group_sampling_width = 0.8 * so2.nearest_neighbour_distance(grid_H).mean()
-
         sample_H_kwargs = {"mode": group_sampling_mode, "width": group_sampling_width}
         sample_Rn_kwargs = {
             "mode": spatial_sampling_mode,
@@ -137,6 +134,15 @@ class GSeparableKernelSE2(GSeparableKernel):
             sample_Rn_kwargs=sample_Rn_kwargs,
         )
 
+        self._default_width = not group_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        if not self._default_width:
+            return {}
+
+        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean()}
+
 
 class GKernelSE2(GKernel):
     def __init__(
@@ -181,9 +187,6 @@ class GKernelSE2(GKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_sampling_width:
-            group_sampling_width = 0.8 * so2.nearest_neighbour_distance(grid_H).mean()
-
         sample_H_kwargs = {"mode": group_sampling_mode, "width": group_sampling_width}
         sample_Rn_kwargs = {
             "mode": spatial_sampling_mode,
@@ -209,3 +212,12 @@ class GKernelSE2(GKernel):
             sample_H_kwargs=sample_H_kwargs,
             sample_Rn_kwargs=sample_Rn_kwargs,
         )
+
+        self._default_width = not group_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        if not self._default_width:
+            return {}
+
+        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean()}
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se3.py b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
index cb2ac70..0846406 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
@@ -118,9 +118,6 @@ class GSeparableKernelSE3(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_sampling_width:
-            group_sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
-
         sample_H_kwargs = {
             "mode": group_sampling_mode,
             "width": group_sampling_width,
@@ -150,6 +147,15 @@ class GSeparableKernelSE3(GSeparableKernel):
             sample_Rn_kwargs=sample_Rn_kwargs,
         )
 
+        self._default_width = not group_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        if not self._default_width:
+            return {}
+
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
+
 
 class GKernelSE3(GKernel):
     def __init__(
@@ -194,9 +200,6 @@ class GKernelSE3(GKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_sampling_width:
-            group_sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
-
         sample_H_kwargs = {
             "mode": group_sampling_mode,
             "width": group_sampling_width,
@@ -225,3 +228,12 @@ class GKernelSE3(GKernel):
             sample_H_kwargs=sample_H_kwargs,
             sample_Rn_kwargs=sample_Rn_kwargs,
         )
+
+        self._default_width = not group_sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        if not self._default_width:
+            return {}
+
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_so3.py b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
index 8c80498..3385b26 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_so3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
@@ -45,9 +45,6 @@ class GSubgroupKernelSO3(GSubgroupKernel):
         if grid_H is None:
             grid_H = so3.uniform_grid(size=group_kernel_size)
 
-        if not sampling_width:
-            sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
-
         sample_H_kwargs = {"mode": sampling_mode, "width": sampling_width}
 
         super().__init__(
@@ -62,3 +59,12 @@ class GSubgroupKernelSO3(GSubgroupKernel):
             sample_H=so3.grid_sample,
             sample_H_kwargs=sample_H_kwargs,
         )
+
+        self._default_width = not sampling_width
+        self.sample_H_kwargs = {**sample_H_kwargs, **self.default_sample_H_kwargs()}
+
+    def default_sample_H_kwargs(self) -> dict:
+        if not self._default_width:
+            return {}
+
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
-- 
2.43.0


From 395bc5f1faf318102dcd816eca47c4bb0ba3ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 28/41] fix: barycentric interpolation was nan for nodes
 opposite to their closest points

---
 gconv/geometry/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gconv/geometry/interpolation.py b/gconv/geometry/interpolation.py
index 7d4bc43..3bb567b 100644
--- a/gconv/geometry/interpolation.py
+++ b/gconv/geometry/interpolation.py
@@ -130,6 +130,10 @@ def interpolate_BCC(
     bcc[mask, 0], bcc[mask, 1], bcc[mask, 2] = 1.0, 0.0, 0.0
     bcc[bcc < 0] = 0
 
+    # nodes opposite to their closest points have no positive coordinates
+    mask = ~(bcc.sum(-1) > 0)
+    bcc[mask, 0], bcc[mask, 1], bcc[mask, 2] = 1.0, 0.0, 0.0
+
     bcc = bcc.view(N, H, 3)
     bcc /= bcc.sum(-1, keepdim=True)
 
-- 
2.43.0


From c496c59d888cd7e2a858411b27832c9841e92a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 29/41] fix: read the group weights with the channel dimensions
 they are declared with

The weights are stored as (group, out_channels, in_channels // groups), but the
sampled weights were read as (in_channels // groups, out_channels), such that a
weight was used for other channels, and other channel groups, than its own.
---
 gconv/gnn/kernels/kernel.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index c34a432..f7ca52e 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -295,12 +295,13 @@ class GSeparableKernel(GroupKernel):
             .view(
                 num_out_H,
                 num_in_H,
-                self.in_channels // self.groups,
                 self.out_channels,
+                self.in_channels // self.groups,
                 *self.weight_dims,
             )
-            .transpose(0, 3)
-            .transpose(1, 3)
+            .transpose(0, 2)
+            .transpose(1, 2)
+            .transpose(2, 3)
         )
 
         # sample R3
@@ -385,12 +386,13 @@ class GSubgroupKernel(GroupKernel):
             .view(
                 num_out_H,
                 num_in_H,
-                self.in_channels // self.groups,
                 self.out_channels,
+                self.in_channels // self.groups,
                 *self.kernel_size,
             )
-            .transpose(0, 3)
-            .transpose(1, 3)
+            .transpose(0, 2)
+            .transpose(1, 2)
+            .transpose(2, 3)
         )
 
         return weight
@@ -472,7 +474,7 @@ class GKernel(GroupKernel):
             **self.sample_H_kwargs,
         ).view(
             num_out_H * num_in_H,
-            (self.in_channels // self.groups) * self.out_channels,
+            self.out_channels * (self.in_channels // self.groups),
             *self.kernel_size,
         )
 
@@ -486,12 +488,13 @@ class GKernel(GroupKernel):
             .view(
                 num_out_H,
                 num_in_H,
-                self.in_channels // self.groups,
                 self.out_channels,
+                self.in_channels // self.groups,
                 *self.kernel_size,
             )
-            .transpose(0, 3)
-            .transpose(1, 3)
+            .transpose(0, 2)
+            .transpose(1, 2)
+            .transpose(2, 3)
         )
 
         if self.mask is not None:
-- 
2.43.0


From fd10956077c844f2e122ec5cc29c3a12f37e5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 30/41] fix: normalisation modules raised for feature maps that
 are not contiguous

---
 gconv/gnn/modules/normalization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..c890480 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -6,13 +6,13 @@ from torch import Tensor
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -23,10 +23,10 @@ class GLayerNorm(nn.LayerNorm):
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
-- 
2.43.0


From 93dd09c36ee08a9d00b5478e929470d81d60b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 31/41] fix: repulse raised for grids that track gradients

---
 gconv/geometry/repulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 50989c2..2effcad 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -64,7 +64,7 @@ def repulse(
 
     pbar = trange(steps, disable=not show_pbar, desc="Optimizing")
 
-    grid = grid if in_place else grid.clone()
+    grid = grid if in_place else grid.detach().clone()
     grid.requires_grad = True
 
     optimizer = torch.optim.SGD([grid], lr=step_size)
-- 
2.43.0


From 0f10e2107fbc8b78fb03770e522a0e2c6f3fca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 32/41] fix: repulse raised while gradients are disabled

---
 gconv/geometry/repulsion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 2effcad..5d07023 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -27,6 +27,7 @@ def columb_energy(d: Tensor, k: int = 2) -> Tensor:
     return d ** (-k)
 
 
+@torch.enable_grad()
 def repulse(
     grid: Tensor,
     steps: int = 200,
-- 
2.43.0


From 1f34f937cfce4c20607034be90aee6ed0c0b3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 33/41] fix: kernels raised for group products that are not
 contiguous

---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index f7ca52e..2537858 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -287,7 +287,7 @@ class GSeparableKernel(GroupKernel):
         # sample SO3
         weight_H = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight_H.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
@@ -378,7 +378,7 @@ class GSubgroupKernel(GroupKernel):
         # sample SO3
         weight = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
@@ -468,7 +468,7 @@ class GKernel(GroupKernel):
 
         # sample SO3
         weight = self.sample_H(
-            H_product_H.view(-1, *H_dims),
+            H_product_H.reshape(-1, *H_dims),
             self.weight.reshape(self._group_kernel_dim, -1),
             self.grid_H,
             **self.sample_H_kwargs,
-- 
2.43.0


From cac631cf6229cc430cabb0dbe7c8e2ae52e5aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 34/41] fix: 3D layers in double precision raised when
 permuting their output grid

---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 12 +++++++++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..73fd52f 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,9 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            H = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -187,7 +189,9 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +289,8 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..297ba17 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,9 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            H = so3.left_apply_matrix(
+                so3.random_matrix(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -178,7 +180,7 @@ class GSeparableConvSE3(GSeparableConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H.dtype), out_H
             )
 
         return super().forward(input, in_H, out_H)
@@ -273,7 +275,7 @@ class GConvSE3(GConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H.dtype), out_H
             )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From 7ee9876d71a247d6e91741bffbd7449010293454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 35/41] fix: o2.random_grid made its coefficients on the CPU

---
 gconv/geometry/groups/o2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index 23cc6a6..a9eec69 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -54,7 +54,7 @@ def random_grid(size: int, device: str | None = None) -> Tensor:
     """
     angles = so2.random_grid(size, device=device)
 
-    coeffs = (2 * (torch.rand(size, 1) > 0.5)) - 1
+    coeffs = (2 * (torch.rand(size, 1, device=device) > 0.5)) - 1
 
     return torch.cat((coeffs, angles), dim=-1)
 
-- 
2.43.0


From ddcfe3fb3b235cb00fa4d4c26f815747a611f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 36/41] fix: so3.uniform_grid returned cached grids on the CPU
 whatever the device

---
 gconv/geometry/groups/so3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index b7493fa..8efb0f2 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -566,7 +566,7 @@ def uniform_grid(
     if size == 0:
         return torch.Tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization)
+        return _grid_cache.load_grid(size, "so3", parameterization).to(device=device)
     except KeyError:
         pass
 
@@ -599,7 +599,7 @@ def uniform_grid(
     grid = param_fn(grid)
 
     if cache_grid:
-        _grid_cache.save_grid(grid, "so3", parameterization)
+        _grid_cache.save_grid(grid.cpu(), "so3", parameterization)
 
     return grid
 
-- 
2.43.0


From 1757b8578c011fcf2acbc0f0e71178440cae1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 37/41] fix: so3 groups raised for devices other than the CPU

---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 8efb0f2..fce05d2 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -564,7 +564,7 @@ def uniform_grid(
         - Tensor containing uniform grid on SO3.
     """
     if size == 0:
-        return torch.Tensor([], device=device)
+        return torch.tensor([], device=device)
     try:
         return _grid_cache.load_grid(size, "so3", parameterization).to(device=device)
     except KeyError:
@@ -732,7 +732,7 @@ def identity(device: Optional[str] = None) -> Tensor:
     Returns:
        - Tensor containing group elements.
     """
-    return torch.Tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
+    return torch.tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
 
 
 def klein_group(device: Optional[str] = None) -> Tensor:
@@ -745,7 +745,7 @@ def klein_group(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [1.0, 0.0, 0.0, 0.0],
             [0.0, 0.0, 0.0, 1.0],
@@ -766,7 +766,7 @@ def tetrahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -795,7 +795,7 @@ def octahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -836,7 +836,7 @@ def icosahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
-- 
2.43.0


From 97365c48ba8f1a946ed2573dbde2fb31b4dc8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 38/41] fix: so3.cyclic groups were made on the CPU whatever
 the device

---
 gconv/geometry/groups/so3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index fce05d2..3e46337 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -914,7 +914,7 @@ def cyclic_x(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
@@ -928,7 +928,7 @@ def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
@@ -942,7 +942,7 @@ def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic(n: int, axis: str, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 79ec66d09f735aed9af9ca4ab44fdc4707971c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 39/41] fix: cached so3 grids ignored a default precision set
 after the import

---
 gconv/geometry/groups/so3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 3e46337..954a193 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -566,7 +566,8 @@ def uniform_grid(
     if size == 0:
         return torch.tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization).to(device=device)
+        grid = _grid_cache.load_grid(size, "so3", parameterization)
+        return grid.to(device=device, dtype=torch.get_default_dtype())
     except KeyError:
         pass
 
-- 
2.43.0


From ccaa847742a70d49c4d7a5fca73371f480c6c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 40/41] fix: 2D layers raised or changed precision when the
 default precision differs from theirs

---
 gconv/gnn/modules/gconv_en/gconv_e2.py   | 12 +++++++++---
 gconv/gnn/modules/gconv_sen/gconv_se2.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e2.py b/gconv/gnn/modules/gconv_en/gconv_e2.py
index 987e976..11254de 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e2.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e2.py
@@ -89,7 +89,9 @@ class GLiftingConvE2(GLiftingConv2d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o2.left_apply_angle(o2.random_grid(1, device=input.device), H)
+            H = o2.left_apply_angle(
+                o2.random_grid(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -187,7 +189,9 @@ class GSeparableConvE2(GSeparableConv2d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
+            H_out = o2.left_apply_angle(
+                o2.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +289,8 @@ class GConvE2(GConv2d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
+            H_out = o2.left_apply_angle(
+                o2.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se2.py b/gconv/gnn/modules/gconv_sen/gconv_se2.py
index e7f62de..3148dab 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se2.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se2.py
@@ -84,7 +84,9 @@ class GLiftingConvSE2(GLiftingConv2d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so2.left_apply_angle(so2.random_grid(1, device=input.device), H)
+            H = so2.left_apply_angle(
+                so2.random_grid(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -177,7 +179,9 @@ class GSeparableConvSE2(GSeparableConv2d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so2.left_apply_angle(so2.random_grid(1, device=input.device), out_H)
+            out_H = so2.left_apply_angle(
+                so2.random_grid(1, device=input.device).to(out_H.dtype), out_H
+            )
 
         return super().forward(input, in_H, out_H)
 
@@ -270,6 +274,8 @@ class GConvSE2(GConv2d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so2.left_apply_angle(so2.random_grid(1, device=input.device), out_H)
+            out_H = so2.left_apply_angle(
+                so2.random_grid(1, device=input.device).to(out_H.dtype), out_H
+            )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From a69d3155ff16204c9a2919f5f1bc9dc57e6a5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 41/41] fix: layers loaded on one device could not be used on
 another

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py   | 8 ++++----
 gconv/gnn/kernels/kernel_en/kernel_e3.py   | 8 ++++----
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 4 ++--
 gconv/gnn/kernels/kernel_sen/kernel_se3.py | 4 ++--
 gconv/gnn/kernels/kernel_sen/kernel_so3.py | 2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index 13802e7..5a8b7fe 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -176,11 +176,11 @@ class GSeparableKernelE2(GSeparableKernel):
         kwargs = {}
         if self._default_rotation_width:
             kwargs["rotation_width"] = (
-                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean()
+                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean().item()
             )
         if self._default_reflection_width:
             kwargs["reflection_width"] = (
-                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean()
+                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean().item()
             )
 
         return kwargs
@@ -283,11 +283,11 @@ class GKernelE2(GKernel):
         kwargs = {}
         if self._default_rotation_width:
             kwargs["rotation_width"] = (
-                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean()
+                0.8 * so2.nearest_neighbour_distance(R[:n_rotations]).mean().item()
             )
         if self._default_reflection_width:
             kwargs["reflection_width"] = (
-                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean()
+                0.8 * so2.nearest_neighbour_distance(R[n_rotations:]).mean().item()
             )
 
         return kwargs
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index ede0ada..fce4b12 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -176,11 +176,11 @@ class GSeparableKernelE3(GSeparableKernel):
         kwargs = {}
         if self._default_rotation_width:
             kwargs["rotation_width"] = (
-                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean()
+                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean().item()
             )
         if self._default_reflection_width:
             kwargs["reflection_width"] = (
-                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean()
+                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean().item()
             )
 
         return kwargs
@@ -283,11 +283,11 @@ class GKernelE3(GKernel):
         kwargs = {}
         if self._default_rotation_width:
             kwargs["rotation_width"] = (
-                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean()
+                0.8 * so3.nearest_neighbour_distance(R[:n_rotations]).mean().item()
             )
         if self._default_reflection_width:
             kwargs["reflection_width"] = (
-                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean()
+                0.8 * so3.nearest_neighbour_distance(R[n_rotations:]).mean().item()
             )
 
         return kwargs
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 7c4163d..7f5b0b4 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -141,7 +141,7 @@ class GSeparableKernelSE2(GSeparableKernel):
         if not self._default_width:
             return {}
 
-        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean()}
+        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean().item()}
 
 
 class GKernelSE2(GKernel):
@@ -220,4 +220,4 @@ class GKernelSE2(GKernel):
         if not self._default_width:
             return {}
 
-        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean()}
+        return {"width": 0.8 * so2.nearest_neighbour_distance(self.grid_H).mean().item()}
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se3.py b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
index 0846406..fb364b0 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se3.py
@@ -154,7 +154,7 @@ class GSeparableKernelSE3(GSeparableKernel):
         if not self._default_width:
             return {}
 
-        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean().item()}
 
 
 class GKernelSE3(GKernel):
@@ -236,4 +236,4 @@ class GKernelSE3(GKernel):
         if not self._default_width:
             return {}
 
-        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean().item()}
diff --git a/gconv/gnn/kernels/kernel_sen/kernel_so3.py b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
index 3385b26..d4dfc3e 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_so3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
@@ -67,4 +67,4 @@ class GSubgroupKernelSO3(GSubgroupKernel):
         if not self._default_width:
             return {}
 
-        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean()}
+        return {"width": 0.8 * so3.nearest_neighbour_distance(self.grid_H).mean().item()}
-- 
2.43.0

