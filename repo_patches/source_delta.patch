From 15194266cd514a8e9af76921ce2962ce734b1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 01/85] fix: converting real data onto the same basis must not
 reinterpret its memory

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 35dd4c607186532d6dce1729ea8b6ff16dbfd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 02/85] fix: basis_as_n_point_basis raised NameError for a
 typing-only name

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From d5384268f7f9e9e1945a07d94c5964750fcc5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 03/85] fix: operator list products used the shape of the
 unconverted operand

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..bf16f97 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From abe35df8de9d2172e8ffb00626b168e59116d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 04/85] fix: operator products and conversions must return flat
 data

---
 surface_potential_analysis/operator/operations.py | 2 +-
 surface_potential_analysis/operator/operator.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index bf16f97..d8a9989 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -334,7 +334,7 @@ def apply_operator_to_states(
     norm = np.sqrt(np.sum(np.abs(np.square(data)), axis=1))
     return {
         "basis": TupleBasis(converted["basis"][0], lhs["basis"][0]),
-        "data": data / norm.reshape(norm.size, 1),
+        "data": (data / norm.reshape(norm.size, 1)).reshape(-1),
         "eigenvalue": norm,
     }
 
diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..c9b9fa1 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).reshape(-1)}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -232,7 +232,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.reshape(-1)}
 
 
 def matmul_operator(
@@ -242,7 +242,7 @@ def matmul_operator(
         lhs["data"].reshape(lhs["basis"].shape),
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
-    )
+    ).reshape(-1)
     return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
 
 
-- 
2.43.0


From 6aad9e1776d896929ba6acf86b67ecdc67347b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 05/85] fix: average_eigenvalues must average over all axes of
 the eigenvalue basis by default

---
 surface_potential_analysis/operator/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index c9b9fa1..66d3fc1 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,7 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
-- 
2.43.0


From 6edb01196a3b9f53bfe698d412dbb23ae9972adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 06/85] fix: as_flat_operator used both sides of the operator
 basis

---
 surface_potential_analysis/operator/operator_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/operator_list.py b/surface_potential_analysis/operator/operator_list.py
index cedda1a..542268f 100644
--- a/surface_potential_analysis/operator/operator_list.py
+++ b/surface_potential_analysis/operator/operator_list.py
@@ -213,7 +213,7 @@ def as_flat_operator(
 
     """
     basis = TupleBasis[_B0, Unpack[tuple[Any, ...]]](
-        operator_list["basis"][0], *operator_list["basis"][1]
+        operator_list["basis"][0], *operator_list["basis"][1][0]
     )
     return {
         "basis": TupleBasis(basis, basis),
-- 
2.43.0


From 657caaa502f0b3adef4dbe5f658e41a0df64b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 07/85] fix: single-axis displacements were zero and wrapped
 incorrectly

---
 surface_potential_analysis/operator/build.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..25f9668 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -47,6 +47,14 @@ def _wrap_displacements(
     ).astype(np.float64)
 
 
+def _get_distances_along_axis(
+    basis: FundamentalPositionBasis[Any, Any],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    """Get the distance of each point along the direction of the axis."""
+    length = np.linalg.norm(basis.delta_x)
+    return length * BasisUtil(basis).nx_points / basis.n  # type: ignore[no-any-return]
+
+
 def get_displacements_x(
     basis: BasisWithLengthLike[Any, Any, Any], origin: float
 ) -> ValueList[FundamentalPositionBasis[Any, Any]]:
@@ -62,7 +70,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    distances = _get_distances_along_axis(basis_x) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,10 +174,10 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = _get_distances_along_axis(basis_x)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
+    data = _wrap_displacements(distances, max_distance).ravel()
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
@@ -186,7 +194,7 @@ def _get_displacements_matrix_x_along_axis(
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
-    data = _wrap_displacements(distances, max_distance)
+    data = _wrap_displacements(distances, max_distance).ravel()
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
-- 
2.43.0


From 8d9854306e978c7669a709ba5056fe272dd942de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 08/85] fix: weighted averages over one axis raised TypeError

---
 surface_potential_analysis/operator/operator.py               | 4 ++--
 .../probability_vector/probability_vector.py                  | 2 +-
 surface_potential_analysis/state_vector/state_vector_list.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 66d3fc1..9572997 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -173,7 +173,7 @@ def average_eigenvalues(
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         "data": np.average(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
@@ -213,7 +213,7 @@ def average_eigenvalues_list(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            axis=1 + axis[0] if len(axis) == 1 else tuple(1 + ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..af0d7a0 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -240,7 +240,7 @@ def average_probabilities(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..1b45888 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -286,7 +286,7 @@ def average_state_vector(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            axis=axis[0] if len(axis) == 1 else axis,
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From 979e5e691e0e94fe3b44ce89977acd77145ec783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 09/85] fix: summed probabilities had a tuple as basis and a
 wrong default axis

---
 .../probability_vector/probability_vector.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index af0d7a0..7dbab24 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -148,7 +148,7 @@ def sum_probability(
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
     return {
-        "basis": basis,
+        "basis": TupleBasis(*basis),
         "data": (
             np.sum(
                 probability["data"].reshape(probability["basis"].shape), axis=axis
@@ -173,7 +173,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 4481e53952881a925bb6eb206a23a97d29d03f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 10/85] fix: get_probability_along_axis used the shape of the
 whole list basis

---
 .../probability_vector/probability_vector.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 7dbab24..71756b8 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,16 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
     )
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
-- 
2.43.0


From 60fab9f03d3692abbf7ee5ee564c0d45359493d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 11/85] fix: states selected along unsorted axes had their
 basis in the wrong order

---
 .../probability_vector/probability_vector.py                    | 2 +-
 surface_potential_analysis/state_vector/state_vector_list.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 71756b8..dd53e25 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -116,7 +116,7 @@ def get_probability_along_axis(
     ndim = probabilities["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
+        *tuple(probabilities["basis"][0][axis] for axis in axes)
     )
 
     vector = get_data_in_axes(
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index 1b45888..c7ddece 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -334,7 +334,7 @@ def get_state_along_axis(
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
+        *tuple(states["basis"][0][axis] for axis in axes)
     )
 
     vector = get_data_in_axes(
-- 
2.43.0


From 9314587c53312ff44e5daacdc16caabfb5b7e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 12/85] fix: interpolated state vectors raised TypeError and
 were mis-scaled

The walrus target took the comparison's bool instead of the axis position, and the
scale ignored the axes that are not interpolated.
---
 surface_potential_analysis/state_vector/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..3c39caa 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -216,11 +216,11 @@ def interpolate_state_vector_momentum(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
             if (
                 idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
             )
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    scaled = converted["data"] * np.sqrt(final_basis.fundamental_n / converted_basis.n)
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From fc9ab10f124c8fb6e5264883f17e44b93612c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 13/85] fix: fundamental times were spaced differently from the
 times of the basis

The samples are spaced by delta_t / fundamental_n, but the fundamental times
included the endpoint and were spaced by delta_t / (fundamental_n - 1).
---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..d3b2f5b 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return self.fundamental_dt * np.arange(self.fundamental_n)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From 454e521196559d3cf1bc86a0b782abda226c9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 14/85] fix: k distances along a path were norms over the path
 instead of over space

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..e9449a3 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From 7589dfd1efcdea4fa4b9071233b488e72f3825d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 15/85] fix: decrement_brillouin_zone failed for bases that are
 not three dimensional

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..1a235a1 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,10 +79,8 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
+    return tuple(  # type: ignore cant infer
+        c - b for (c, b) in zip(coordinate, bragg_point, strict=True)
     )
 
 
-- 
2.43.0


From e6536aa28d8e7b964bc67b7ef4252208fc757c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 16/85] fix: get_twice_average_nx divided by zero when only
 some axes have antipodal points

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..fa1dc4c 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.mean(angle[:, is_nan[i]], axis=0)
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From 3be8d95891a07a17d6cb3c3c60f1f7bec7a7b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 17/85] fix: spline interpolation along an axis other than the
 last

---
 surface_potential_analysis/util/interpolation.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..d4c9a37 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -239,18 +239,15 @@ def interpolate_points_along_axis_spline(
     """Use a spline interpolation to increase the Z resolution, spacing z linearly."""
     new_coords = list(np.linspace(old_coords[0], old_coords[-1], n))  # type: ignore bad type inference
 
-    new_shape = list(data.shape)
-    new_shape[axis] = n
-    points = np.empty(new_shape)
-
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
-
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
+    swapped_data = data.swapaxes(axis, -1)
+    flat_data = swapped_data.reshape(-1, data.shape[axis])
+    flat_points = np.empty((flat_data.shape[0], n))
 
     for i in range(flat_data.shape[0]):
         old_energies = flat_data[i]
         tck = scipy.interpolate.splrep(old_coords, old_energies, s=0)  # type: ignore bad type inference
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
-        swapped_points[i] = new_energy  # type: ignore bad type inference
+        flat_points[i] = new_energy  # type: ignore bad type inference
 
-    return points  # type: ignore[no-any-return]
+    points = flat_points.reshape(*swapped_data.shape[:-1], n)
+    return points.swapaxes(axis, -1)  # type: ignore[no-any-return]
-- 
2.43.0


From de6a45bf27b58684b039cb2c350da927bd8bccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 18/85] fix: default axes of the fourier interpolation are the
 last len(s) axes in order

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index d4c9a37..00530a8 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From 3c32a18553ef9f4cead0c4ac45134d11aeedef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 19/85] fix: undo_truncate_potential was only the inverse of
 truncate_potential for n=1

---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d066f27 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From 34941272d6444b916579604ef999e975f7d6fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 20/85] fix: potentials loaded from JSON had unflattened data

---
 surface_potential_analysis/potential/potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index d066f27..ee7e7eb 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),  # type: ignore[typeddict-item]
         }
 
 
@@ -182,7 +182,7 @@ def load_uneven_potential_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 UnevenPotential3dZBasis(np.array(out["z_points"])),
             ),
-            "data": points,
+            "data": points.reshape(-1),  # type: ignore[typeddict-item]
         }
 
 
-- 
2.43.0


From 7dce94d902ee3a49f04a7e603976c6aee0d2d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 21/85] fix: isotropic kernels of non-symmetric diagonal
 kernels were reversed

---
 surface_potential_analysis/kernel/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From 869faed7893b133574de3660008f4fffde8ed76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 22/85] fix: isotropic kernels were built from the negated
 displacements

---
 surface_potential_analysis/kernel/build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..6454499 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,9 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    correlation = fn(
+        displacements["data"].reshape(displacements["basis"].shape)[:, 0]
+    )
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
-- 
2.43.0


From 82e7763756356a5ceb9e2ec7cb9db57d48d7e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 23/85] fix: noise operator lists must have flat data

---
 surface_potential_analysis/kernel/build.py         | 4 ++--
 surface_potential_analysis/kernel/solve/_fft.py    | 2 +-
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index 6454499..40ecf2e 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -295,7 +295,7 @@ def truncate_diagonal_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.reshape(-1),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
@@ -320,7 +320,7 @@ def truncate_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.reshape(-1),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..5d0d393 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -192,7 +192,7 @@ def get_periodic_operators_for_real_isotropic_noise(
     # ! data[end:] = np.sqrt(2) * np.imag(np.conj(data[end:]))
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), TupleBasis(basis, basis)),
-        "data": data,
+        "data": data.reshape(-1),
     }
 
 
diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..d426494 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -128,7 +128,7 @@ def _get_linear_operators_for_noise(
     data = np.array([displacements**n for n in range(n_terms)], dtype=np.complex128)
     return {
         "basis": TupleBasis(FundamentalBasis(n_terms), TupleBasis(basis, basis)),
-        "data": data,
+        "data": data.reshape(-1),
     }
 
 
-- 
2.43.0


From 673109945726732be2c3c69f2c9af8d9b25a4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 24/85] fix: truncate_diagonal_noise_kernel treated diagonal
 operators as full

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index 40ecf2e..e4bb7fc 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -366,4 +366,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From bc68328613c3b8a4871628469f595fc6a752ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 25/85] fix: gaussian kernels in more than one dimension used
 flat displacements

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 76abfc1b25e1fcaacfb7fc4cdd5e9520fe78daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 26/85] fix: number of eigenvalues of explicit taylor noise
 operators

---
 surface_potential_analysis/kernel/solve/_taylor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index d426494..a6b30a4 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -107,6 +107,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
         polynomial_coefficients=polynomial_coefficients,
+        n_terms=n_terms,
     )
     coefficients *= basis.n
 
-- 
2.43.0


From 1c9661eb1d1be3c281d4c87350d3bc6e39a84fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 27/85] fix: real isotropic fft noise operators did not match
 their eigenvalues

---
 surface_potential_analysis/kernel/solve/_fft.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index 5d0d393..f0d52c3 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -231,8 +231,12 @@ def get_periodic_noise_operators_real_isotropic_fft(
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
+    n_terms = fundamental_n // 2 + 1
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=n_terms,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -244,11 +248,16 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
     )
+    # e^(ikx) and e^(-ikx) are both represented by the same cos and sin operators
+    coefficients = 2 * eigenvalues["data"][:n_terms]
+    coefficients[0] /= 2
+    if fundamental_n % 2 == 0:
+        coefficients[-1] /= 2
 
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From e4bee895e3a0550d9df97b76f59543aac7e58365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 28/85] fix: get_all_eigenstates yields the state of each
 sample

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..cfda314 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
-- 
2.43.0


From 99e635dffb2335d8d8e267d5afeaf030069a035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 29/85] fix: converted wavepackets hold flat data and
 eigenvalues

---
 surface_potential_analysis/wavepacket/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..25cbdae 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -195,7 +195,7 @@ def convert_wavepacket_with_eigenvalues_to_basis(
     return {
         "basis": TupleBasis(TupleBasis(wavepacket["basis"][0][0], list_basis), basis),
         "data": vectors.reshape(-1),
-        "eigenvalue": eigenvalues,
+        "eigenvalue": eigenvalues.reshape(-1),
     }
 
 
@@ -303,5 +303,5 @@ def convert_wavepacket_to_shape(
         ),
         "data": wavepacket["data"]
         .reshape(*old_shape, -1)[*slices, :]
-        .reshape(np.prod(shape), -1),
+        .reshape(-1),
     }
-- 
2.43.0


From 93d2f70109328cb691a389e2477b0da46b5e28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 30/85] fix: resized wavepackets keep a list of wavevectors

---
 surface_potential_analysis/wavepacket/conversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 25cbdae..d6cc6e4 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -16,7 +16,7 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasisWithLengthLike,
 )
 from surface_potential_analysis.stacked_basis.build import (
-    fundamental_stacked_basis_from_shape,
+    fundamental_transformed_stacked_basis_from_shape,
 )
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_momentum_basis,
@@ -299,7 +299,8 @@ def convert_wavepacket_to_shape(
     )
     return {
         "basis": TupleBasis(
-            fundamental_stacked_basis_from_shape(shape), wavepacket["basis"][1]
+            fundamental_transformed_stacked_basis_from_shape(shape),
+            wavepacket["basis"][1],
         ),
         "data": wavepacket["data"]
         .reshape(*old_shape, -1)[*slices, :]
-- 
2.43.0


From 9e27f30acc455c420595ab2762fdce85b6e18977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 31/85] fix: as_wavepacket_list kept only the tail of an
 iterator

---
 surface_potential_analysis/wavepacket/wavepacket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..b5e5f38 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -461,7 +461,8 @@ def as_wavepacket_list(
     -------
     WavepacketList[FundamentalBasis[int], _SB0, _SB1]
     """
-    wavepacket_0 = next(iter(wavepackets))
+    wavepackets = list(wavepackets)
+    wavepacket_0 = wavepackets[0]
     vectors = np.array([w["data"] for w in wavepackets])
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 3a49e66b655db21c4617c3cf4da20bd01a9ccccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 32/85] fix: block fractions of evenly spaced bases are indexed
 by axis

---
 surface_potential_analysis/basis/block_fraction_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..6ed0994 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -60,7 +60,7 @@ class EvenlySpacedBlockFractionBasis(
     @property
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
         return self.__from_fundamental__(  # type: ignore can't infer shape
-            np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
+            np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)[np.newaxis, :]
         )
 
 
-- 
2.43.0


From 8404fa5557fed88cc40e1c6622502aa1f8bc209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 33/85] fix: Bloch bases of states in a truncated basis

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cfda314..119c0e0 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -696,8 +696,8 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
-        list_shape = self.wavefunctions["basis"][0][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
+        list_shape = self.wavefunctions["basis"][0][1].fundamental_shape
         ndim = len(k_shape)
 
         inner_shape = tuple(zip(list_shape, k_shape))
@@ -736,7 +736,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -745,7 +745,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
-- 
2.43.0


From f89174344a32a39223d16836b3947f5e3a7d20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 34/85] fix: tight binding states are truncated to the unit
 cell

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 119c0e0..e8297c5 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -318,7 +318,7 @@ def get_tight_binding_state(
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(wavepacket["basis"][1])
     relevant_idx = wrap_index_around_origin(
         wavepacket["basis"][1],
         unit_cell_util.fundamental_stacked_nx_points,
-- 
2.43.0


From 17ccc83cd8e2cf30a2a302a20389ac1c5a1c5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 35/85] fix: position indices of wavepackets in a truncated
 basis

---
 .../wavepacket/get_eigenstate.py                  | 10 +++++++---
 .../wavepacket/localization/_tight_binding.py     | 15 +++++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index e8297c5..26be730 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -307,20 +307,24 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    # Positions are indexed on the fundamental grid of the unit cell
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    unit_cell_util = BasisUtil(unit_cell_basis)
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
         origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
+            unit_cell_basis,
             idx_0,
         )
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"][1])
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
+        unit_cell_basis,
         unit_cell_util.fundamental_stacked_nx_points,
         origin=origin,
     )
diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..6dde182 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,7 +186,9 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
+    # Positions are indexed on the fundamental grid of the unit cell
+    basis = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    util = BasisUtil(basis)
     origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
@@ -197,9 +199,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(basis, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(basis, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -324,7 +326,12 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    # Positions are indexed on the fundamental grid of the unit cell
+    max_idx = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        max_idx,
+        axes=(0, 1),
+    )
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
-- 
2.43.0


From 2f5fed7e5d9032e1eb49a97fee6a2e91b668246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 36/85] fix: tight binding localization multiplies each sample
 by its phase

---
 .../wavepacket/localization/_tight_binding.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index 6dde182..bdc05b6 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -293,9 +293,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -337,6 +338,7 @@ def localize_tightly_bound_wavepacket_max_point(
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 33502192f9c4fb5552b9b5d874fe0e23afcd5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 37/85] fix: the identity localization operator has one state
 per band

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..a4487f0 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 8a94aa8dc07cee5b1aed3fb36e204eaa875d5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 38/85] fix: the localized hamiltonian was transposed

---
 .../wavepacket/localization_operator.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index a4487f0..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 9f7e1f1bc3133939bb46c0f59e5225059c2ff8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 39/85] fix: the full wannier hamiltonian belongs to the basis
 of wannier states

---
 .../wavepacket/get_eigenstate.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 26be730..d7bcca3 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1004,10 +1004,10 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # The state with translation T is the sum over k of exp(2 pi i k.T) times
+    # the localized bloch state, see get_wannier_states
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
@@ -1019,7 +1019,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
-- 
2.43.0


From 13032e9c7deaa6be3a335c3c1c5022d8cf165aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 40/85] fix: exponential and gaussian projections are centred
 on a point of the unit cell

---
 .../wavepacket/localization/_projection.py    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..cf93080 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,20 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    origin_stacked = wrap_index_around_origin(unit_cell_basis, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(
+            coordinates, origin_stacked, unit_cell_basis.shape, strict=True
+        )
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +319,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=(0)))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
@@ -389,12 +394,15 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    origin_stacked = wrap_index_around_origin(unit_cell_basis, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
+    unit_cell_shape = unit_cell_basis.shape
     dx = tuple(
         (c - o) / w
         for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
-- 
2.43.0


From d50231bcef290ed7ace3f80c8cf19398ff4f7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 41/85] fix: localization by the position operator uses whole
 eigenvectors

---
 .../wavepacket/localization/_operator.py            | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..09c76c4 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -92,7 +92,7 @@ def _get_operator_between_states(
             )
 
     basis = FundamentalBasis(n_states)
-    return {"data": array, "basis": TupleBasis(basis, basis)}
+    return {"data": array.reshape(-1), "basis": TupleBasis(basis, basis)}
 
 
 def _localize_operator(
@@ -109,9 +109,12 @@ def _localize_operator(
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (
+                wavepacket["data"].reshape(wavepacket["basis"].shape)
+                * vector[:, np.newaxis]
+            ).reshape(-1),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +175,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +209,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From 89fee47f072c9197274d3963fc636c9f6a8af08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 42/85] fix: wannier states are translated by whole unit cells

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index d7bcca3..7b6c980 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -913,7 +913,12 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(
+            -n * o
+            for (n, o) in zip(
+                wavefunctions["basis"][1].fundamental_shape, offset, strict=True
+            )
+        )
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From e6a9a1438ddf763b02b0491b2a316986fec3e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 43/85] fix: jump matrix of an a matrix uses the basis of its
 states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..e81e237 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
-- 
2.43.0


From a4ce7cb6c66c97c26492dcd687b43230a8524043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 44/85] fix: a matrix of a jump matrix with more than one band

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index e81e237..a09a6c6 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -169,12 +169,13 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands_full = matrix["basis"][0].fundamental_n
+    n_bands = n_bands_full if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(n_bands_full, n_bands_full, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
-- 
2.43.0


From 28e5652fb442c364f4e88a79966c3e880f6c3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 45/85] fix: reduced bands of an a matrix use the basis of its
 states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index a09a6c6..1b73f2c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -273,7 +273,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From e265b68ec2e189d685292bcedb16d36f18520c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 46/85] fix: m matrix leaves the a matrix unmodified and is
 flat

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 1b73f2c..74e5ba0 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -330,10 +330,10 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
-    return {"basis": matrix["basis"], "data": array}
+    return {"basis": matrix["basis"], "data": array.reshape(-1)}
 
 
 def get_initial_pure_density_matrix_for_basis(
-- 
2.43.0


From 972e51607f3a53ccff41d4b5ce3665831b5e17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 47/85] fix: probabilities of a density matrix are in the basis
 of its states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 74e5ba0..7f00e6b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -374,7 +374,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From 87f22ca8e0e68942e71b203170d8966f93623c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 48/85] fix: collapse operators leave the a matrix unmodified

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..9e3d38b 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From ba4767866437906043e857a7f7ac0d7bda6cf287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 49/85] fix: collapse operators from a function have the size
 of the basis

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 9e3d38b..8aec93e 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros(array.shape, dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From 85ca7b311fe46da55cfc21d1afc835d2e1bbe520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 50/85] fix: locations of tunnelling bands are fractions of the
 unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..78036f2 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -64,7 +64,7 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / np.array(util.fundamental_shape[0:2])
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From 15e2295f9c6f3b4ca63f569c2f5dd200cc19eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 51/85] fix: states solved by decomposition are stored flat

---
 .../dynamics/schrodinger/solve.py                      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..613fbfa 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -121,7 +121,10 @@ def solve_schrodinger_equation_decomposition(
     vectors = np.tensordot(
         constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
     )
-    return {"basis": TupleBasis(times, eigenstates["basis"][1]), "data": vectors}
+    return {
+        "basis": TupleBasis(times, eigenstates["basis"][1]),
+        "data": vectors.reshape(-1),
+    }
 
 
 def solve_schrodinger_equation_diagonal(
@@ -149,7 +152,10 @@ def solve_schrodinger_equation_diagonal(
     data = converted_state["data"][np.newaxis, :] * np.exp(
         -1j * (hamiltonian["data"][np.newaxis, :]) * times.times[:, np.newaxis] / hbar
     )
-    return {"basis": TupleBasis(times, hamiltonian["basis"][0]), "data": data}
+    return {
+        "basis": TupleBasis(times, hamiltonian["basis"][0]),
+        "data": data.reshape(-1),
+    }
 
 
 def solve_schrodinger_equation(
-- 
2.43.0


From 72de0c4fd8b84bcc2073b5b76a5270e1b7ae4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 52/85] fix: eigenstates and states of a rate equation are
 stored flat

---
 .../incoherent_propagation/eigenstates.py     | 20 +++++++++++++------
 .../dynamics/incoherent_propagation/isf.py    |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
index bf8af0d..5b8ce94 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
@@ -54,7 +54,7 @@ def calculate_tunnelling_eigenstates(
     return {
         "basis": TupleBasis(FundamentalBasis(eigenvalues.size), matrix["basis"][0]),  # type: ignore lib
         "eigenvalue": eigenvalues - np.max(eigenvalues),  # type: ignore lib
-        "data": vectors.T,  # type: ignore lib
+        "data": vectors.T.reshape(-1),  # type: ignore lib
     }
 
 
@@ -82,7 +82,10 @@ def get_operator_state_vector_decomposition(
     # linalg.solve(a, b) = x where np.dot(a, x) == b, which is the sum
     # of the product over the last axis of x, so a[i] x[:, i] = b[:]
     # ie solved is the decomposition of b into the eigenvectors
-    return scipy.linalg.solve(eigenstates["data"].T, density_matrix["data"])  # type: ignore[no-any-return]
+    return scipy.linalg.solve(
+        eigenstates["data"].reshape(eigenstates["basis"].shape).T,
+        density_matrix["data"],
+    )  # type: ignore[no-any-return]
 
 
 def get_equilibrium_state(
@@ -108,9 +111,10 @@ def get_equilibrium_state(
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
 
     state_idx = np.argmax(eigenstates["eigenvalue"])
-    # eigenstates["data"][state_idx] is not necessarily normalized,
+    # the eigenstate at state_idx is not necessarily normalized,
     # and could contain negative or imaginary 'probabilities'
-    vector = coefficients[state_idx] * eigenstates["data"][state_idx]
+    vectors = eigenstates["data"].reshape(eigenstates["basis"].shape)
+    vector = coefficients[state_idx] * vectors[state_idx]
     return {
         "basis": TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         "data": vector,
@@ -163,13 +167,17 @@ def get_tunnelling_simulation_state(
     constants = coefficients[np.newaxis, :] * np.exp(
         eigenstates["eigenvalue"][np.newaxis, :] * times[:, np.newaxis]
     )
-    vectors = np.tensordot(constants, eigenstates["data"], axes=(1, 0))
+    vectors = np.tensordot(
+        constants,
+        eigenstates["data"].reshape(eigenstates["basis"].shape),
+        axes=(1, 0),
+    )
     return {
         "basis": TupleBasis(
             ExplicitTimeBasis(times),
             TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         ),
-        "data": vectors,
+        "data": vectors.reshape(-1),
     }
 
 
diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..6605e96 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -159,7 +159,7 @@ def calculate_equilibrium_initial_state_isf(
         )
         final_state = get_tunnelling_simulation_state(eigenstates, initial_state, times)
         final_probabilities = density_matrix_list_as_probabilities(final_state)
-        vectors[band] = final_probabilities["data"]
+        vectors[band] = final_probabilities["data"].reshape(times.size, -1)
     probability_per_band: ProbabilityVectorList[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
-- 
2.43.0


From 04660931ac43f5fe7120c6bb03d0aea7879a6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 53/85] fix: equilibrium scattering functions use the basis of
 the sites

---
 .../dynamics/incoherent_propagation/isf.py       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 6605e96..b4e0130 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,8 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    time_basis = averaged["basis"][0][0]
+    return {"basis": TupleBasis(time_basis, time_basis), "data": averaged["data"]}
 
 
 def calculate_equilibrium_initial_state_isf(
@@ -151,9 +152,10 @@ def calculate_equilibrium_initial_state_isf(
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
     vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
+        (matrix["basis"][0].shape[2], times.size, matrix["basis"][0].n),
+        dtype=np.complex128,
     )
-    for band in range(matrix["basis"].shape[2]):
+    for band in range(matrix["basis"][0].shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
@@ -165,7 +167,7 @@ def calculate_equilibrium_initial_state_isf(
     ] = {
         "basis": TupleBasis(
             TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
+                FundamentalBasis(matrix["basis"][0].shape[2]), ExplicitTimeBasis(times)
             ),
             matrix["basis"][0],
         ),
@@ -176,7 +178,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.complex128)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From 3e470463502a5f53f60d42973a4fb07731821d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 54/85] fix: rate decomposition holds the eigenvalues

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index b4e0130..87ca826 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -217,4 +217,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 42544eb62e856b186f19aa8014d0a46b5d318fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 55/85] fix: initial occupation of the equilibrium scattering
 function is real

---
 .../dynamics/incoherent_propagation/isf.py                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 87ca826..ff43096 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -153,7 +153,7 @@ def calculate_equilibrium_initial_state_isf(
 
     vectors = np.zeros(
         (matrix["basis"][0].shape[2], times.size, matrix["basis"][0].n),
-        dtype=np.complex128,
+        dtype=np.float64,
     )
     for band in range(matrix["basis"][0].shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
@@ -178,7 +178,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"][0].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From f9bcc843b44a121e2c645ad720ad7f7c91f1ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 56/85] fix: conversion of an overlap to the momentum basis
 does not raise

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 7e047e50e1ef2ee93786e226a17fc61a07afd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 57/85] fix: k fractions of an overlap use the size of every
 axis

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..a682b58 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.asarray(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From 921a7604b5b00c50e40ba6c14a3f94c4b9c7cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 58/85] fix: shift of an overlap wraps each axis individually

---
 surface_potential_analysis/overlap/calculation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..877949c 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -101,12 +101,14 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    if isinstance(shift, tuple):
+        # Each axis is periodic, so it must be shifted individually
+        shape = BasisUtil(states["basis"][1]).shape
+        stacked_shifted = np.roll(
+            stacked.reshape(-1, *shape), shift, axis=tuple(range(1, 1 + len(shape)))
+        ).reshape(stacked.shape)
+    else:
+        stacked_shifted = np.roll(stacked, shift, axis=(1))
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From ab19f62cce27c0f677b95ad4114d6ebbf8e6dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 59/85] fix: potential of a sho basis has one value for every
 point

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 4c6d36a..6457eae 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -113,7 +113,9 @@ def get_sho_potential_basis_config(
     delta_x2 /= np.linalg.norm(delta_x2)
 
     basis = TupleBasis(
-        FundamentalPositionBasis(np.array([np.linalg.norm(parent.delta_x)]), parent.n),
+        FundamentalPositionBasis(
+            np.array([np.linalg.norm(parent.delta_x)]), parent.fundamental_n
+        ),
     )
     x_distances = calculate_x_distances(parent, config["x_origin"])
 
-- 
2.43.0


From 79e094ff1ff6a23cba3739c7fb6229d67a94d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 60/85] fix: infinite sho basis is in the position basis of its
 parent

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 6457eae..df9134a 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -14,6 +14,9 @@ from surface_potential_analysis.basis.basis import (
     FundamentalBasis,
     FundamentalPositionBasis,
 )
+from surface_potential_analysis.basis.conversion import (
+    basis_as_fundamental_position_basis,
+)
 from surface_potential_analysis.basis.explicit_basis import (
     ExplicitBasisWithLength,
     ExplicitStackedBasisWithLength,
@@ -180,6 +183,8 @@ def infinate_sho_basis_3d_from_config(
     )
     util = BasisUtil(parent)
     vectors *= np.sqrt(np.linalg.norm(util.fundamental_dx))
+    # The vectors are the value of the wavefunction at each point of the parent
+    position_basis = basis_as_fundamental_position_basis(parent)
     return ExplicitBasisWithLength(
-        {"basis": TupleBasis(FundamentalBasis(n), parent), "data": vectors}
+        {"basis": TupleBasis(FundamentalBasis(n), position_basis), "data": vectors}
     )
-- 
2.43.0


From 517f4bfbec674d5493497d9d5b7117b72236c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 61/85] fix: collapse operators given to qutip are divided by
 the square root of hbar

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 8aec93e..6afb2d4 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From d63caa94982dda2e6e31b8bc2f75c57831795f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 62/85] fix: sse solver takes the fundamental time step

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 6afb2d4..676bdc4 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -397,7 +397,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From e31d9dc5d2407701ad70c1f7749eef303107b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 63/85] fix: banded solver without collapse operators

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 676bdc4..cc673c9 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,7 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    max_norm = np.max(operators_norm) if operators_norm else np.sqrt(hbar)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 7645a89a0b85c64bc5e6379d617c1d4914aeb5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 64/85] fix: selected localized states are normalized

---
 .../dynamics/stochastic_schrodinger/solve.py                 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index cc673c9..579346e 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -606,8 +606,9 @@ def _select_random_localized_state(
 
     idx = rng.choice(probabilities.size, p=probabilities)
     transformation = get_state_vector(eigenstates, idx)
-    transformation["data"] /= np.sqrt(2)
-    return get_weighted_state_vector(states, transformation)
+    state = get_weighted_state_vector(states, transformation)
+    state["data"] /= np.linalg.norm(state["data"])
+    return state
 
 
 @overload
-- 
2.43.0


From cf07beb986714e235b4b573f557ff12e1d6bb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 65/85] fix: localized trajectories hold the states at the
 times of the basis

---
 .../dynamics/stochastic_schrodinger/solve.py                 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 579346e..79c003a 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -655,10 +655,11 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
 
     for trajectory in range(n_trajectories):
         state = initial_state
-        for t in range(times.n):
+        data[trajectory, 0] = state["data"]
+        for t in range(1, times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
-                EvenlySpacedTimeBasis(2, times.step, 0, times.dt),
+                EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
                 hamiltonian,
                 collapse_operators,
                 n_trajectories=n_realizations,
-- 
2.43.0


From 1d39f8ee6362aab42e05798fbeb0f0337e0141bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 66/85] fix: localized states are selected from all
 realizations

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 79c003a..1dc57ae 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -666,7 +666,7 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
             )
             # Re-localize our state
             state = _select_random_localized_state(
-                get_state_along_axis(result, axes=(1,), idx=(1,))
+                get_state_along_axis(result, axes=(0,), idx=(1,))
             )
 
             data[trajectory, t] = state["data"]
-- 
2.43.0


From bc29d9a507e4c684bee514ed5ca33217b41b4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 67/85] fix: position and momentum averages along an axis of a
 multi dimensional basis

---
 surface_potential_analysis/state_vector/plot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..2f5fa17 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -990,9 +990,10 @@ def _get_average_x_periodic(
     periodic_x = _get_periodic_x(states, direction)
     angle = np.angle(periodic_x["data"]) % (2 * np.pi)
 
+    delta_x = np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": (angle * delta_x / (2 * np.pi)),
     }
 
 
@@ -1009,11 +1010,10 @@ def _get_restored_x(
         np.angle(periodic_x["data"].reshape(states["basis"][0].shape)), axis=1
     )
 
+    delta_x = np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     return {
         "basis": periodic_x["basis"],
-        "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
-        ).ravel(),
+        "data": (unravelled * delta_x / (2 * np.pi)).ravel(),
     }
 
 
@@ -1067,7 +1067,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1282,7 +1283,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
-- 
2.43.0


From b73126a2f1052a0a14c48ca38d090fb32531628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 68/85] fix: do not normalise the caller's states when the
 spread is calculated

---
 surface_potential_analysis/state_vector/plot.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 2f5fa17..8ee5773 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1123,6 +1123,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _SBV0],
+) -> StateVectorList[_B0Inv, _SBV0]:
+    data = states["data"].reshape(states["basis"].shape)
+    norm = np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": (data / norm).ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1152,11 +1160,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1182,6 +1186,7 @@ def get_coherent_coordinates(
     -------
     ValueList[TupleBasisLike[FundamentalBasis[Literal[3]], _B0Inv]]
     """
+    states = _get_normalized_states(states)
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
     k0 = _get_average_k(states, axis)
@@ -1368,6 +1373,7 @@ def plot_spread_against_k(
     """
     fig, ax = get_figure(ax)
 
+    states = _get_normalized_states(states)
     spread_x = _get_x_spread(states, axes[0])
     k = _get_average_k(states, axes[0])
 
-- 
2.43.0


From 9b22839b75a3537c594fb7c83c71a4e819a65ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 69/85] fix: sign of the phase in the averaged scattering
 function

---
 surface_potential_analysis/state_vector/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 8ee5773..78e54e4 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1534,7 +1534,7 @@ def _calculate_total_offsset_multiplications_real(
     lhs: np.ndarray[Any, np.dtype[Any]],
     rhs: np.ndarray[Any, np.dtype[Any]],
 ) -> np.ndarray[Any, np.dtype[Any]]:
-    """Calculate sum_i^N-i A_i B_i+N for all N.
+    """Calculate sum_i^N-i A_i+N B_i for all N.
 
     Parameters
     ----------
@@ -1552,7 +1552,7 @@ def _calculate_total_offsset_multiplications_complex(
     lhs: np.ndarray[Any, np.dtype[np.complex128]],
     rhs: np.ndarray[Any, np.dtype[np.complex128]],
 ) -> np.ndarray[Any, np.dtype[np.complex128]]:
-    """Calculate sum_i^N-i A_i B_i+N for all N.
+    """Calculate sum_i^N-i A_i+N B_i for all N.
 
     Parameters
     ----------
@@ -1602,7 +1602,7 @@ def get_average_isf(
 
     # convolution_j = \sum_i^N-j e^(ik.x_i+j) e^(-ik.x_i)
     convolution = np.apply_along_axis(
-        lambda m: _calculate_total_offsset_multiplications_complex(np.conj(m), m),
+        lambda m: _calculate_total_offsset_multiplications_complex(m, np.conj(m)),
         axis=1,
         arr=exp_positions,
     )
-- 
2.43.0


From 38f7d627a2fe3532e221869ed1dbc435535b2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 70/85] fix: effective mass of localized wavepackets

---
 surface_potential_analysis/wavepacket/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 103be79..4aa0f90 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -639,7 +639,7 @@ def get_wavepacket_localized_effective_mass(
     # we add an additional np.sqrt(wavepacket["basis"][0][1].n) * delta_x / (2 * np.pi)
     # to account for the difference in fourier transform definitions
     delta_x = np.linalg.norm(wavefunctions["basis"][1].delta_x_stacked[axis])
-    norm = np.sqrt(wavefunctions["basis"][0][1].n) * delta_x / (2 * np.pi)
+    norm = delta_x / (2 * np.pi)
     norm *= hbar**2 / 2
     effective_mass = norm * free_energy / actual_energy
     return {"basis": wavefunctions["basis"][0][0], "data": effective_mass}
-- 
2.43.0


From 644420f58b3b784e1878d4dc2b7ee9e98fa495ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 71/85] fix: line through the largest momentum component of any
 vector

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..60c3250 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From e727ba9c49ed654b37eca772f0bc31653fb4b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 72/85] fix: animations through a surface show every plane of
 the converted data

---
 surface_potential_analysis/potential/plot.py |  4 +---
 surface_potential_analysis/util/plot.py      | 10 +++++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..7c8e292 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -315,11 +315,9 @@ def animate_potential_3d_x(
     -------
     tuple[Figure, Axes, ArtistAnimation]
     """
-    converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
         potential["basis"],
-        points,
+        potential["data"],
         axes,
         idx,
         ax=ax,
diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 60c3250..11206c9 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -629,8 +629,11 @@ def animate_data_through_surface_x(
     idx = tuple(0 for _ in range(basis.ndim - 3)) if idx is None else idx
     clim = (0.0, clim[1]) if clim[0] is None and measure == "abs" else clim
 
-    coordinates = get_x_coordinates_in_axes(basis, axes, idx)
-    data_in_axis = get_data_in_axes(data.reshape(basis.shape), axes, idx)
+    basis_x = stacked_basis_as_fundamental_position_basis(basis)
+    converted_data = convert_vector(data.ravel(), basis, basis_x)
+
+    coordinates = get_x_coordinates_in_axes(basis_x, axes, idx)
+    data_in_axis = get_data_in_axes(converted_data.reshape(basis_x.shape), axes, idx)
     measured_data = get_measured_data(data_in_axis, measure)
 
     fig, ax, ani = build_animation(
@@ -639,9 +642,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        measured_data.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 6cb4f2cbe587b06cdf7cfa423ea9db0f6420eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 73/85] fix: plotting thermal occupations leaves the
 eigenvalues as they were

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From db977904ca5b98518b45339cf58784204560f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 74/85] fix: plot of an averaged intermediate scattering
 function

---
 surface_potential_analysis/dynamics/isf_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..e705907 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, TypeVar
 
+from surface_potential_analysis.basis.stacked_basis import TupleBasis
 from surface_potential_analysis.dynamics.isf import (
     ISF4VariableFit,
     ISFFey4VariableFit,
@@ -102,7 +103,10 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {
+            "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+            "data": averaged["data"],
+        },
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From 42ef608066a0b2cacce9cd3c8988b7085363777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 75/85] fix: diagonal of an operator is drawn on the axes given

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From 6239f5b6d9078391efb1be05cb580fcbd2279310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 76/85] fix: rate decompositions with fewer than fifty rates

---
 .../dynamics/incoherent_propagation/plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
index 5310aec..3105a5b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
@@ -46,6 +46,6 @@ def plot_rate_decomposition_against_temperature(
     sorted_rates = np.take_along_axis(rate_constants, relevant_rates, axis=-1)[:, ::-1]
 
     coefficients = np.abs([rate.coefficients for rate in rates])
-    for i in range(50):
+    for i in range(min(50, sorted_rates.shape[1])):
         ax.plot(temperatures, sorted_rates[:, i])  # type: ignore lib
     return fig, ax
-- 
2.43.0


From f9b83d46b3d49cbec7cff3d27df1687710b47a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 77/85] fix: single sample of truncated noise operators

---
 surface_potential_analysis/kernel/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..4c5e981 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,17 +306,18 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
     measured_potential -= measured_potential[0]
 
+    _fig, ax = get_figure(ax)
     ax.set_ylabel("Energy /J")  # type: ignore library type
 
     return plot_data_1d_x(
-- 
2.43.0


From 6a5ac2d4c4b0c507adc3400d83d71c07518d8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 78/85] fix: points of a basis in any number of dimensions

---
 surface_potential_analysis/stacked_basis/plot.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..33a5d86 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,13 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = (
+        np.array(util.fundamental_stacked_k_points)
+        .reshape(basis.ndim, *util.fundamental_shape)[
+            slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))
+        ]
+        .reshape(basis.ndim, -1)
+    )
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
@@ -256,7 +260,7 @@ def plot_fundamental_x_at_index_projected_2d(
     util = BasisUtil(basis)
     idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From d25b10fc83aa8a42dd8be5e50e78bf8471fc1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 79/85] fix: minimum path of a potential in any basis

---
 surface_potential_analysis/potential/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 7c8e292..53b9ea5 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -438,8 +438,11 @@ def get_minimum_path(
     np.ndarray[tuple[Literal[3], int], np.dtype[np.int_]]
         The complete path after finding the minimum at each coordinate
     """
-    axis = axis % potential["basis"].ndim
-    min_idx = np.argmin(potential["data"].reshape(potential["basis"].shape), axis=axis)
+    converted = convert_potential_to_position_basis(potential)
+    axis = axis % converted["basis"].ndim
+    min_idx = np.argmin(
+        np.real(converted["data"]).reshape(converted["basis"].shape), axis=axis
+    )
     wrapped = np.ravel_multi_index(path, min_idx.shape, mode="wrap")
     return np.insert(path, axis, min_idx.flat[wrapped], axis=0)
 
-- 
2.43.0


From 20819742d8c731d0730b54c11f8275c984dd49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 80/85] fix: overlap along a diagonal and along a line

---
 surface_potential_analysis/overlap/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/overlap/plot.py b/surface_potential_analysis/overlap/plot.py
index eabbf60..f42f98d 100644
--- a/surface_potential_analysis/overlap/plot.py
+++ b/surface_potential_analysis/overlap/plot.py
@@ -172,7 +172,7 @@ def plot_overlap_along_path_k(
     fig, ax = get_figure(ax)
     converted = convert_overlap_to_momentum_basis(overlap)
 
-    points = converted["data"].reshape(converted["basis"].shape)[*path]
+    points = converted["data"].reshape(converted["basis"][0].shape)[*path]
     data = get_measured_data(points, measure)
     distances = calculate_cumulative_k_distances_along_path(
         converted["basis"][0], path, wrap_distances=wrap_distances
@@ -209,7 +209,7 @@ def plot_overlap_along_k_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, i, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, i, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
@@ -244,7 +244,7 @@ def plot_overlap_along_k0(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, k1_ind, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, k1_ind, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
-- 
2.43.0


From 8e3e17e98fcab211fa2376dfd358c8f9758a1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 81/85] fix: sampled wave vectors of three dimensional
 wavepackets

---
 surface_potential_analysis/wavepacket/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 4aa0f90..e36f4ea 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -127,7 +127,7 @@ def plot_wavepacket_sample_frequencies(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax = get_figure(ax)
-    util = BasisUtil(wavepacket["basis"])
+    util = BasisUtil(wavepacket["basis"][0])
     idx = tuple(0 for _ in range(util.ndim - len(axes))) if idx is None else idx
 
     frequencies = get_wavepacket_fundamental_sample_frequencies(
-- 
2.43.0


From 8b11f796f928de3f83d7aee2cf915cd0179adb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 82/85] fix: averages over repeats are measured once

---
 surface_potential_analysis/state_vector/plot_value_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index a116052..4684428 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -304,7 +304,12 @@ def plot_average_value_list_against_time(
     )
     average_data = np.average(measured_data, axis=0)
     fig, ax, line = plot_data_1d(
-        average_data, values["basis"][1].times, scale=scale, measure=measure, ax=ax
+        average_data,
+        values["basis"][1].times,
+        scale=scale,
+        # average_data is measured already
+        measure="abs" if measure == "abs" else "real",
+        ax=ax,
     )
     std_data = np.std(measured_data, axis=0) / np.sqrt(values["basis"].shape[0])
     fill = ax.fill_between(  # type: ignore unkown
-- 
2.43.0


From f3252f1af6cb09f55be15991eecebc458c0fb63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 83/85] fix: size of an empty stacked basis is an integer

---
 surface_potential_analysis/basis/stacked_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/basis/stacked_basis.py b/surface_potential_analysis/basis/stacked_basis.py
index f69a114..f729e79 100644
--- a/surface_potential_analysis/basis/stacked_basis.py
+++ b/surface_potential_analysis/basis/stacked_basis.py
@@ -52,11 +52,11 @@ class StackedBasisLike(BasisLike[_FN0_co, _N0_co], Protocol[_N0_co, _FN0_co, _ND
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
@@ -81,11 +81,11 @@ class StackedBasisWithVolumeLike(
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 42bc83cd357fe6337bc6d5cbbbcee50c579e950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 84/85] fix: title of the averaged band occupations counts the
 repeats

---
 surface_potential_analysis/dynamics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/plot.py b/surface_potential_analysis/dynamics/plot.py
index f23a24b..ca9ef8b 100644
--- a/surface_potential_analysis/dynamics/plot.py
+++ b/surface_potential_analysis/dynamics/plot.py
@@ -104,7 +104,7 @@ def plot_average_probability_per_band(
 
     ax.set_title(  # type: ignore lib
         "Plot of occupation of each band against time,\n"
-        f"averaged over {len(probability)} repeats"
+        f"averaged over {probability["basis"][0][0].n} repeats"
     )
     return fig, ax, lines
 
-- 
2.43.0


From 7988051faf43e6e5584e7b80bc6191d453677640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 85/85] fix: average drift uses the momentum along the axis
 drawn

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 78e54e4..4b9a707 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1723,7 +1723,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axis=axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0

