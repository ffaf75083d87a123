From dde6095a46e841b371e9698b37867949e04abbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 01/39] fix: scalar multiplication of a sketch used an
 undefined name

---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 314d79b7363b9b7154bc78000adccfab1a4883e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 02/39] fix: hmt_sketch(return_drm=True) raised NameError

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 90e8b008ddded1c6b7c9c0d364eb8cdbbea5b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 03/39] fix: TensorTrainDRM ignored its rank slice for dense
 and Tucker tensors

---
 tt_sketch/drm/tensor_train_drm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..406d406 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]].T
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,9 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction[
+                :, self.rank_min[mu] : self.rank_max[mu]
+            ].T
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +130,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], self.true_rank[0]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +144,6 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[
+                :, self.rank_min[mu] : self.rank_max[mu]
+            ]
-- 
2.43.0


From f770563a47fbf41f177ec1125ac56407a3888c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 04/39] fix: slices and right DRMs of SparseSignDRM lost or
 misordered num_non_zero_per_row

---
 tt_sketch/drm/sparse_sign_drm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..4bc1011 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -2,7 +2,7 @@ from typing import Optional, Tuple, Union
 
 import numpy as np
 from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
-from tt_sketch.drm_base import CanSlice, handle_transpose
+from tt_sketch.drm_base import DRM, CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
 from tt_sketch.tensor import SparseTensor
 from tt_sketch.utils import ArrayGenerator
@@ -29,8 +29,18 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
             num_non_zero_per_row = self.true_rank
+        elif transpose:
+            # Given from left to right, just like the rank
+            num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> DRM:
+        sliced = super().slice(start_rank, end_rank)
+        sliced.nnz = self.nnz  # type: ignore
+        return sliced
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         d = len(tensor.shape)
-- 
2.43.0


From 2556e26219ea98a4968ace61b7d36e0e854e97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 05/39] fix: DenseGaussianDRM did not derive its matrices from
 its own seed

---
 tt_sketch/drm/dense_gaussian_drm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..f8d04a7 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,7 +47,7 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
+            np.random.seed(self.seed)
             seed_offset = hash(np.random.uniform(0, dim_prod))
             np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
 
-- 
2.43.0


From 4fa6421b92272f85dad5012b1c50ca1860acf295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 06/39] fix: 32-bit overflow in index flattening made distinct
 indices collide

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From eced0856da778c93a861d4b32e511b30311203f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 07/39] fix: hashed Gaussian entries could be infinite

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 3217552..ca2c0ca 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -46,6 +46,8 @@ cdef uint_to_normal(double[:] nums):
     cdef double x
     for i in range(N): #prange here messes stuff up when parallelizing
         x = frexp(nums[i], &e) * 2 - 1
+        if x == 0: # ndtri(0) is -inf
+            x = 2.0**-53
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From 3d749d97d1e661522be7fd5d711fcaa97a6a23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 08/39] fix: rounding in the sparse sign shuffle could index
 out of bounds

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index ca2c0ca..ef0e326 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -150,6 +150,8 @@ cdef short[:] _inds_to_sparse_sign(
         for j in range(nnz):
             # random int in [j,rank)
             rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            if rand_num >= rank: # the sum can be rounded up to rank
+                rand_num = rank - 1
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From 9e9c5039bba25c23e9d4e1e206d4f444fc56852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 09/39] fix: seeded sketches were not reproducible across
 processes

---
 tt_sketch/sketch.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..33ae7ae 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -41,6 +41,13 @@ DEFAULT_DRM = {
 BlockedSketch = Dict[Tuple[int, int], SketchContainer]
 
 
+def _right_seed(seed: int, n_dims: int) -> int:
+    """Seed for the right DRM, distinct from that of the left DRM.
+
+    Does not use ``hash(str)``; that is different for each Python process."""
+    return np.mod(seed + 0x9E3779B9 * n_dims, 2**32)
+
+
 def hmt_sketch(
     tensor: Tensor,
     rank: TTRank,
@@ -129,7 +136,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = _right_seed(seed, d)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +214,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = _right_seed(seed, d)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 3abfced9e21256dbf86a88aa54c687b604af3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 10/39] fix: seeded random tensors depended on the number of
 CPUs

---
 tt_sketch/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..f20dd8f 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -184,7 +183,8 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            # Fixed, because the values depend on the number of threads
+            threads = 8
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From 9bf10ec34a7cb2f68f02f8e77f78cddfc0144aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 11/39] fix: GMRES compared the squared residual norm to the
 tolerance

---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..6688d61 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -401,9 +401,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y, (residual_norm_sq,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        residual_norm = np.sqrt(residual_norm_sq)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From c8b8af72d8672f625ada4dca56fb1d27a9091926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 12/39] fix: multiplying an MPO by a scalar modified the MPO

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 6688d61..223ad66 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 806076e4f1578c9cf5a9cc06bde107eba658723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 13/39] fix: pairwise rounding did not round a sum with a
 single summand

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 223ad66..972c4de 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if len(tt_sum.tensors) == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From 6d49777e97f5713d5c133fed1bbaa8817dc7a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 14/39] fix: TensorTrain.svdvals failed for ranks larger than
 the mode sizes

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..c351750 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -499,7 +499,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From 1a6b8c13a2ad87ee991abcc07aa9258621066442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 15/39] fix: CPTensor.size was a method instead of a property

---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index c351750..14ad90a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 32d835c31c69a97efbbde5c50f4983a58a3e2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 16/39] fix: power_decay_tensor used an undefined name

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index f20dd8f..c26f1b8 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -45,7 +45,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From fb9707ebeb231a6e56bb62c1b0c4698752c6e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 17/39] fix: sqrt_tensor swapped the first two modes of the
 shape

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index c26f1b8..23db677 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -32,7 +32,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From 35d788b289313f21d64420f03afe37bffe597476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 18/39] fix: transposing a DRM mixed up its ranks and kept the
 shape

---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..de4e6c7 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -65,11 +65,10 @@ class DRM(ABC):
     @property
     def T(self):
         transposed = deepcopy(self)
+        # Ranks are stored in the order in which the DRM sweeps through the modes,
+        # which is the same for the transpose.
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..7fe192f 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -217,9 +217,8 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
-    if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+    # In the case of HMT there is no left DRM, and the right rank determines both
+    left_rank = right_drm.rank[::-1] if left_drm is None else left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +227,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_drm.rank[::-1][mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +239,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,7 +250,7 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
-- 
2.43.0


From c35a50c956a467c0f86670a48c4713b4080df25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 19/39] fix: trim_ranks stopped early for tensors with more
 than 100 modes

---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 23db677..8b32240 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -136,7 +136,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -145,8 +145,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From 2621e204f105d844186b213e3ccc4ad5e17ee70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 20/39] fix: increase_rank raised AttributeError for
 unsupported DRMs

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 33ae7ae..83ac709 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -323,7 +323,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From 28afc6bc5e6024d827135e633da3c0072037b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 21/39] fix: fast error of two zero tensors was nan

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 14ad90a..5dd2d7b 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -69,7 +69,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From e02c9fea3bf5d1ce4c691e085a745d6de0b1aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 22/39] fix: right sketches of dense and Tucker tensors used a
 different DRM than other tensor types

---
 tt_sketch/sketching_methods/dense_sketch.py  |  8 +++++---
 tt_sketch/sketching_methods/tucker_sketch.py | 10 +++++++---
 tt_sketch/utils.py                           |  9 +++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..8b6c51b 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import DenseTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_dense(
@@ -12,7 +12,9 @@ def sketch_omega_dense(
     mu: int,
     **kwargs
 ) -> npt.NDArray:
-    X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    X_mat = matricize(
+        reverse_right_modes(tensor.data, mu), range(mu + 1), mat_shape=True
+    )
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -25,7 +27,7 @@ def sketch_psi_dense(
     **kwargs
 ) -> npt.NDArray:
     ndim = tensor.ndim
-    tensor_data = tensor.data
+    tensor_data = reverse_right_modes(tensor.data, mu)
     if left_sketch is None:
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..1b015dc 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import TuckerTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_tucker(
@@ -15,7 +15,9 @@ def sketch_omega_tucker(
     **kwargs
 ):
     mode = tuple(range(mu + 1))
-    core_mat = matricize(tensor.core, mode, mat_shape=True)
+    core_mat = matricize(
+        reverse_right_modes(tensor.core, mu), mode, mat_shape=True
+    )
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,7 +31,9 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
-    core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
+    core_ord3 = reverse_right_modes(tensor.core, mu).reshape(
+        left_dim, tensor.rank[mu], right_dim
+    )
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
     elif right_sketch is None:
diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 8b32240..8193caa 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -82,6 +82,15 @@ def matricize(
     return A
 
 
+def reverse_right_modes(A: npt.NDArray, mu: int) -> npt.NDArray:
+    """Reverse the order of the modes of ``A`` to the right of ``mu``.
+
+    A right DRM is the left DRM of the transposed tensor, and hence enumerates
+    the modes on the right in reversed order."""
+    d = len(A.shape)
+    return np.transpose(A, (*range(mu + 1), *range(d - 1, mu, -1)))
+
+
 def dematricize(A, mode, shape):
     """Undo matricization of ``A`` with respect to ``mode``. Needs ``shape`` of
     original tensor."""
-- 
2.43.0


From 5dcc32a55adbbbf0f967401d4f9cac90834016f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 23/39] fix: GMRES divided by zero if the initial value solves
 the system

---
 tt_sketch/tt_gmres.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 972c4de..6d01091 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -362,6 +362,19 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
+    if beta == 0:  # The initial value already solves the system
+        result_rounded = round_tt_sum(
+            TensorSum([x0]),
+            eps=None,
+            max_rank=final_round_rank,
+            method=rounding_method_final,
+        )
+        return result_rounded, defaultdict(
+            list,
+            rank=[residual_rounded.rank],
+            residual_norm=[residual_norm],
+            total_time=perf_counter() - initial_time,
+        )
     nu_list: List[TensorTrain] = [residual_rounded / beta]
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
-- 
2.43.0


From 3e2ff48a32113e9526fdb327db724897530a0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 24/39] fix: sparse sign DRM with more nonzeros than columns
 wrote out of bounds

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index ef0e326..4d36d00 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -175,6 +175,10 @@ def inds_to_sparse_sign(
     rank_min = int(rank_min)
     rank_max = int(rank_max)
     non_zero_per_row = int(non_zero_per_row)
+    if non_zero_per_row > rank: # would write past the end of the rows
+        raise ValueError(
+            f"Cannot have {non_zero_per_row} nonzeros in a row of size {rank}"
+        )
     seed = np.mod(seed,2**63,dtype=np.uint64)
     nums_view = _inds_to_sparse_sign(
         indices, shape, rank, non_zero_per_row, seed
-- 
2.43.0


From 104dd8149c1082c01e6e72e0eab837e2824f3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 25/39] fix: lazy DRMs of consecutive seeds and modes were
 shifted copies of each other

---
 tt_sketch/drm/sparse_gaussian_drm.py | 8 +++++---
 tt_sketch/drm/sparse_sign_drm.py     | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/tt_sketch/drm/sparse_gaussian_drm.py b/tt_sketch/drm/sparse_gaussian_drm.py
index 16a4fb4..4a71226 100644
--- a/tt_sketch/drm/sparse_gaussian_drm.py
+++ b/tt_sketch/drm/sparse_gaussian_drm.py
@@ -31,9 +31,11 @@ class SparseGaussianDRM(CansketchSparse, CanIncreaseRank):
         d = len(tensor.shape)
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
-            sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
-            )  # ensure safe casting to uint
+            # The seed is added to the index before hashing. Spread the seeds, so
+            # that consecutive modes and seeds don't use the same numbers.
+            sketch_seed = np.random.SeedSequence((self.seed, mu)).generate_state(
+                1, np.uint64
+            )[0]
             sketch_mat = inds_to_normal(
                 tensor.indices[: mu + 1],
                 shape,
diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 4bc1011..b145115 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -46,9 +46,11 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         d = len(tensor.shape)
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
-            sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
-            )  # ensure safe casting to uint
+            # The seed is added to the index before hashing. Spread the seeds, so
+            # that consecutive modes and seeds don't use the same numbers.
+            sketch_seed = np.random.SeedSequence((self.seed, mu)).generate_state(
+                1, np.uint64
+            )[0]
             sketch_mat = inds_to_sparse_sign(
                 tensor.indices[: mu + 1],
                 shape,
-- 
2.43.0


From 04dc4b65ecf658275656cb1fb9c61f9496c07dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 26/39] fix: adding tensor trains with a single mode gave an
 invalid tensor train

---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 5dd2d7b..11f32a7 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -524,6 +524,8 @@ class TensorTrain(Tensor):
         Note, this does not overload the addition operator ``+``; the addition
         operator instead returns a lazy ``TensorSum`` object.
         """
+        if len(self.cores) == 1:  # There are no ranks to take a direct sum over
+            return self.__class__([self.cores[0] + other.cores[0]])
         new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]
         for C1, C2 in zip(self.cores[1:-1], other.cores[1:-1]):
             r1, d, r2 = C1.shape
-- 
2.43.0


From e4e3fed9041c1f8a0ad761411421419d2edddd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 27/39] fix: core and first factor of a random Tucker tensor
 shared their random numbers

The first number generated from the seed was used as seed of both.
---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 11f32a7..8ff780d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -807,10 +807,9 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
+        core_seed, *seeds = seq.generate_state(d + 1)
         core = random_normal(shape=rank_tuple, seed=core_seed)
         factors = []
-        seeds = seq.generate_state(d)
         for r, n, seed in zip(rank_tuple, shape, seeds):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
-- 
2.43.0


From add1875d27bfa59d3d10302c84c6db80ca6a4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 28/39] fix: a Tucker rank with the wrong number of elements
 was silently truncated

---
 tt_sketch/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 8ff780d..32eca93 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -804,6 +804,10 @@ class TuckerTensor(Tensor):
             rank_tuple = tuple(rank)  # type: ignore
         except TypeError:
             rank_tuple = (rank,) * d  # type: ignore
+        if len(rank_tuple) != d:
+            raise ValueError(
+                f"Tucker rank {rank_tuple} doesn't have right number of elements"
+            )
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-- 
2.43.0


From eb99ecc487a67d2db707c3466107b9566f01fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:21 +0000
Subject: [PATCH 29/39] fix: tensor trains of different shapes could be added
 or multiplied

Surplus cores were dropped and modes of size one were broadcast, giving a
wrong result instead of an error.
---
 tt_sketch/tensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 32eca93..1085ca2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -524,6 +524,11 @@ class TensorTrain(Tensor):
         Note, this does not overload the addition operator ``+``; the addition
         operator instead returns a lazy ``TensorSum`` object.
         """
+        if self.shape != other.shape:
+            raise ValueError(
+                f"Can't add tensor trains of shapes {self.shape} and "
+                f"{other.shape}"
+            )
         if len(self.cores) == 1:  # There are no ranks to take a direct sum over
             return self.__class__([self.cores[0] + other.cores[0]])
         new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]
@@ -548,6 +553,10 @@ class TensorTrain(Tensor):
         Result is computed in a left-to-right sweep.
         """
         if isinstance(other, TensorTrain):
+            if self.shape != other.shape:
+                raise ValueError(
+                    f"Shapes {self.shape} and {other.shape} don't match"
+                )
             result = np.einsum("ijk,ljm->km", self.cores[0], other.cores[0])
             for core1, core2 in zip(self.cores[1:], other.cores[1:]):
                 # optimize reduces complexity from r^4*n to r^3*n
-- 
2.43.0


From cfe944ea765bdb4885f10bebc17978b1c7578113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 30/39] fix: tensors of different shapes could be put in one
 sum

---
 tt_sketch/tensor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 1085ca2..f54321f 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -631,6 +631,15 @@ class TensorSum(Generic[TType], Tensor):
             shape = tensors[0].shape
         self.shape = shape
         self.tensors = tensors
+        for tensor in tensors:
+            self._check_shape(tensor)
+
+    def _check_shape(self, tensor: Tensor) -> None:
+        if tuple(tensor.shape) != tuple(self.shape):
+            raise ValueError(
+                f"Can't add tensor of shape {tensor.shape} to sum of shape "
+                f"{self.shape}"
+            )
 
     @property
     def size(self) -> int:
@@ -654,6 +663,7 @@ class TensorSum(Generic[TType], Tensor):
             return self.__class__(self.tensors + [other])
 
     def __iadd__(self, other: TType) -> TensorSum:
+        self._check_shape(other)
         if isinstance(other, TensorSum):
             self.tensors.extend(other.tensors)
         else:
-- 
2.43.0


From f6e0e90f0874d3ce9fb9f373738f3f1c304868bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 31/39] fix: an MPO could be applied to tensor trains of
 another shape

Surplus cores were dropped and modes of size one were broadcast.
---
 tt_sketch/tt_gmres.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 6d01091..153df03 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -89,6 +89,10 @@ class MPO(Tensor, TTLinearMap):
         return res
 
     def __call__(self, other: TensorTrain) -> TensorTrain:
+        if other.shape != self.in_shape:
+            raise ValueError(
+                f"Shape {other.shape} doesn't match input shape {self.in_shape}"
+            )
         new_cores = []
         for M, C in zip(self.cores, other.cores):
             MC = np.einsum("ijkl,ajb->iaklb", M, C)
-- 
2.43.0


From 6c25e536f6d5e5b7b148990c59e6b77ca922adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:28 +0000
Subject: [PATCH 32/39] fix: increase_rank accepted ranks that can't be
 reconstructed from

stream_sketch refuses such ranks, and so did adding a tensor afterwards.
---
 tt_sketch/sketch.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 83ac709..e519599 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -328,6 +328,15 @@ class SketchedTensorTrain(Tensor):
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
                 )
+        rank_signs = np.sign(
+            np.array(new_left_rank) - np.array(new_right_rank)
+        )
+        if not (np.all(rank_signs > 0) or np.all(rank_signs < 0)):
+            raise ValueError(
+                f"Left ranks or right ranks must be consistently larger or "
+                f"smaller than the other. Left rank: {new_left_rank}, "
+                f"right rank: {new_right_rank}"
+            )
 
         n_dims = len(tensor.shape)
         left_rank_slices = [
-- 
2.43.0


From 17337767f364e657a2cdffde94926794e37f2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 33/39] fix: inner products and errors of tensors of different
 shapes were computed

---
 tt_sketch/tensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index f54321f..2aff2fb 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -64,6 +64,7 @@ class Tensor(ABC):
         """
         if isinstance(other, np.ndarray):
             other = DenseTensor(other)
+        self._check_same_shape(other)
         other_norm = other.norm()
         if fast:
             self_norm = self.norm()
@@ -85,6 +86,12 @@ class Tensor(ABC):
         """Number of modes of the tensor."""
         return len(self.shape)
 
+    def _check_same_shape(self, other: Tensor) -> None:
+        if tuple(self.shape) != tuple(other.shape):
+            raise ValueError(
+                f"Shapes {self.shape} and {other.shape} don't match"
+            )
+
     def dense(self) -> DenseTensor:
         """Converts to ``DenseTensor`` object"""
         dense_tensor = self.to_numpy()
@@ -124,6 +131,7 @@ class Tensor(ABC):
             return other.dot(self)
         if not reverse:  # try first to see if other can dot self
             return other.dot(self, reverse=True)
+        self._check_same_shape(other)
         self_np = self.to_numpy().reshape(-1)
         other_np = other.to_numpy().reshape(-1)
         return np.dot(self_np, other_np)
@@ -248,6 +256,7 @@ class SparseTensor(Tensor):
         )
 
     def dot(self, other: Tensor, reverse=False) -> float:
+        self._check_same_shape(other)
         try:
             other_entries = other.gather(self.indices)
             return np.dot(other_entries, self.entries)
-- 
2.43.0


From 55405802e0119104212eb04e12a50a03f06d3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 34/39] fix: ranks given as integers or lists never matched the
 rank of a given DRM

---
 tt_sketch/sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index e519599..4931bbb 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -70,6 +70,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -123,6 +124,7 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -141,6 +143,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -199,6 +202,7 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -219,6 +223,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From 4227e2814072dc898373d29787eb59d0226be780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 35/39] fix: sums without summands couldn't be added, scaled or
 transposed

---
 tt_sketch/tensor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 2aff2fb..14690b6 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -101,7 +101,7 @@ class Tensor(ABC):
         """Addition of two tensors produces ``TensorSum`` object"""
         if isinstance(other, TensorSum):
             if not isinstance(self, TensorSum):
-                return TensorSum([self] + other.tensors)
+                return TensorSum([self] + other.tensors, other.shape)
             else:
                 return TensorSum(self.tensors + other.tensors)
         elif isinstance(self, TensorSum):
@@ -657,7 +657,7 @@ class TensorSum(Generic[TType], Tensor):
     @property
     def T(self) -> TensorSum:
         new_tensors: List[TType] = [X.T for X in self.tensors]
-        return self.__class__(new_tensors)
+        return self.__class__(new_tensors, self.shape[::-1])
 
     def to_numpy(self) -> npt.NDArray[np.float64]:
         s = np.zeros(self.shape)
@@ -666,8 +666,9 @@ class TensorSum(Generic[TType], Tensor):
         return s
 
     def __add__(self, other: TType) -> TensorSum:
+        self._check_shape(other)
         if isinstance(other, TensorSum):
-            return self.__class__(self.tensors + other.tensors)
+            return self.__class__(self.tensors + other.tensors, self.shape)
         else:
             return self.__class__(self.tensors + [other])
 
@@ -692,10 +693,13 @@ class TensorSum(Generic[TType], Tensor):
     def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
         try:
             return self.__class__(
-                [X * c for X, c in zip(self.tensors, other, strict=True)]
+                [X * c for X, c in zip(self.tensors, other, strict=True)],
+                self.shape,
             )
         except TypeError:
-            return self.__class__([X * other for X in self.tensors])
+            return self.__class__(
+                [X * other for X in self.tensors], self.shape
+            )
 
     def dot(self, other: Tensor, reverse=False) -> float:
         return sum(X.dot(other, reverse) for X in self.tensors)
-- 
2.43.0


From ef14fc16bb9003df8693fb3f4f8efbe3a5e40dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 36/39] fix: gathering entries outside of a tensor train
 returned zeros

---
 tt_sketch/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 14690b6..7eefd43 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -434,6 +434,12 @@ class TensorTrain(Tensor):
             idx_array = np.stack(idx)
         else:
             idx_array = np.array(idx)
+        # Check the indices, and count negative ones from the end
+        idx_array = idx_array.astype(np.int64, casting="safe")
+        for i, n in enumerate(self.shape):
+            if np.any(idx_array[i] < -n) or np.any(idx_array[i] >= n):
+                raise IndexError(f"Index out of bounds for mode {i} of size {n}")
+            idx_array[i] %= n
         N = idx_array.shape[1]
         result = np.take(
             self[0].reshape(self[0].shape[1:]), idx_array[0], axis=0
-- 
2.43.0


From 1028ccb956a1a36be0312a2e35a0e54536256e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 37/39] fix: gather ignored missing or superfluous modes of the
 indices

---
 tt_sketch/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 7eefd43..58308d4 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -434,6 +434,10 @@ class TensorTrain(Tensor):
             idx_array = np.stack(idx)
         else:
             idx_array = np.array(idx)
+        if len(idx_array) != self.ndim:
+            raise ValueError(
+                f"Expected indices of {self.ndim} modes, got {len(idx_array)}"
+            )
         # Check the indices, and count negative ones from the end
         idx_array = idx_array.astype(np.int64, casting="safe")
         for i, n in enumerate(self.shape):
@@ -767,6 +771,10 @@ class CPTensor(Tensor):
     def gather(self, idx: Tuple[npt.NDArray[np.int64], ...]) -> npt.NDArray:
         """Obtain the values of the tensor at the given indices."""
 
+        if len(idx) != self.ndim:
+            raise ValueError(
+                f"Expected indices of {self.ndim} modes, got {len(idx)}"
+            )
         res = 1
         for C, id in zip(self.cores, idx):
             res *= C[id]
-- 
2.43.0


From a80cb5629f2b251558abb09c7f571de910fe4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 38/39] fix: slices of a TensorTrainDRM keep the cores it was
 given

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 406d406..23d2db6 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -1,7 +1,7 @@
 from typing import Optional, Tuple, Union
 
 import numpy as np
-from tt_sketch.drm_base import CanSlice, handle_transpose
+from tt_sketch.drm_base import DRM, CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import (
     CansketchCP,
     CansketchDense,
@@ -57,6 +57,14 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> DRM:
+        sliced = super().slice(start_rank, end_rank)
+        # The cores don't follow from the seed if they were given
+        sliced.cores = self.cores  # type: ignore
+        return sliced
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
-- 
2.43.0


From 225f6334f87a212ddcf4bd7686ae387f0b67ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:13 +0000
Subject: [PATCH 39/39] fix: assigning a core updates the shape and rank of
 TensorTrain and CPTensor

---
 tt_sketch/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 58308d4..d2f85a3 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -419,6 +419,8 @@ class TensorTrain(Tensor):
 
     def __setitem__(self, index: int, data: npt.NDArray) -> None:
         self.cores[index] = data
+        self.shape = tuple(C.shape[1] for C in self.cores)
+        self.rank = tuple(C.shape[0] for C in self.cores[1:])
 
     def gather(
         self,
@@ -767,6 +769,8 @@ class CPTensor(Tensor):
 
     def __setitem__(self, index: int, data: npt.NDArray) -> None:
         self.cores[index] = data
+        self.rank = self.cores[0].shape[1]
+        self.shape = tuple(C.shape[0] for C in self.cores)
 
     def gather(self, idx: Tuple[npt.NDArray[np.int64], ...]) -> npt.NDArray:
         """Obtain the values of the tensor at the given indices."""
-- 
2.43.0

