From c2dc07ec65baa17342058e09a7977d26024268ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 01/18] fix: keep the vector SHT degree normalisation in double
 precision

1/(l(l+1)) was computed from an integer arange and so in float32, which capped
the accuracy of the float64 vector transforms at about 1e-7.
---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From 3221437529665f2364c799f38a160e10095b5796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:17 +0000
Subject: [PATCH 02/18] fix: keep fp64 and complex dtypes in distributed
 reductions

The use_fp32 path of _reduce and _reduce_scatter converted every input to
float32: float64 sums lost half of their digits and complex inputs lost
their imaginary part. Only half-precision inputs need the wider accumulator.
---
 torch_harmonics/distributed/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..4907a8e 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,9 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    # reduced-precision inputs are accumulated in fp32; wider (fp64) and complex
+    # inputs must keep their dtype, .float() would truncate them
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +466,8 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    # accumulate reduced-precision inputs in fp32, but never narrow fp64 or complex inputs
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From 19ba3abab499eb9bfe6669e8c2459ceec6377220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:06 +0000
Subject: [PATCH 03/18] fix: spherical resampling falls back to linear only
 where sin(omega) is small

The test somega > 1e-4 also replaced the great-circle formula by linear
interpolation for every decreasing pair of samples, so resample(-x) was not
-resample(x).
---
 torch_harmonics/distributed/distributed_resample.py | 8 ++++----
 torch_harmonics/resample.py                         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..32f9836 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +204,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..789fe1c 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +212,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(somega.abs() > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(somega.abs() > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From e293207db1d68e9bda7c5fdf1571cab9c7b72cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 04/18] fix: start a new psi row when the kernel index changes

preprocess_psi only compared the output latitude of neighbouring entries, so
the last row of one kernel and the first row of the next were merged whenever
they share the output latitude (e.g. a single output latitude).
---
 torch_harmonics/disco/optimized/disco_helpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..6922b0b 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -85,7 +85,8 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        // a new CSR row starts whenever the output row or the kernel changes
+        if (row_h[i - 1] == row_h[i] && ker_h[i - 1] == ker_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 012ca7cac21471a13a1ace79abe147ef02e6318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:52 +0000
Subject: [PATCH 05/18] fix: an empty psi has no rows

With a cutoff so small that no grid point lies in the support of any basis
function, preprocess_psi reported one row and the CPU kernels read the row and
kernel index of an entry that does not exist (segmentation fault).
---
 torch_harmonics/disco/optimized/disco_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 6922b0b..8927cfe 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -80,8 +80,8 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] col_sort;
     delete[] val_sort;
 
-    // compute rows offsets
-    nrows = 1;
+    // compute rows offsets (an empty psi has no rows)
+    nrows = (nnz > 0) ? 1 : 0;
     roff_h[0] = 0;
     for (int64_t i = 1; i < nnz; i++) {
 
-- 
2.43.0


From 49626f492cc5dd3d9887dfe2e83812693838dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:31 +0000
Subject: [PATCH 06/18] fix: torch attention reference: start the running
 maximum at -inf, not 0

With all scores of a neighbourhood well below zero the softmax weights
underflowed relative to the artificial maximum 0 and the output was NaN.
---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From 100d605dbd22f69d0d5d0715c5d6b969865270f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:12 +0000
Subject: [PATCH 07/18] fix: keep the index dimension when a latitude shard
 holds a single psi entry

---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..62c3043 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(-1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 0b24952ef5ba3ac5c3558ba42ebbc28b12d55f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:38 +0000
Subject: [PATCH 08/18] fix: refuse a polar decomposition whose attention halo
 exceeds a latitude shard

---
 torch_harmonics/distributed/distributed_attention.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..00d570d 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -958,6 +958,16 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
             # Use the lat_out_lo of our polar rank to compute ho_global.
             self.r_lat = self._compute_r_lat()
 
+        # The halo exchange only reaches the nearest polar neighbours: a shard with fewer
+        # rows than the halo cannot provide them (checked on the global split, so that all
+        # ranks agree).
+        if self.comm_size_polar > 1 and self.r_lat > min(self.lat_in_shapes):
+            raise ValueError(
+                f"DistributedNeighborhoodAttentionS2: the neighborhood reaches {self.r_lat} latitude rows beyond "
+                f"the local shard, but the smallest polar shard holds only {min(self.lat_in_shapes)} rows "
+                f"(lat_in_shapes={self.lat_in_shapes}). Reduce theta_cutoff or the polar group size."
+            )
+
     # -----------------------------------------------------------------------
 
     def _build_local_psi(self):
-- 
2.43.0


From 4db819ba422363a9ea09b5c1bfa0bb05b5d6e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:44 +0000
Subject: [PATCH 09/18] fix: evaluate the Zernike factorials in double
 precision

---
 torch_harmonics/filter_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..184511e 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -57,7 +57,8 @@ def _circle_dist(x1: torch.Tensor, x2: torch.Tensor):
 
 
 def _log_factorial(x: torch.Tensor):
-    return torch.lgamma(x + 1)
+    # evaluate in fp64: integer inputs would otherwise be promoted to the default float dtype
+    return torch.lgamma(x.to(torch.float64) + 1)
 
 
 def _factorial(x: torch.Tensor):
-- 
2.43.0


From cf495f9e5f13b4254160bec5199cce825be690b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 10/18] fix: Zernike basis accepts an empty support

---
 torch_harmonics/filter_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 184511e..d489e8b 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -435,7 +435,8 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        # no point in the support: nothing to evaluate
+        max_bound = bound.max().item() if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From 3b96af294a6add45f51960b278f2315c40957be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 11/18] fix: DISCO convolutions refuse inputs that do not match
 their grid

The compiled kernels index the input with the offsets stored in psi, so an input
with fewer latitudes, longitudes or channels was read out of bounds.
---
 torch_harmonics/disco/convolution.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/torch_harmonics/disco/convolution.py b/torch_harmonics/disco/convolution.py
index 04fe534..da4ab6b 100644
--- a/torch_harmonics/disco/convolution.py
+++ b/torch_harmonics/disco/convolution.py
@@ -458,6 +458,15 @@ class DiscreteContinuousConv(nn.Module, metaclass=abc.ABCMeta):
     def kernel_size(self):
         return self.filter_basis.kernel_size
 
+    def _check_input(self, x: torch.Tensor) -> None:
+        """Check the input shape. The kernels index the input with the offsets stored in psi, so an undersized input is read out of bounds."""
+
+        channels = self.groups * self.groupsize
+        torch._check(x.dim() == 4, lambda: "Expected 4-dimensional input tensor")
+        torch._check(x.shape[-3] == channels, lambda: f"Expected channels shape[-3]=={channels}")
+        torch._check(x.shape[-2] == self.nlat_in, lambda: f"Expected latitudes shape[-2]=={self.nlat_in}")
+        torch._check(x.shape[-1] == self.nlon_in, lambda: f"Expected longitudes shape[-1]=={self.nlon_in}")
+
     @abc.abstractmethod
     def forward(self, x: torch.Tensor):
         raise NotImplementedError
@@ -692,6 +701,8 @@ class DiscreteContinuousConvS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        self._check_input(x)
+
         weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
         kpacked_dtype = x.dtype
         if x.is_cuda and torch.is_autocast_enabled("cuda"):
@@ -986,6 +997,8 @@ class DiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        self._check_input(x)
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From 0fddc2ca88840c30c64ce1a95a06b37b5b31439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 12/18] fix: neighborhood attention refuses mismatched batch
 sizes

The compiled kernels take the batch size from one operand and read the other
ones out of bounds when they are smaller.
---
 torch_harmonics/attention/attention.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..f1f2d2d 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -486,6 +486,8 @@ class NeighborhoodAttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        torch._check(key.shape[0] == query.shape[0], lambda: "key and query must have the same batch size")
+        torch._check(value.shape[0] == query.shape[0], lambda: "value and query must have the same batch size")
         _check_extent(query, -2, self.nlat_out, "query latitudes")
         _check_extent(query, -1, self.nlon_out, "query longitudes")
         _check_extent(key, -2, self.nlat_in, "key latitudes")
-- 
2.43.0


From ce78000adc872d23be56af27815cb2b748b7f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 13/18] fix: AttentionS2 refuses inputs that do not match its
 grids

A query with permuted extents, or keys and values with any extents of the same
product, were silently reinterpreted on the layer's grid.
---
 torch_harmonics/attention/attention.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index f1f2d2d..109ac30 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -202,6 +202,12 @@ class AttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_extent(query, -2, self.nlat_out, "query latitudes")
+        _check_extent(query, -1, self.nlon_out, "query longitudes")
+        _check_extent(key, -2, self.nlat_in, "key latitudes")
+        _check_extent(key, -1, self.nlon_in, "key longitudes")
+        _check_extent(value, -2, self.nlat_in, "value latitudes")
+        _check_extent(value, -1, self.nlon_in, "value longitudes")
 
         # perform QKV projections
         query = nn.functional.conv2d(query, self.q_weights, bias=self.q_bias)
-- 
2.43.0


From 3b90bf804c50db0480bca57277139670beccba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 14/18] fix: ResampleS2 refuses inputs that do not match its
 input grid

Larger inputs were silently cropped, and identity resampling passed anything.
---
 torch_harmonics/resample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 789fe1c..074f539 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -234,6 +234,9 @@ class ResampleS2(nn.Module):
         torch.Tensor
             Resampled signal of shape ``(..., nlat_out, nlon_out)``.
         """
+        torch._check(x.shape[-2] == self.nlat_in, lambda: f"Expected latitudes shape[-2]=={self.nlat_in}, got {x.shape[-2]}")
+        torch._check(x.shape[-1] == self.nlon_in, lambda: f"Expected longitudes shape[-1]=={self.nlon_in}, got {x.shape[-1]}")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From b29cb2e4550e49c4abd9b5298e4f530744496e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 15/18] fix: SpectralConvS2 refuses a single channel where more
 are expected

It was silently broadcast to all input channels.
---
 torch_harmonics/spectral_convolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torch_harmonics/spectral_convolution.py b/torch_harmonics/spectral_convolution.py
index abeffd3..43030ad 100644
--- a/torch_harmonics/spectral_convolution.py
+++ b/torch_harmonics/spectral_convolution.py
@@ -214,6 +214,8 @@ class SpectralConvS2(nn.Module):
         torch.Tensor
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
+        torch._check(x.shape[1] == self.in_channels, lambda: f"Expected channels shape[1]=={self.in_channels}, got {x.shape[1]}")
+
         dtype = x.dtype
 
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
-- 
2.43.0


From 083505298b2421fbbffd9386ece2f0aebae7b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 16/18] fix: neighborhood attention runs after the module is
 cast to another dtype

The compiled kernels read the quadrature weights in fp32; .double(), .half() or
.bfloat16() also casts that buffer and the forward pass raised.
---
 torch_harmonics/attention/optimized/attention_optimized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/optimized/attention_optimized.py b/torch_harmonics/attention/optimized/attention_optimized.py
index a07d4d5..6117fe2 100644
--- a/torch_harmonics/attention/optimized/attention_optimized.py
+++ b/torch_harmonics/attention/optimized/attention_optimized.py
@@ -252,6 +252,9 @@ if optimized_kernels_is_available():
         vw = vw.contiguous()
         qw = qw.contiguous()
 
+        # the kernels read the quadrature weights in fp32, whatever the module was cast to
+        quad_weights = quad_weights.to(torch.float32)
+
         return attention_kernels.forward.default(kw, vw, qw, quad_weights, col_idx, row_off, nh, nlon_in, nlat_out, nlon_out)
 
     @torch.library.register_fake("attention_kernels::_neighborhood_s2_attention_optimized")
@@ -286,7 +289,7 @@ def _neighborhood_s2_attention_bwd_optimized(ctx, grad_output):
     qw = qw.contiguous()
     grad_output = grad_output.contiguous()
 
-    dkw, dvw, dqw = attention_kernels.backward.default(kw, vw, qw, grad_output, quad_weights, col_idx, row_off, nh, nlon_in, nlat_out, nlon_out)
+    dkw, dvw, dqw = attention_kernels.backward.default(kw, vw, qw, grad_output, quad_weights.to(torch.float32), col_idx, row_off, nh, nlon_in, nlat_out, nlon_out)
 
     return dkw, dvw, dqw, None, None, None, None, None, None, None
 
-- 
2.43.0


From f34cf7089d8131cbe854aeaf97277866efb2ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:43 +0000
Subject: [PATCH 17/18] fix: quadrature of inputs with fewer than two leading
 dimensions

The weights carry two leading dimensions of one, so a (nlat, nlon) or
(channels, nlat, nlon) input gave a (1, 1) or (1, channels) result.
---
 torch_harmonics/distributed/distributed_quadrature.py | 4 ++--
 torch_harmonics/quadrature.py                         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..659c483 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -129,8 +129,8 @@ class DistributedQuadratureS2(torch.nn.Module):
         self.register_buffer("quad_weight", quad_weight, persistent=False)
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
-        # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        # integrate over last two axes only (no leading dimensions in the weights, which would broadcast into the result):
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
             quad = reduce_from_polar_region(quad)
         if self.comm_size_azimuth > 1:
diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index d998189..657688a 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -457,7 +457,7 @@ class QuadratureS2(torch.nn.Module):
         torch.Tensor
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
-        # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        # integrate over last two axes only (no leading dimensions in the weights, which would broadcast into the result):
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
         return quad
-- 
2.43.0


From 9597611cc0e185dfa7df95f52af16758fe809ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:03 +0000
Subject: [PATCH 18/18] fix: reference DISCO contraction refused grids with
 more output latitudes than input longitudes

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0

