From 67305c1540b0e81c3ad580696bb8cfa887d30daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 01/13] fix: permutation solver crashed when all the entries of
 the cost matrix are infinite

---
 fast_bss_eval/numpy/helpers.py | 3 +++
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..4ee2dc6 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,6 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
+        if len(values) == 0:
+            # no finite entry: all the assignments are equivalent
+            values = np.zeros_like(cost_matrix, shape=(1,))
         m = values.min()
         M = values.max()
         n = min(cost_matrix.shape)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..357e08e 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if len(values) == 0:
+                # no finite entry: all the assignments are equivalent
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From 4e5f55f790341eebc4c1474b7a37db27fedbfcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 02/13] fix: circular aliasing of the correlations when
 filter_length exceeds the signal length

---
 fast_bss_eval/numpy/metrics.py | 4 ++--
 fast_bss_eval/torch/metrics.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..902fab3 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +163,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..bf9c3b0 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -108,7 +108,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -159,7 +159,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From 1ee699ff38912f01417e4e79f01252931a97cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 03/13] fix: float32 numpy inputs produced float64 metrics with
 use_cg_iter, or load_diag and filter_length=1

---
 fast_bss_eval/numpy/cgd.py     | 3 +++
 fast_bss_eval/numpy/metrics.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..c043df6 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -354,6 +354,9 @@ def conjugate_gradient(
         if x_true is not None:
             errors.append(np.mean(np.linalg.norm(x - x_true, axis=-2)))
 
+    # the fft of numpy may have promoted the type to double precision
+    x = x.astype(b.dtype, copy=False)
+
     if add_axis:
         x = x[..., 0]
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 902fab3..9b4339f 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 7c24cf39470a372a83e8f005764fdf15dbf8b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 04/13] fix: helper tensors are created with the type and
 device of the input in the torch backend

---
 fast_bss_eval/torch/cgd.py     | 4 ++--
 fast_bss_eval/torch/metrics.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..2d327c6 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,7 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device) / float(n)
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +63,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / float(n)
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index bf9c3b0..f8103f0 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,8 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            eye = torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+            acm = acm + eye * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From dc4c9380dd027e5e5271d14bb40a99f332826665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 05/13] fix: metrics exceeded clamp_db in single precision
 because 1 - eps is rounded

---
 fast_bss_eval/numpy/helpers.py | 5 +++++
 fast_bss_eval/torch/helpers.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 4ee2dc6..bc57b88 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -65,6 +65,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may be rounded, so that the clamping above is not sufficient
+        e = eps / (1.0 - eps)
+        ratio = clamp(ratio, min=e, max=1.0 / e)
+
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
 
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 357e08e..d76b9cb 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -59,6 +59,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may be rounded, so that the clamping above is not sufficient
+        e = eps / (1.0 - eps)
+        ratio = torch.clamp(ratio, min=e, max=1.0 / e)
+
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
 
-- 
2.43.0


From e4fb763d2c5ea2260083090cfb6677e077347795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 06/13] fix: AttributeError in the pit and scale-invariant
 functions when torch is not installed

---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From a6e135a22a25cb2c9a966328a92d9444f685ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 07/13] fix: TypeError at import when the packaging module is
 not installed

---
 fast_bss_eval/torch/compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index b3f2764..cc6c819 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -29,7 +29,7 @@ For torch<=1.5 the torch_complex library is used.
 """
 try:
     from packaging.version import Version
-except [ImportError, ModuleNotFoundError]:
+except ImportError:
     from distutils.version import LooseVersion as Version
 
 import torch
-- 
2.43.0


From 038ceeaed44f2025d4558bf0bf1e9a2c37676f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 08/13] fix: load_diag was not applied to the SDR when
 filter_length is 1

---
 fast_bss_eval/numpy/metrics.py | 6 +++++-
 fast_bss_eval/torch/metrics.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 9b4339f..58c3788 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -62,6 +62,10 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = np.einsum("...n,...n->...", ref, est)
     coh_sdr = np.square(coh_sdr)
 
+    if load_diag is not None:
+        ref_pow = np.einsum("...n,...n->...", ref, ref) + load_diag
+        coh_sdr = coh_sdr / (ref_pow[..., None] if pairwise else ref_pow)
+
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
@@ -240,7 +244,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index f8103f0..f073a5c 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -57,6 +57,10 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = torch.einsum("...n,...n->...", ref, est)
     coh_sdr = coh_sdr**2
 
+    if load_diag is not None:
+        ref_pow = torch.einsum("...n,...n->...", ref, ref) + load_diag
+        coh_sdr = coh_sdr / (ref_pow[..., None] if pairwise else ref_pow)
+
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
@@ -237,7 +241,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
-- 
2.43.0


From 27cc5ea15fe6c59d35c3a05108859d46abf9b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 09/13] fix: batches of vectors are not solved by
 numpy.linalg.solve from numpy 2.0

---
 fast_bss_eval/numpy/linalg.py  | 11 +++++++++++
 fast_bss_eval/numpy/metrics.py |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/linalg.py b/fast_bss_eval/numpy/linalg.py
index f12d6a2..19faaf8 100644
--- a/fast_bss_eval/numpy/linalg.py
+++ b/fast_bss_eval/numpy/linalg.py
@@ -21,6 +21,17 @@
 import numpy as np
 
 
+def solve(A: np.ndarray, b: np.ndarray) -> np.ndarray:
+    """
+    solve linear systems, b contains a batch of vectors if it has one dimension
+    less than A, and of matrices otherwise (numpy>=2.0 does not do this)
+    """
+    if b.ndim == A.ndim - 1:
+        return np.linalg.solve(A, b[..., None])[..., 0]
+    else:
+        return np.linalg.solve(A, b)
+
+
 def hankel_view(x: np.ndarray, n_rows: int) -> np.ndarray:
     """return a view of x as a Hankel matrix"""
     n_cols = x.shape[-1] - n_rows + 1
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 58c3788..99e44a4 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -31,7 +31,7 @@ from .helpers import (
     _remove_mean,
     _solve_permutation,
 )
-from .linalg import toeplitz, block_toeplitz
+from .linalg import block_toeplitz, solve, toeplitz
 
 
 def square_cosine_metrics_length_one_filter(
@@ -271,7 +271,7 @@ def sdr_loss(
         if use_cg_iter is None:
             # regular matrix solver
             R_mat = toeplitz(acf)
-            sol = np.linalg.solve(R_mat, xcorr)
+            sol = solve(R_mat, xcorr)
         else:
             # use preconditioned conjugate gradient
             sol = toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter)
@@ -546,7 +546,7 @@ def square_cosine_metrics(
     if use_cg_iter is None:
         # regular matrix solver
         R_mat = toeplitz(acf_sdr)
-        sol = np.linalg.solve(R_mat, xcorr_sdr)
+        sol = solve(R_mat, xcorr_sdr)
     else:
         # use preconditioned conjugate gradient
         sol = toeplitz_conjugate_gradient(acf_sdr, xcorr_sdr, n_iter=use_cg_iter)
@@ -561,7 +561,7 @@ def square_cosine_metrics(
     xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
-        sol = np.linalg.solve(R_mat, xcorr)
+        sol = solve(R_mat, xcorr)
     else:
         if pairwise:
             x0 = sol
-- 
2.43.0


From ce5a0f06cb16b49b4a554f1ad9307788f8792d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 10/13] fix: bss_eval_sources on empty batches

The length of the stacked filters was given as -1 in reshape, which is
ambiguous when a batch dimension is zero: bss_eval_sources raised an error
whereas sdr and the losses return empty arrays.
---
 fast_bss_eval/numpy/cgd.py     | 12 ++++++++----
 fast_bss_eval/numpy/metrics.py |  6 ++++--
 fast_bss_eval/torch/cgd.py     | 12 ++++++++----
 fast_bss_eval/torch/metrics.py |  6 ++++--
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c043df6..4a897ce 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -196,11 +196,13 @@ class BlockCirculantPreconditionerOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
 
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self.C.shape[-1]) + lhs.shape[-1:])
+        n_cols = self.C.shape[-1]
+        n_blocks = lhs.shape[-2] // n_cols
+        lhs = lhs.reshape(lhs.shape[:-2] + (n_blocks, n_cols) + lhs.shape[-1:])
         lhs = np.fft.rfft(lhs, n=self.n, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.C, lhs)
         y = np.fft.irfft(prod, n=self.n, axis=-3)
-        y = y.reshape(lhs.shape[:-3] + (-1,) + lhs.shape[-1:])
+        y = y.reshape(y.shape[:-3] + (y.shape[-3] * y.shape[-2],) + y.shape[-1:])
 
         return y
 
@@ -265,7 +267,9 @@ class BlockToeplitzOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
         # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self._n_block_cols) + lhs.shape[-1:])
+        n_cols = self._n_block_cols
+        n_blocks = lhs.shape[-2] // n_cols
+        lhs = lhs.reshape(lhs.shape[:-2] + (n_blocks, n_cols) + lhs.shape[-1:])
         Y = np.fft.rfft(lhs, n=self.n_fft, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.Cforward, Y)
         y = np.fft.irfft(prod, n=self.n_fft, axis=-3)
@@ -274,7 +278,7 @@ class BlockToeplitzOperator:
         y = y[..., : self._n_toeplitz, :, :]
 
         # reshape as vector
-        y = y.reshape(y.shape[:-3] + (-1,) + y.shape[-1:])
+        y = y.reshape(y.shape[:-3] + (y.shape[-3] * y.shape[-2],) + y.shape[-1:])
 
         return y
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 99e44a4..a2288f8 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -558,7 +558,9 @@ def square_cosine_metrics(
         coh_sdr = np.einsum("...l,...l->...", xcorr_sdr, sol)
 
     # solve the coefficients for the SIR
-    xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
+    # (the length is given explicitly because -1 is ambiguous for empty batches)
+    n_coef = xcorr.shape[-3] * xcorr.shape[-2]
+    xcorr = xcorr.reshape(xcorr.shape[:-3] + (n_coef,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
         sol = solve(R_mat, xcorr)
@@ -566,7 +568,7 @@ def square_cosine_metrics(
         if pairwise:
             x0 = sol
             x0 = sol.swapaxes(-3, -2)
-            x0 = x0.reshape(x0.shape[:-3] + (-1,) + x0.shape[-1:])
+            x0 = x0.reshape(x0.shape[:-3] + (n_coef,) + x0.shape[-1:])
         else:
             x0 = None
         sol = block_toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter, x=x0)
diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 2d327c6..f6632e0 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -204,11 +204,13 @@ class BlockCirculantPreconditionerOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
 
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self.C.shape[-1]) + lhs.shape[-1:])
+        n_cols = self.C.shape[-1]
+        n_blocks = lhs.shape[-2] // n_cols
+        lhs = lhs.reshape(lhs.shape[:-2] + (n_blocks, n_cols) + lhs.shape[-1:])
         lhs = rfft(lhs, n=self.n, dim=-3)
         prod = einsum("...rc,...cm->...rm", self.C, lhs)
         y = irfft(prod, n=self.n, dim=-3)
-        y = y.reshape(lhs.shape[:-3] + (-1,) + lhs.shape[-1:])
+        y = y.reshape(y.shape[:-3] + (y.shape[-3] * y.shape[-2],) + y.shape[-1:])
 
         return y
 
@@ -273,7 +275,9 @@ class BlockToeplitzOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
         # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self._n_block_cols) + lhs.shape[-1:])
+        n_cols = self._n_block_cols
+        n_blocks = lhs.shape[-2] // n_cols
+        lhs = lhs.reshape(lhs.shape[:-2] + (n_blocks, n_cols) + lhs.shape[-1:])
         Y = rfft(lhs, n=self.n_fft, dim=-3)
         prod = einsum("...rc,...cm->...rm", self.Cforward, Y)
         y = irfft(prod, n=self.n_fft, dim=-3)
@@ -282,7 +286,7 @@ class BlockToeplitzOperator:
         y = y[..., : self._n_toeplitz, :, :]
 
         # reshape as vector
-        y = y.reshape(y.shape[:-3] + (-1,) + y.shape[-1:])
+        y = y.reshape(y.shape[:-3] + (y.shape[-3] * y.shape[-2],) + y.shape[-1:])
 
         return y
 
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index f073a5c..8c1fa9a 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -556,7 +556,9 @@ def square_cosine_metrics(
         coh_sdr = torch.einsum("...l,...l->...", xcorr_sdr, sol)
 
     # solve the coefficients for the SIR
-    xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
+    # (the length is given explicitly because -1 is ambiguous for empty batches)
+    n_coef = xcorr.shape[-3] * xcorr.shape[-2]
+    xcorr = xcorr.reshape(xcorr.shape[:-3] + (n_coef,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
         sol = solve(R_mat, xcorr)
@@ -564,7 +566,7 @@ def square_cosine_metrics(
         if pairwise:
             x0 = sol
             x0 = sol.transpose(-3, -2)
-            x0 = x0.reshape(x0.shape[:-3] + (-1,) + x0.shape[-1:])
+            x0 = x0.reshape(x0.shape[:-3] + (n_coef,) + x0.shape[-1:])
         else:
             x0 = None
         sol = block_toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter, x=x0)
-- 
2.43.0


From 2a40104495388f825780d6579d07bd2891237762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 11/13] fix: SIR of estimates that are orthogonal to all the
 references

For a silent estimate the two square cosines are zero and their ratio was
NaN: the SIR was NaN with clamp_db and the permutation search raised
ValueError, whereas SDR and SAR were -inf or -clamp_db.
---
 fast_bss_eval/numpy/metrics.py | 3 ++-
 fast_bss_eval/torch/metrics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index a2288f8..cdd804a 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -587,7 +587,8 @@ def _base_metrics_bss_eval(
     Helper function that converts the square cosine metrics to SDR/SIR/SAR
     """
 
-    coh_sir = coh_sdr / coh_sar
+    # estimates orthogonal to all the references (e.g., silent) have coh_sdr = coh_sar = 0
+    coh_sir = coh_sdr / np.maximum(coh_sar, np.finfo(coh_sar.dtype).tiny)
 
     neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
     neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 8c1fa9a..77401e1 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -585,7 +585,8 @@ def _base_metrics_bss_eval(
     Helper function that converts the square cosine metrics to SDR/SIR/SAR
     """
 
-    coh_sir = coh_sdr / coh_sar
+    # estimates orthogonal to all the references (e.g., silent) have coh_sdr = coh_sar = 0
+    coh_sir = coh_sdr / coh_sar.clamp(min=torch.finfo(coh_sar.dtype).tiny)
 
     neg_sdr = _coherence_to_neg_sdr(coh_sdr, clamp_db=clamp_db)
     neg_sir = _coherence_to_neg_sdr(coh_sir, clamp_db=clamp_db)
-- 
2.43.0


From 3d263fc543315c53df152eb5d329251cbc775bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 12/13] fix: NaN for silent references with filter_length=1 and
 load_diag=0

Completes the previous fix of load_diag for this filter length: without
loading, a silent reference has a square cosine of zero.
---
 fast_bss_eval/numpy/metrics.py | 1 +
 fast_bss_eval/torch/metrics.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index cdd804a..5428a5d 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -64,6 +64,7 @@ def square_cosine_metrics_length_one_filter(
 
     if load_diag is not None:
         ref_pow = np.einsum("...n,...n->...", ref, ref) + load_diag
+        ref_pow = np.maximum(ref_pow, np.finfo(ref_pow.dtype).tiny)  # silent, no loading
         coh_sdr = coh_sdr / (ref_pow[..., None] if pairwise else ref_pow)
 
     if with_coh_sar:
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 77401e1..2bec09f 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -59,6 +59,7 @@ def square_cosine_metrics_length_one_filter(
 
     if load_diag is not None:
         ref_pow = torch.einsum("...n,...n->...", ref, ref) + load_diag
+        ref_pow = ref_pow.clamp(min=torch.finfo(ref_pow.dtype).tiny)  # silent, no loading
         coh_sdr = coh_sdr / (ref_pow[..., None] if pairwise else ref_pow)
 
     if with_coh_sar:
-- 
2.43.0


From b6397badaf585b0ac01505b68d5e40dc9695ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 13/13] fix: torch backend silently unused on python 3.12
 without packaging and setuptools

---
 fast_bss_eval/torch/compatibility.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index cc6c819..d77b678 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -27,14 +27,13 @@ whose API differs in older versions.
 - einsum
 For torch<=1.5 the torch_complex library is used.
 """
-try:
-    from packaging.version import Version
-except ImportError:
-    from distutils.version import LooseVersion as Version
+import re
 
 import torch
 
-is_torch_1_8_plus = Version(torch.__version__) >= Version("1.8.0")
+# only major and minor matter, no need for packaging or distutils (gone from python 3.12)
+_torch_version = re.match(r"(\d+)\.(\d+)", torch.__version__).groups()
+is_torch_1_8_plus = tuple(int(v) for v in _torch_version) >= (1, 8)
 
 if not is_torch_1_8_plus:
     try:
-- 
2.43.0

