From f8803190a7d4386f8f5aed95fdc23093f378fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:58 +0000
Subject: [PATCH 01/15] fix: reject grids that are not equispaced in cubic
 interpolation, as documented

---
 runlmc/approx/interpolation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..317bab9 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -53,6 +53,14 @@ def cubic_kernel(x):
     return y
 
 
+def _check_equispaced(name, grid):
+    steps = np.diff(grid)
+    # grid points may each be off by a rounding error
+    atol = 4 * np.finfo(float).eps * np.abs(grid).max()
+    if not np.allclose(steps, steps.mean(), rtol=1e-3, atol=atol):
+        raise ValueError('{} is not equispaced'.format(name))
+
+
 def interp_cubic(grid, samples):
     """
     Given a one dimensional grid `grid` of size `m` (that's sorted) and
@@ -91,6 +99,8 @@ def interp_cubic(grid, samples):
     if grid_size < 4:
         raise ValueError('grid size {} must be >=4'.format(grid_size))
 
+    _check_equispaced('grid', grid)
+
     if samples.min() <= grid[0] or samples.max() >= grid[-1]:
         _LOG.warning('range of samples [%f, %f] outside grid range [%f, %f]',
                      samples.min(), samples.max(), grid[0], grid[-1])
@@ -247,6 +257,7 @@ def interp_bicubic(gridx, gridy, samples):  # pylint: disable=too-many-locals
             raise ValueError('{} dim {} should be 1'.format(s, grid.ndim))
         if grid.size < 4:
             raise ValueError('grid size {} must be >=4'.format(grid.size))
+        _check_equispaced(s, grid)
 
     if samples.ndim != 2 or samples.shape[1] != 2:
         raise ValueError(
-- 
2.43.0


From 8fc5f3d5d6a39405775cb4dbb572e7ef8f6ab4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 02/15] fix: autogrid no longer grows the caller's grid size
 array in place

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 317bab9..d28f788 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -219,7 +219,7 @@ def autogrid(Xs, lo, hi, m):
     delta = (hi - lo) / m
     lo -= 2 * delta
     hi += 2 * delta
-    m += 4
+    m = m + 4
 
     grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]
     return grids
-- 
2.43.0


From 12f6ce15cfcd338a50ca4bf8e292fa13b1deba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 03/15] fix: SLFM grid kernels without LMC/independent (or
 coregionalized) terms no longer gain a spurious identity

---
 runlmc/lmc/grid_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..142b757 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -85,7 +85,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return Diag(np.zeros(m))  # no contribution
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -102,7 +102,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
 
 def _gen_diag_Ks(fk, grid_k, m, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return Diag(np.zeros(m))  # no contribution
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From cd8dfec78faf92acf5b5108b4522fd9159917546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 04/15] fix: FunctionalKernel accepts omitted LMC kernels, as
 its signature promises

---
 runlmc/lmc/functional_kernel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..b9f0e38 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,17 +95,18 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
+        slfm_kernels = slfm_kernels or []
+        indep_gp = indep_gp or []
+        indep_gp_index = indep_gp_index or range(len(indep_gp))
+
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
-        slfm_kernels = slfm_kernels or []
-        indep_gp = indep_gp or []
-        indep_gp_index = indep_gp_index or range(len(indep_gp))
-
         if len(indep_gp) != len(indep_gp_index):
             raise ValueError('indep GP number of kernels should match indices')
 
-- 
2.43.0


From d4c073ecb5dfb40f2a3ba9ec451fe8c62d3a57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:13 +0000
Subject: [PATCH 05/15] fix: link the scale parameter of the scaled kernel so
 that models see and fit it

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From 82a64c233878c16a8f10cd434ec6cf7cd339313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:15 +0000
Subject: [PATCH 06/15] fix: identity kernel evaluates at scalar distances, so
 models using it can predict

---
 runlmc/kern/identity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/kern/identity.py b/runlmc/kern/identity.py
index 179e4cc..c0d97b6 100644
--- a/runlmc/kern/identity.py
+++ b/runlmc/kern/identity.py
@@ -5,6 +5,8 @@
 The identity kernel (no covariance).
 """
 
+import numpy as np
+
 from .stationary_kern import StationaryKern
 from ..util.docs import inherit_doc
 
@@ -27,7 +29,7 @@ class Identity(StationaryKern):
         super().__init__(name=name, active_dims=active_dims)
 
     def from_dist(self, dists):
-        return (dists == 0.0).astype(float)
+        return np.equal(dists, 0.0).astype(float)
 
     def to_gpy(self):
         raise NotImplementedError('requires manual impl')
-- 
2.43.0


From 0603b78d5bb58061cfb3f9e620b55dabd519ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:15 +0000
Subject: [PATCH 07/15] fix: precompute prediction works for kernels sharing a
 proper subset of the input dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..c895f84 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -369,7 +369,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From db5b263c33847f01ffa960fd5015176babfc37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:08 +0000
Subject: [PATCH 08/15] fix: on-the-fly prediction accepts a test list with no
 inputs for any output

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index c895f84..03a4465 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -391,7 +391,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From 829cf7e8166639debf71a6877ea33a28921dfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:46 +0000
Subject: [PATCH 09/15] fix: prior gradient includes the Jacobian term of every
 parameter with a prior

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From 4390028f6a7769e36f3d01696351ed77358e9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:46 +0000
Subject: [PATCH 10/15] fix: half-Laplace prior gradient applies element-wise,
 as documented for priors

---
 runlmc/parameterization/priors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runlmc/parameterization/priors.py b/runlmc/parameterization/priors.py
index 155d701..04090cf 100644
--- a/runlmc/parameterization/priors.py
+++ b/runlmc/parameterization/priors.py
@@ -160,5 +160,5 @@ class HalfLaplace:
     def lnpdf(self, x):
         return self.constant - x / self.b
 
-    def lnpdf_grad(self, _):
-        return -1 / self.b
+    def lnpdf_grad(self, x):
+        return np.full_like(x, -1 / self.b, dtype=float)
-- 
2.43.0


From 869938cd0b0dec384a76c49fe61fb7e54441cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 11/15] fix: AdaDelta iterates on its own copy, so callbacks
 reading the model do not undo its steps

---
 runlmc/models/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runlmc/models/optimization.py b/runlmc/models/optimization.py
index f1b09db..c649d1a 100644
--- a/runlmc/models/optimization.py
+++ b/runlmc/models/optimization.py
@@ -57,6 +57,9 @@ class AdaDelta(Optimizer):
                   'grad norm {:10.4e}'.format(grad_norm))
 
     def opt(self, x, f_fp=None, f=None, fp=None):
+        # climin steps in place, but x may be the model's own (or the
+        # caller's) array.
+        x = x.copy()
         ada = self._prepare_adadelta(x, fp)
 
         min_grad_ratio = self.kwargs['min_grad_ratio']
-- 
2.43.0


From 3584c209798022e984994d36069db11e9be12d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:26 +0000
Subject: [PATCH 12/15] fix: interpolated kernel matrices report a valid upper
 eigenvalue bound instead of failing

---
 runlmc/approx/ski.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runlmc/approx/ski.py b/runlmc/approx/ski.py
index ed095c6..33867a0 100644
--- a/runlmc/approx/ski.py
+++ b/runlmc/approx/ski.py
@@ -20,4 +20,8 @@ class SKI(Composition):
         return self.W.dot(WKT.T)
 
     def upper_eig_bound(self):
-        return self.K.upper_eig_bound() * self.shape[0] / self.m
+        # The spectral norm of W is at most the geometric mean of its largest
+        # absolute row and column sums.
+        absW = abs(self.W)
+        W_norm_sq = absW.sum(axis=0).max() * absW.sum(axis=1).max()
+        return self.K.upper_eig_bound() * W_norm_sq
-- 
2.43.0


From ba0ef8bddbf91bfffca2c56f99d5afa296d0bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 13/15] fix: map_entries keeps element positions for arrays
 that are not C-ordered

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0


From 3658a8987cf78512e4eb2988c417abb3e952d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 14/15] fix: GPy-backed model honours multi-dimensional inputs
 instead of reading a coordinate as the output index

---
 runlmc/kern/identity.py        |  2 +-
 runlmc/kern/matern32.py        |  8 +++++---
 runlmc/kern/rbf.py             |  8 +++++---
 runlmc/kern/scaled.py          |  2 +-
 runlmc/kern/stationary_kern.py |  4 +++-
 runlmc/kern/std_periodic.py    |  9 +++++++--
 runlmc/models/gpy_lmc.py       | 17 +++++++++++------
 7 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/runlmc/kern/identity.py b/runlmc/kern/identity.py
index c0d97b6..23eb93a 100644
--- a/runlmc/kern/identity.py
+++ b/runlmc/kern/identity.py
@@ -31,7 +31,7 @@ class Identity(StationaryKern):
     def from_dist(self, dists):
         return np.equal(dists, 0.0).astype(float)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         raise NotImplementedError('requires manual impl')
 
     def kernel_gradient(self, dists):
diff --git a/runlmc/kern/matern32.py b/runlmc/kern/matern32.py
index 006d9bf..da3eda0 100644
--- a/runlmc/kern/matern32.py
+++ b/runlmc/kern/matern32.py
@@ -40,12 +40,14 @@ class Matern32(StationaryKern):
         scaled_dist = dists * np.sqrt(3) * self.inv_lengthscale
         return (1 + scaled_dist) * np.exp(-scaled_dist)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
+        dims = (range(input_dim) if self.active_dims is None
+                else self.active_dims)
         l = 1 / float(self.inv_lengthscale[0])
         gpy = GPy.kern.Matern32(
-            input_dim=1, variance=1, lengthscale=l, name=self.name,
-            active_dims=self.active_dims)
+            input_dim=len(dims), variance=1, lengthscale=l, name=self.name,
+            active_dims=list(dims))
         gpy.variance.constrain_fixed(1)
         return gpy
 
diff --git a/runlmc/kern/rbf.py b/runlmc/kern/rbf.py
index c83d77d..a9d1be7 100644
--- a/runlmc/kern/rbf.py
+++ b/runlmc/kern/rbf.py
@@ -39,12 +39,14 @@ class RBF(StationaryKern):
     def from_dist(self, dists):
         return np.exp(-0.5 * np.square(dists) * self.inv_lengthscale)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
+        dims = (range(input_dim) if self.active_dims is None
+                else self.active_dims)
         l = float(self.inv_lengthscale[0]) ** -0.5
         gpy = GPy.kern.RBF(
-            input_dim=1, variance=1, lengthscale=l, name=self.name,
-            active_dims=self.active_dims)
+            input_dim=len(dims), variance=1, lengthscale=l, name=self.name,
+            active_dims=list(dims))
         gpy.variance.constrain_fixed(1)
         return gpy
 
diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 59731f9..04fee7e 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -23,7 +23,7 @@ class Scaled(StationaryKern):
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         raise NotImplementedError
 
     def kernel_gradient(self, dists):
diff --git a/runlmc/kern/stationary_kern.py b/runlmc/kern/stationary_kern.py
index 82b5bb0..4b5548c 100644
--- a/runlmc/kern/stationary_kern.py
+++ b/runlmc/kern/stationary_kern.py
@@ -57,8 +57,10 @@ class StationaryKern(Parameterized):
         """
         raise NotImplementedError
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         """
+        :param input_dim: input dimension of the GPy kernel, all of it active
+                          unless `active_dims` says otherwise
         :return: GPy version of this kernel.
         """
         raise NotImplementedError
diff --git a/runlmc/kern/std_periodic.py b/runlmc/kern/std_periodic.py
index 56fa720..ba90682 100644
--- a/runlmc/kern/std_periodic.py
+++ b/runlmc/kern/std_periodic.py
@@ -47,13 +47,18 @@ class StdPeriodic(StationaryKern):
         sin = np.sin((np.pi / self.period) * dists)
         return np.exp(-0.5 * np.square(sin) * self.inv_lengthscale)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
+        dims = (range(input_dim) if self.active_dims is None
+                else self.active_dims)
+        if len(dims) != 1:
+            raise ValueError('GPy periodic kernel is not a function of '
+                             'distance for active dims {}'.format(dims))
         l = float(self.inv_lengthscale[0]) ** -0.5
         p = float(self.period[0])
         gpy = GPy.kern.StdPeriodic(
             input_dim=1, variance=1, lengthscale=l, period=p, name=self.name,
-            active_dims=self.active_dims)
+            active_dims=list(dims))
         gpy.variance.constrain_fixed(1)
         return gpy
 
diff --git a/runlmc/models/gpy_lmc.py b/runlmc/models/gpy_lmc.py
index a1c38f8..40a7413 100644
--- a/runlmc/models/gpy_lmc.py
+++ b/runlmc/models/gpy_lmc.py
@@ -106,17 +106,22 @@ class GPyLMC(MultiGP):
     @staticmethod
     def _construct_gpy(Xs, Ys, kernels, ranks, sparse):
         import GPy.models as models
-        from GPy.util.multioutput import ICM
+        from GPy.kern import Coregionalize
 
-        kernels = [k.to_gpy() for k in kernels]
-        input_dim = 1
+        input_dim = Xs[0].shape[1]
+        kernels = [k.to_gpy(input_dim) for k in kernels]
         num_outputs = len(Ys)
         Ys = [Y.reshape(-1, 1) for Y in Ys]
 
-        K = ICM(input_dim, num_outputs, kernels[0], ranks[0], name='ICM0')
+        # GPy's own ICM() does not support kernels over a subset of the inputs
+        def icm(kernel, rank, idx):
+            B = Coregionalize(
+                1, num_outputs, active_dims=[input_dim], rank=rank, name='B')
+            return kernel.prod(B, name='ICM{}'.format(idx))
+
+        K = icm(kernels[0], ranks[0], 0)
         for kernel, rank, idx in zip(kernels[1:], ranks[1:], count(1)):
-            K += ICM(
-                input_dim, num_outputs, kernel, rank, name='ICM{}'.format(idx))
+            K += icm(kernel, rank, idx)
         K.name = 'LCM'
         if sparse > 0:
             return models.SparseGPCoregionalizedRegression(
-- 
2.43.0


From de5d2b9046b6f21eb7bd7b336644a446d1f2f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:41 +0000
Subject: [PATCH 15/15] fix: give a dimension without spread an increasing grid

autogrid made every grid point of a dimension in which all inputs
coincide the same, so the interpolation weights were nan and no model
could be built on such data.
---
 runlmc/approx/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index d28f788..79c685e 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -216,7 +216,9 @@ def autogrid(Xs, lo, hi, m):
     lo = (max_lo if lo is None else np.minimum(lo, max_lo)).astype(float)
     hi = (min_hi if hi is None else np.maximum(hi, min_hi)).astype(float)
 
-    delta = (hi - lo) / m
+    # a dimension without any spread still needs an increasing grid
+    spread = np.where(hi > lo, hi - lo, np.maximum(1, np.abs(lo)))
+    delta = spread / m
     lo -= 2 * delta
     hi += 2 * delta
     m = m + 4
-- 
2.43.0

