From 7ccc4ad2e22859346c8ab05e661f99ed5dc3b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 01/13] fix: rebuild cosmologies with a growth index from their
 leaves

list.reverse() returns None, so tree_unflatten raised for every cosmology
with gamma: it could not cross a jit, vmap or grad boundary.
---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 3ac6fa48b6725c34b7fe84d6f08c7ae953844159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 02/13] fix: keep multiplicative and IA bias when rebuilding
 WeakLensing

The leaves are stored as (bins, m, ia_bias) but the constructor takes
(bins, ia_bias, m), so a probe lost its multiplicative bias, or swapped it
with the IA bias, when crossing a jit, vmap or grad boundary.
---
 jax_cosmo/probes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..ed676c0 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,17 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The parameters are not stored in the order of the constructor arguments
+        redshift_bins, multiplicative_bias, *ia_bias = children
+        return cls(
+            redshift_bins,
+            *ia_bias,
+            multiplicative_bias=multiplicative_bias,
+            **aux_data,
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From 3cd0ea465677d99d2d099e674fcb88fb90afa69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 03/13] fix: sign of the log determinant in the Gaussian log
 likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From a93e612938b8e2371dc3c3eecc59421c6e363ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 04/13] fix: interpolate in the right segment of the table

Queries in the first interval were extrapolated from the second one, and
for decreasing tables (as used to invert distances and to find the
non-linear scale) queries on one side of the nearest node were
extrapolated from the segment on its other side.
---
 jax_cosmo/scipy/interpolate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..02227ac 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -31,11 +31,10 @@ def interp(x, xp, fp):
     ind = np.clip(ind, 1, len(xp) - 2)
 
     xi = xp[ind]
-    # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
-    a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
-        xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
-    )
+    # Figure out if we are on the right or the left of nearest, following the
+    # direction of the table which can be increasing or decreasing
+    s = np.where((x - xi) * (xp[ind + 1] - xi) >= 0, 1, -1)
+    a = (fp[ind + s] - fp[ind]) / (xp[ind + s] - xp[ind])
     b = fp[ind] - a * xp[ind]
     return a * x + b
 
-- 
2.43.0


From e3fc151ef0358bfd7e9a6e951aae04fd05c84a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 05/13] fix: natural cubic splines have zero curvature at the
 right end too

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 02227ac..6407266 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -205,7 +205,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From 2dbed83b5b5d00ade13e7353fdd6adec4d6bf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 06/13] fix: precomputed tables must not leak between calls

Interpolation tables and n(z) normalisations were stored on the object
whatever they held: computed inside a jit, they are tracers and any later
use of the object failed with UnexpectedTracerError. The distance table
was also reused whatever the requested range and number of steps.
---
 jax_cosmo/background.py | 61 ++++++++++++++++++++++++++---------------
 jax_cosmo/redshift.py   | 11 ++++++--
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..efeb61b 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -1,6 +1,7 @@
 # This module implements various functions for the background COSMOLOGY
 import jax.numpy as np
 from jax import lax
+from jax.core import Tracer
 
 import jax_cosmo.constants as const
 from jax_cosmo.scipy.interpolate import interp
@@ -22,6 +23,14 @@ __all__ = [
 ]
 
 
+def _save(cosmo, key, cache):
+    """Keeps a precomputed table in the workspace of the cosmology, unless it
+    holds tracers: these must not outlive the transformation they belong to.
+    """
+    if not any(isinstance(v, Tracer) for v in cache.values()):
+        cosmo._workspace[key] = cache
+
+
 def w(cosmo, a):
     r"""Dark Energy equation of state parameter using the Linder
     parametrisation.
@@ -219,8 +228,17 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
+    cache = _distance_table(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _distance_table(cosmo, log10_amin=-3, steps=256):
+    """Table of radial comoving distances as a function of scale factor"""
+    key = ("background.radial_comoving_distance", log10_amin, steps)
     # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,13 +251,10 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        _save(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
-
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+        cache = cosmo._workspace[key]
+    return cache
 
 
 def a_of_chi(cosmo, chi):
@@ -259,10 +274,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    cache = _distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
@@ -457,8 +469,15 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
+    cache = _growth_table_ODE(cosmo, log10_amin, steps)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128):
+    """Table of growth factors and growth rates as a function of scale factor"""
+    key = ("background.growth_factor", log10_amin, steps)
     # Check if growth has already been computed
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -482,10 +501,10 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
+        _save(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+        cache = cosmo._workspace[key]
+    return cache
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -505,10 +524,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -530,8 +546,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         Growth factor computed at requested scale factor
 
     """
+    key = ("background.growth_factor", log10_amin, steps)
     # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -542,9 +559,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
+        _save(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.growth_factor"]
+        cache = cosmo._workspace[key]
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..b6f02d1 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -3,6 +3,7 @@ from abc import ABC
 from abc import abstractmethod
 
 import jax.numpy as np
+from jax.core import Tracer
 from jax.tree_util import register_pytree_node_class
 
 from jax_cosmo.jax_utils import container
@@ -27,9 +28,13 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            # A tracer must not outlive the transformation it belongs to
+            if not isinstance(norm, Tracer):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 7f4d946be7b39d67330a3fa09d98391b8f62081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 07/13] fix: single-plane redshift distributions can be
 evaluated

---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index b6f02d1..a7f444a 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -97,7 +97,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From 3716a4a3a2d2e4350b600c96caae2ba0481a4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 08/13] fix: sparse determinants of matrices with singular
 sub-blocks

The block elimination inverted every trailing sub-matrix, so invertible
matrices such as [[0, 1], [1, 0]] gave nan.
---
 jax_cosmo/sparse.py | 42 ++++--------------------------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..6694205 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,32 +313,10 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
-
     Parameters
     ----------
     sparse : array
@@ -353,17 +329,10 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    # The blocks are all diagonal so, after reordering rows and columns, the
+    # matrix is block diagonal with one N x N block per diagonal element.
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -372,9 +341,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From f25a7ed772b8131748a0d84dcc9d127b1af198b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 09/13] fix: derivatives of transverse distances with respect
 to curvature at flatness

The flat branch did not depend on Omega_k, so gradients there missed the
curvature term (wrong sign at high redshift).
---
 jax_cosmo/background.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index efeb61b..9184b90 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -338,13 +338,16 @@ def transverse_comoving_distance(cosmo, a):
         \end{matrix}
         \right.
     """
-    index = cosmo.k + 1
+    # Close to flat, the curved expressions and their derivatives are inaccurate
+    index = np.where(np.abs(cosmo.Omega_k) < 1e-4, 1, cosmo.k + 1)
 
     def open_universe(chi):
         return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Expansion around flatness, to keep derivatives with respect to Omega_k
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0 + x**3 / 5040.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
@@ -353,7 +356,7 @@ def transverse_comoving_distance(cosmo, a):
 
     chi = radial_comoving_distance(cosmo, a)
 
-    return lax.switch(cosmo.k + 1, branches, chi)
+    return lax.switch(index, branches, chi)
 
 
 def angular_diameter_distance(cosmo, a):
-- 
2.43.0


From 48b10a0afce3940e38fb513ab1a988290f770764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 10/13] fix: splines can be rebuilt with batched or placeholder
 leaves

tree_unflatten went through the validating constructor, so a spline could not be
returned from vmap (its leaves then have a batch dimension).
---
 jax_cosmo/scipy/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 6407266..f47065c 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -238,8 +238,13 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # No input validation here: leaves can carry extra batch dimensions (e.g.
+        # for splines returned by vmap) or not be arrays at all
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints = aux_data["endpoints"]
+        spline.k = aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From 187b8ce083e0aac9b86d1f8978356ce40ffcc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 11/13] fix: sparse products of matrices with different block
 sizes raise

dot() compared only the number of rows and columns, so that for instance a
(1, 1, 6) times (6, 1, 1) product was broadcast to a meaningless result.
---
 jax_cosmo/sparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 6694205..f6a12c3 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -108,7 +108,9 @@ def dot(*args):
             if B.ndim < 1 or B.ndim > 2:
                 raise ValueError(f"B has invalid dimension {B.ndim} (expected 1 or 2).")
             Brows = B.shape[0]
-        if Acols != Brows:
+        # The product of two sparse matrices needs blocks of the same size
+        same_blocks = not (is_sparse(A) and is_sparse(B)) or A.shape[2] == B.shape[2]
+        if Acols != Brows or not same_blocks:
             raise ValueError(
                 f"Shapes of A {A.shape} and B {B.shape} not compatible for dot product."
             )
-- 
2.43.0


From f8285eb6e34da7f4b66cfa98e0ae4fed3e2f5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:05 +0000
Subject: [PATCH 12/13] fix: growth factor and rate of a scalar scale factor

As documented, they return a scalar; without growth index they raised, which
also prevented mapping them over scale factors with vmap.
---
 jax_cosmo/background.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 9184b90..9c9d0fd 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -473,7 +473,9 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         Growth factor computed at requested scale factor
     """
     cache = _growth_table_ODE(cosmo, log10_amin, steps)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    a = np.asarray(a)
+    g = interp(a.ravel(), cache["a"], cache["g"]).reshape(a.shape)
+    return np.clip(g, 0.0, 1.0)
 
 
 def _growth_table_ODE(cosmo, log10_amin=-3, steps=128):
@@ -528,7 +530,8 @@ def _growth_rate_ODE(cosmo, a):
         Growth rate computed at requested scale factor
     """
     cache = _growth_table_ODE(cosmo)
-    return interp(a, cache["a"], cache["f"])
+    a = np.asarray(a)
+    return interp(a.ravel(), cache["a"], cache["f"]).reshape(a.shape)
 
 
 def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
@@ -565,7 +568,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         _save(cosmo, key, cache)
     else:
         cache = cosmo._workspace[key]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    a = np.asarray(a)
+    g = interp(a.ravel(), cache["a"], cache["g"]).reshape(a.shape)
+    return np.clip(g, 0.0, 1.0)
 
 
 def _growth_rate_gamma(cosmo, a):
-- 
2.43.0


From 67c16a4d919186ba0ed3e3a64b1ccf0b46bb6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 13/13] fix: spline integrals under jit and vmap

The bounds were compared in python, which fails for traced bounds; the difference
of antiderivatives has the right sign for either order.
---
 jax_cosmo/scipy/interpolate.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index f47065c..dd9bb8a 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -438,10 +438,5 @@ class InterpolatedUnivariateSpline(object):
         ig : array_like
             Definite integral of the piecewise polynomial over [a, b]
         """
-        # Swap integration bounds if needed
-        sign = 1
-        if b < a:
-            a, b = b, a
-            sign = -1
         xs = np.array([a, b])
-        return sign * np.diff(self.antiderivative(xs))
+        return np.diff(self.antiderivative(xs))
-- 
2.43.0

