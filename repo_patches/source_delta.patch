From 99317c8a3a0dc9d2471ef79e425aba1937619efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 01/23] fix: rebuild a Cosmology with gamma from its pytree
 leaves

list.reverse() returns None, so every jax transformation of a function
taking a Cosmology with a gamma parameter raised AttributeError.
---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 2f30d01abfb57fadadb600297458a3d2b309f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 02/23] fix: keep the biases of WeakLensing through jax
 transformations

The generic tree_unflatten passed (bins, multiplicative_bias[, ia_bias]) as
(bins, ia_bias[, multiplicative_bias]): the multiplicative bias was reset to
zero, or swapped with the IA bias, whenever the probe crossed jit, grad, vmap
or tree_map.
---
 jax_cosmo/probes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..a82fedc 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,17 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The parameters are not stored in the order of the constructor arguments
+        redshift_bins, multiplicative_bias, *ia_bias = children
+        return cls(
+            redshift_bins,
+            ia_bias=ia_bias[0] if ia_bias else None,
+            multiplicative_bias=multiplicative_bias,
+            **aux_data
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From 5250d803611b4843a3e5788e45af9870db7027e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 03/23] fix: no integer overflow in the lensing ell factor

With integer multipoles and the default 32 bit mode, the product of the four
ell terms overflowed for ell > 214, giving NaN or wrong lensing spectra.
---
 jax_cosmo/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index a82fedc..7922969 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -72,7 +72,7 @@ def weak_lensing_kernel(cosmo, pzs, z, ell):
     # Constant term
     constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
@@ -127,7 +127,7 @@ def nla_kernel(cosmo, pzs, bias, z, ell):
     # Constant factor
     constant_factor = 1.0
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
-- 
2.43.0


From 749663a7a1bc51732ff4a64bef533333a6107cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 04/23] fix: sign of the log determinant in the Gaussian log
 likelihood

log N(d; mu, C) = -1/2 (r^T C^-1 r + log det C) + const.
---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From 062d4a0d95cd370cd8498984343e4f981d8a606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 05/23] fix: integrate sigma(R) over the whole [kmin, kmax]
 range

The bounds were given in log10 while the integrand expects natural
logarithms, so that only 0.018 < k < 20 was integrated: linear power spectra
were normalised up to 5% too high, and sigma(R) was wrong by half at 100 Mpc/h.
---
 jax_cosmo/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 62dcfb7..416134b 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -75,7 +75,7 @@ def sigmasqr(cosmo, R, transfer_fn, kmin=0.0001, kmax=1000.0, ksteps=5, **kwargs
         pk = transfer_fn(cosmo, k, **kwargs) ** 2 * primordial_matter_power(cosmo, k)
         return k * (k * w) ** 2 * pk
 
-    y = romb(int_sigma, np.log10(kmin), np.log10(kmax), divmax=7)
+    y = romb(int_sigma, np.log(kmin), np.log(kmax), divmax=7)
     return 1.0 / (2.0 * np.pi**2.0) * y
 
 
-- 
2.43.0


From 83ffc77f83851f200de8a414bf4f82a6db7379f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 06/23] fix: evaluate delta_nz distributions

pz_fn compared z to the tuple of parameters, which raises TypeError.
---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From 9ead195c99f205c0560d30a837f2600b027b9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 07/23] fix: natural condition at the right end of cubic
 splines

The last equation imposed equal second derivatives at the last two knots
instead of a vanishing one at the last knot, as documented.
---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..c6817cd 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -206,7 +206,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From 5c1e6f1ec2d7a441d7ea08e2374aad4577387301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 08/23] fix: interpolate between the two knots that bracket the
 query point

interp extrapolated the second interval over the first one, so that it did not
even return fp[0] at xp[0], and for decreasing xp (a_of_chi, halofit) it used
the interval next to the right one for half of the query points.
---
 jax_cosmo/scipy/interpolate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index c6817cd..0ebd2b2 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -32,10 +32,9 @@ def interp(x, xp, fp):
 
     xi = xp[ind]
     # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
-    a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
-        xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
-    )
+    # (the other way around if xp is decreasing)
+    s = np.where((x - xi) * (xp[-1] - xp[0]) < 0, -1, 1)
+    a = (fp[ind + s] - fp[ind]) / (xp[ind + s] - xp[ind])
     b = fp[ind] - a * xp[ind]
     return a * x + b
 
-- 
2.43.0


From 1819575bf6755e5beb7dbad6ca9a62a59b240c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 09/23] fix: reject sparse products with different block sizes

When the total sizes matched, e.g. (1, 1, n) by (n, 1, 1), the diagonals were
silently broadcast and the result was wrong.
---
 jax_cosmo/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..b5be02f 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -116,6 +116,10 @@ def dot(*args):
             )
         if is_sparse(A):
             if is_sparse(B):
+                if A.shape[2] != B.shape[2]:
+                    raise ValueError(
+                        f"Blocks of A {A.shape} and B {B.shape} have different sizes."
+                    )
                 return sparse_dot_sparse(A, B)
             else:
                 return sparse_dot_vec(A, B) if B.ndim == 1 else sparse_dot_dense(A, B)
-- 
2.43.0


From 92a18f2867a29e4e46a164b6c7a1f9e61ad65c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 10/23] fix: determinant of sparse matrices with a singular
 trailing block

The block elimination inverts every trailing sub-matrix, so that invertible
matrices such as [[0, 1], [1, 0]] had a NaN determinant. Use one pivoted
determinant per diagonal index instead, which also supports singular matrices.
---
 jax_cosmo/sparse.py | 41 ++++-------------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index b5be02f..0b3e5f0 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -319,31 +317,12 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    The matrix is, up to a permutation, block diagonal with one small block
+    for each diagonal index, so this is the product of their determinants.
 
     Parameters
     ----------
@@ -357,17 +336,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -376,9 +346,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From 5b79f2cf75baa259f7f7ea42a06a1cde47b994ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 11/23] fix: derivatives of the transverse distance in flat
 cosmologies

The flat branch ignored Omega_k, so that the gradient and hessian of
transverse and angular diameter distances with respect to Omega_k were wrong
at Omega_k = 0. Use the expansion both curved branches have around zero.
---
 jax_cosmo/background.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..d0d5cb9 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -332,7 +332,9 @@ def transverse_comoving_distance(cosmo, a):
         return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # The derivatives with respect to Omega_k do not vanish at Omega_k = 0
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
-- 
2.43.0


From 805f49d04ef55d8b68b9b418ec85c37953b7e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 12/23] fix: accept integer scale factors

Integers cannot be raised to negative integer powers, so that for instance
nonlinear_matter_power(cosmo, k, a=1) raised TypeError.
---
 jax_cosmo/background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index d0d5cb9..bb97bff 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -120,8 +120,8 @@ def Esqr(cosmo, a):
     by :py:meth:`.f_de`.
     """
     return (
-        cosmo.Omega_m * np.power(a, -3)
-        + cosmo.Omega_k * np.power(a, -2)
+        cosmo.Omega_m * np.power(a, -3.0)
+        + cosmo.Omega_k * np.power(a, -2.0)
         + cosmo.Omega_de * np.exp(f_de(cosmo, a))
     )
 
@@ -165,7 +165,7 @@ def Omega_m_a(cosmo, a):
 
     see :cite:`2005:Percival` Eq. (6)
     """
-    return cosmo.Omega_m * np.power(a, -3) / Esqr(cosmo, a)
+    return cosmo.Omega_m * np.power(a, -3.0) / Esqr(cosmo, a)
 
 
 def Omega_de_a(cosmo, a):
-- 
2.43.0


From 2be38acb9b62450f5de52fa238620e28451a863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:39 +0000
Subject: [PATCH 13/23] fix: evaluate interpolated quantities at scalars and at
 any array shape

growth_factor and growth_rate raised ValueError for a scalar scale factor, and
an array whose last dimension matched the size of the table was silently
broadcast against the table. interp now flattens its query points.
---
 jax_cosmo/scipy/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 0ebd2b2..e5a1609 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -12,7 +12,6 @@ from jax.tree_util import register_pytree_node_class
 __all__ = ["interp"]
 
 
-@functools.partial(vmap, in_axes=(0, None, None))
 def interp(x, xp, fp):
     """
     Simple equivalent of np.interp that compute a linear interpolation.
@@ -22,8 +21,14 @@ def interp(x, xp, fp):
 
     TODO: Implement proper interpolation!
 
-    x, xp, fp need to be 1d arrays
+    xp, fp need to be 1d arrays, x can have any shape
     """
+    x = np.asarray(x)
+    return _interp(x.ravel(), xp, fp).reshape(x.shape)
+
+
+@functools.partial(vmap, in_axes=(0, None, None))
+def _interp(x, xp, fp):
     # First we find the nearest neighbour
     ind = np.argmin((x - xp) ** 2)
 
-- 
2.43.0


From 1673212e6ced677231a9963c09e7af6a40105465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 14/23] fix: do not reuse a distance table computed with other
 settings

radial_comoving_distance(cosmo, a, steps=8) silently replaced the table used
by every later distance computed from the same Cosmology object.
---
 jax_cosmo/background.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index bb97bff..cdf5cb6 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -219,8 +219,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    # Check if distances have already been computed, with the same table
+    cache = cosmo._workspace.get("background.radial_comoving_distance")
+    if cache is None or cache["grid"] != (log10_amin, steps):
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -232,10 +233,8 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         # np.clip(- 3000*np.log(atab), 0, 10000)#odeint(dchioverdlna, 0., np.log(atab), cosmo)
         chitab = chitab[-1] - chitab
 
-        cache = {"a": atab, "chi": chitab}
+        cache = {"a": atab, "chi": chitab, "grid": (log10_amin, steps)}
         cosmo._workspace["background.radial_comoving_distance"] = cache
-    else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
 
     a = np.atleast_1d(a)
     # Return the results as an interpolation of the table
@@ -259,9 +258,8 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
+    # Make sure that the default table of distances has been computed
+    radial_comoving_distance(cosmo, 1.0)
     cache = cosmo._workspace["background.radial_comoving_distance"]
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
-- 
2.43.0


From 1b6d6ef862c44641ea9773261613315bf62e7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 15/23] fix: do not leak tracers in the normalisation of
 redshift distributions

Calling a distribution inside jit, without passing it as an argument, stored a
tracer in it and made every later use raise UnexpectedTracerError.
---
 jax_cosmo/redshift.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..771aee1 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -3,6 +3,7 @@ from abc import ABC
 from abc import abstractmethod
 
 import jax.numpy as np
+from jax.core import Tracer
 from jax.tree_util import register_pytree_node_class
 
 from jax_cosmo.jax_utils import container
@@ -27,9 +28,13 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            # Do not keep a value that only exists within a JAX transformation
+            if not isinstance(norm, Tracer):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 81b7bd38e6d45ae3918fe600ee018be3a3e67473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:36 +0000
Subject: [PATCH 16/23] fix: do not leak tracers in the workspace of a
 Cosmology

Calling a distance or growth function inside jit, vmap of jit or lax.map with
a cosmology that is not an argument of the transformed function stored tracers
in its workspace, and every later use of that object raised
UnexpectedTracerError. Compute these tables outside of the transformation.
---
 jax_cosmo/background.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index cdf5cb6..e375259 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -1,4 +1,7 @@
 # This module implements various functions for the background COSMOLOGY
+import functools
+
+import jax
 import jax.numpy as np
 from jax import lax
 
@@ -22,6 +25,23 @@ __all__ = [
 ]
 
 
+def _concrete_table(fn):
+    """Decorator for functions fn(cosmo, a) which store a table in the workspace
+    of cosmo: when only a is traced by a JAX transformation, and not cosmo, the
+    table must not hold values that are meaningless outside of this transformation.
+    """
+
+    @functools.wraps(fn)
+    def wrapper(cosmo, a, *args, **kwargs):
+        traced = lambda x: isinstance(x, jax.core.Tracer)
+        if traced(np.zeros(())) and not any(map(traced, jax.tree_util.tree_leaves(cosmo))):
+            with jax.ensure_compile_time_eval():
+                fn(cosmo, 1.0, *args, **kwargs)
+        return fn(cosmo, a, *args, **kwargs)
+
+    return wrapper
+
+
 def w(cosmo, a):
     r"""Dark Energy equation of state parameter using the Linder
     parametrisation.
@@ -196,6 +216,7 @@ def Omega_de_a(cosmo, a):
     return cosmo.Omega_de * np.exp(f_de(cosmo, a)) / Esqr(cosmo, a)
 
 
+@_concrete_table
 def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
     r"""Radial comoving distance in [Mpc/h] for a given scale factor.
 
@@ -440,6 +461,7 @@ def growth_rate(cosmo, a):
         return _growth_rate_ODE(cosmo, a)
 
 
+@_concrete_table
 def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     """Compute linear growth factor D(a) at a given scale factor,
     normalised such that D(a=1) = 1.
@@ -512,6 +534,7 @@ def _growth_rate_ODE(cosmo, a):
     return interp(a, cache["a"], cache["f"])
 
 
+@_concrete_table
 def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
     r"""Computes growth factor by integrating the growth rate provided by the
     \gamma parametrization. Normalized such that D( a=1) =1
-- 
2.43.0


From e7f04ddae01524596fd9a87b8f0dcaac514daccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 17/23] fix: derivatives with respect to the scale factor at a
 = 1

The clipping of the interpolated distance and growth halved their
derivatives at the end of the tables.
---
 jax_cosmo/background.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index e375259..0ef40d3 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -25,6 +25,13 @@ __all__ = [
 ]
 
 
+def _clip(x, lo, hi=None):
+    """Clips the values of x, but not its derivatives: those at the limits of a table
+    (e.g. at a = 1) are not meant to depend on rounding errors.
+    """
+    return x + lax.stop_gradient(np.clip(x, lo, hi) - x)
+
+
 def _concrete_table(fn):
     """Decorator for functions fn(cosmo, a) which store a table in the workspace
     of cosmo: when only a is traced by a JAX transformation, and not cosmo, the
@@ -259,7 +266,7 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
     a = np.atleast_1d(a)
     # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    return _clip(interp(a, cache["a"], cache["chi"]), 0.0)
 
 
 def a_of_chi(cosmo, chi):
@@ -507,7 +514,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    return _clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -568,7 +575,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    return _clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
 def _growth_rate_gamma(cosmo, a):
-- 
2.43.0


From 44fc81702170cd23352823b006bf0dc2d7d139e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 18/23] fix: batch splines through jax transformations

---
 jax_cosmo/scipy/interpolate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index e5a1609..6702a41 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -243,8 +243,12 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # No call of the constructor: the leaves may be batched, or not be arrays
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints = aux_data["endpoints"]
+        spline.k = aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From ed443ef5eb8d21cc6f4e02fdef9a05649d8d24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 19/23] fix: interpolate numpy arrays

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 6702a41..b4b808e 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -23,7 +23,7 @@ def interp(x, xp, fp):
 
     xp, fp need to be 1d arrays, x can have any shape
     """
-    x = np.asarray(x)
+    x, xp, fp = np.asarray(x), np.asarray(xp), np.asarray(fp)
     return _interp(x.ravel(), xp, fp).reshape(x.shape)
 
 
-- 
2.43.0


From 00f6831df95b6adc77d2950f4d02828ced6cac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 20/23] fix: evaluate kde_nz at arrays of any shape

---
 jax_cosmo/redshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 771aee1..a7aac41 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -132,8 +132,9 @@ class kde_nz(redshift_distribution):
         w = np.atleast_1d(weight)
         q = np.sum(w)
         X = np.expand_dims(zcat, axis=-1)
-        k = self._kernel(self.config["bw"], X, z)
-        return np.dot(k.T, w) / (q)
+        z = np.atleast_1d(z)
+        k = self._kernel(self.config["bw"], X, z.ravel())
+        return (np.dot(k.T, w) / (q)).reshape(z.shape)
 
 
 @register_pytree_node_class
-- 
2.43.0


From fe75c1d590d621c57b1afcca39da10fc4b0bc9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 21/23] fix: covariance of spectra given as numpy arrays

---
 jax_cosmo/angular_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/angular_cl.py b/jax_cosmo/angular_cl.py
index 9e36b04..939e936 100644
--- a/jax_cosmo/angular_cl.py
+++ b/jax_cosmo/angular_cl.py
@@ -135,7 +135,7 @@ def gaussian_cl_covariance(ell, probes, cl_signal, cl_noise, f_sky=0.25, sparse=
     one = 1.0 if sparse else np.eye(n_ell)
 
     # Adding noise to auto-spectra
-    cl_obs = cl_signal + cl_noise
+    cl_obs = np.asarray(cl_signal) + np.asarray(cl_noise)
     n_cls = cl_obs.shape[0]
 
     # Normalization of covariance
-- 
2.43.0


From e6137d7d1f21048c0c667bdaba9f852fe3a7deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:38 +0000
Subject: [PATCH 22/23] fix: smith2003 halofit in universes with matter only

---
 jax_cosmo/power.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 416134b..cb09a56 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -178,7 +178,9 @@ def halofit(cosmo, k, a, transfer_fn, prescription="takahashi2012"):
     om_m = bkgrd.Omega_m_a(cosmo, a)
     om_de = bkgrd.Omega_de_a(cosmo, a)
     w = bkgrd.w(cosmo, a)
-    frac = om_de / (1.0 - om_m)
+    # Without anything but matter, this is the limit of flat cosmologies
+    only_m = om_m == 1.0
+    frac = np.where(only_m, 1.0, om_de / np.where(only_m, 1.0, 1.0 - om_m))
 
     if prescription == "smith2003":
         # eq C9 to C18
-- 
2.43.0


From 2475ae53b39353312597893fccdfd0f684020433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:38 +0000
Subject: [PATCH 23/23] fix: halofit of column vectors of wave numbers

---
 jax_cosmo/power.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index cb09a56..03b370c 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -167,10 +167,12 @@ def halofit(cosmo, k, a, transfer_fn, prescription="takahashi2012"):
     The non linear corrections are implemented following :cite:`2003:smith`
 
     """
+    k = np.atleast_1d(k)
     a = np.atleast_1d(a)
 
-    # Compute the linear power spectrum
+    # Compute the linear power spectrum, in the shape of k and a
     pklin = linear_matter_power(cosmo, k, a, transfer_fn)
+    pklin = pklin.reshape(np.broadcast_shapes(k.shape, a.shape))
 
     # Compute non linear scale, effective spectral index and curvature
     k_nl, n, C = _halofit_parameters(cosmo, a, transfer_fn)
-- 
2.43.0

