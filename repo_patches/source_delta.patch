From 5c0fe0d5a08df543d315ef30f392d0d0f1789ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 01/26] fix: Gaussian log-likelihood used only the diagonal of
 the Cholesky factor for dy > 1

---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..0e43e1f 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.lax.linalg.triangular_solve(chol, (x - mu)[:, None], left_side=True, lower=True)[:, 0]
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
-- 
2.43.0


From e0e37d23b2cf994a169b4309364ffae77f0090ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 02/26] fix: Kalman gain of kf/ekf/cd_ekf was wrong (or raised)
 for measurements of dimension > 1

---
 mfs/classical_filters_smoothers/gfs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 0e43e1f..38a464b 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -60,8 +60,7 @@ def _linear_predict(F: JArray, Sigma: JArray,
 
 def _linear_update(mp: JArray, vp: JArray,
                    H: JArray, pred_y: JArray, Xi: JArray, y: JArray) -> Tuple[JArray, JArray, JFloat]:
-    """Update for linear Gaussian measurement models
-    (note that here the dimension of the measurement variable is assumed to be 1).
+    """Update for linear Gaussian measurement models.
 
     Returns
     -------
@@ -75,7 +74,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From a290ee1c372b864aaea1a60c82eabeae8609876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 03/26] fix: 1D Normal-approximated conditional scaled moments
 were divided by the wrong power of the scale

---
 mfs/one_dim/moments.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..da05892 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,9 +202,8 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
-                          for p in range(num_moments)])[n] / s
+                          for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
@@ -240,8 +239,8 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
-        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
+        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p)
+                          for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
-- 
2.43.0


From cf538e1df3a3d22c71a80561e200c348ddc49d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 04/26] fix: the zeroth central moment of a Normal is one

---
 mfs/one_dim/moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index da05892..920c2db 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -31,7 +31,9 @@ from typing import Callable, Tuple
 def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """p-th central moment of Normal.
     """
-    if p % 2 == 0:
+    if p == 0:
+        return 1.
+    elif p % 2 == 0:
         scale = jnp.sqrt(variance)
         return scale ** p * scipy.special.factorial2(p - 1, exact=True)
     else:
-- 
2.43.0


From 233efd6424c316904f30c8b954c151ddabba2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 05/26] fix: Legendre expansion used moments of the unmapped
 variable when [a, b] is not [-1, 1]

---
 mfs/one_dim/pdf_approximations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..4037c31 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -123,8 +123,12 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     def legendre(k: int, x: FloatScalar) -> FloatScalar:
         return poly(k, jnp.array([x ** i for i in range(k + 1)]))
 
+    # Moments of the variable mapped from [a, b] to [-1, 1].
+    mapped_rms = [sum([math.comb(n, j) * (2 / (b - a)) ** j * (-(a + b) / (b - a)) ** (n - j) * rms[j]
+                       for j in range(n + 1)]) for n in range(num_moments)]
+
     def basis_coeff(k: int) -> FloatScalar:
-        return (2 * k + 1) / 2 * poly(k, rms)
+        return (2 * k + 1) / 2 * poly(k, mapped_rms)
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
-- 
2.43.0


From 7d5bb5b10bf15215bb138e53daa4576fc9e10877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 06/26] fix: saddle_point picked a coefficient, not a root, of
 the saddle equation

---
 mfs/one_dim/pdf_approximations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 4037c31..50ede83 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -181,13 +181,14 @@ def saddle_point(sms: JArray,
     dd_cgf = jax.grad(d_cgf)
 
     def find_nearest_real_root(roots, p):
-        infed_roots = jnp.where(jnp.abs(roots.imag) < 1e-8, roots, jnp.inf)
-        return jnp.real(roots[jnp.argmin(jnp.abs(infed_roots - (p + 0.j)))])
+        distances = jnp.where(jnp.abs(roots.imag) < 1e-8, jnp.abs(roots.real - p), jnp.inf)
+        return roots.real[jnp.argmin(distances)]
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
         saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        s = find_nearest_real_root(saddle_equation_poly, jnp.array([(x - mean) / scale ** 2])) / scale
+        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
+        s = find_nearest_real_root(roots, (x - mean) / scale) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From 9fb1fa5823c937a860a1ae7d50218825380d9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 07/26] fix: ldl_chol gave NaN gradients on indefinite matrices
 and singular factors on singular ones

---
 mfs/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..d5e8ea9 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -535,4 +535,5 @@ def ldl_chol(mat: JArray, eps: float = None) -> JArray:
     if eps is None:
         eps = 1e-8 * jnp.linalg.norm(mat, 'fro')
     l, d = ldl(mat)
-    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(d)))
+    is_positive = d > 0
+    return jnp.einsum('ij,j->ij', l, jnp.where(is_positive, jnp.sqrt(jnp.where(is_positive, d, 1.)), eps))
-- 
2.43.0


From e389bdfdc9891aeaaebfa65ae5203965ebc25d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 08/26] fix: GaussianSum1D.new read the variance out of bounds
 when N = 1

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index d5e8ea9..2b555cf 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum((variances + (means - centre) ** 2) * weights)
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From bc9ea300f48d0b59b3d3b29af98b09fe89418fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 09/26] fix: particle filters reused one random key for the
 initial samples, transitions and resampling

---
 mfs/classical_filters_smoothers/smc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mfs/classical_filters_smoothers/smc.py b/mfs/classical_filters_smoothers/smc.py
index a5ae85a..ec3a44c 100644
--- a/mfs/classical_filters_smoothers/smc.py
+++ b/mfs/classical_filters_smoothers/smc.py
@@ -63,21 +63,22 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray], JArray],
         samples, nell = carry
         y, _key = elem
 
-        samples = transition_sampler(samples, _key)
+        key_transition, key_resampling = jax.random.split(_key)
+        samples = transition_sampler(samples, key_transition)
 
         weights = measurement_cond_pdf(y, samples)
         nell -= jnp.log(jnp.mean(weights))
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
         if conti_resampling:
-            samples = continuous_resampling(samples, weights, nsamples, _key)
+            samples = continuous_resampling(samples, weights, nsamples, key_resampling)
         else:
-            samples = samples[resampling(weights, _key), ...]
+            samples = samples[resampling(weights, key_resampling), ...]
 
         return (samples, nell), samples
 
-    init_samples = init_sampler(key, nsamples)
+    key, key_init = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
 
     (*_, nell_ys), solution_samples = jax.lax.scan(scan_body, (init_samples, 0.), (ys, keys))
@@ -127,15 +128,16 @@ def particle_filter(proposal_sampler: Callable[[JArray, JArray, JArray], JArray]
         ancestors = carry
         y, _key = elem
 
-        samples = proposal_sampler(ancestors, y, _key)
+        key_proposal, key_resampling = jax.random.split(_key)
+        samples = proposal_sampler(ancestors, y, key_proposal)
         weights = measurement_cond_pdf(y, samples) * transition_density(samples, ancestors) \
                   / proposal_density(samples, ancestors, y)
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
-        samples = samples[resampling(weights, _key), ...]
+        samples = samples[resampling(weights, key_resampling), ...]
         return samples, samples
 
-    init_samples = init_sampler(key, nsamples)
+    key, key_init = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
     return jax.lax.scan(scan_body, init_samples, (ys, keys))[1]
-- 
2.43.0


From 07f847526e6257110d591fa530ef7297828cbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 10/26] fix: rounding of the cumulative weights let resampling
 select zero-weight samples

---
 mfs/classical_filters_smoothers/resampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index f2e4394..f91150d 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -46,8 +46,8 @@ def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool)
         u = jax.random.uniform(key, ())
     else:
         u = jax.random.uniform(key, (n,))
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
+    cs = jnp.cumsum(weights)
+    idx = jnp.searchsorted(cs, (jnp.arange(n, dtype=weights.dtype) + u) / n * cs[-1])
     return jnp.clip(idx, 0, n - 1)
 
 
@@ -61,8 +61,8 @@ def stratified(weights: JArray, key: JArray) -> JArray:
 
 def multinomial(weights: JArray, key: JArray) -> JArray:
     n = weights.shape[0]
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
+    cs = jnp.cumsum(weights)
+    idx = jnp.searchsorted(cs, _sorted_uniforms(n, key) * cs[-1])
     return jnp.clip(idx, 0, n - 1)
 
 
-- 
2.43.0


From 32d056a6262eeb5472b2897028bbf06ba5a4a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 11/26] fix: nd_cartesian_prod_2 did not return the Cartesian
 product

---
 mfs/multi_dims/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/quadratures.py b/mfs/multi_dims/quadratures.py
index 66e74ee..7341845 100644
--- a/mfs/multi_dims/quadratures.py
+++ b/mfs/multi_dims/quadratures.py
@@ -110,7 +110,7 @@ def nd_cartesian_prod_2(x: JArray) -> JArray:
     Not used. Used for comparison with a legacy implementation.
     """
     d = x.shape[0]
-    return jnp.array(jnp.meshgrid(*x)).reshape(-1, d)
+    return jnp.array(jnp.meshgrid(*x, indexing='ij')).reshape(d, -1).T
 
 
 def _chained_inner_products(x: JArray):
-- 
2.43.0


From 82e729a545d977b0ad285cbfd9ea1f4bcd6f7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:46 +0000
Subject: [PATCH 12/26] fix: convergence_mf.py shadowed the moment filters it
 calls and could not run

---
 dardel/convergence/convergence_mf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dardel/convergence/convergence_mf.py b/dardel/convergence/convergence_mf.py
index f62ecc1..91b4906 100644
--- a/dardel/convergence/convergence_mf.py
+++ b/dardel/convergence/convergence_mf.py
@@ -114,7 +114,7 @@ cms0 = jnp.array([central_moment_of_normal(var0, p) for p in range(num_moments)]
 
 # JIT filter routines
 @jax.jit
-def moment_filter_rms(_ys):
+def run_filter_rms(_ys):
     rmss, _ = moment_filter_rms(state_cond_raw_moments,
                                 measurement_cond_pdf,
                                 rms0,
@@ -123,7 +123,7 @@ def moment_filter_rms(_ys):
 
 
 @jax.jit
-def moment_filter_cms(_ys):
+def run_filter_cms(_ys):
     cmss, means, _ = moment_filter_cms(state_cond_central_moments,
                                        state_cond_mean,
                                        measurement_cond_pdf,
@@ -152,9 +152,9 @@ for k in range(num_mc):
 
     # Results from moment filter
     if mode == 'raw':
-        mfs, vfs = moment_filter_rms(ys)
+        mfs, vfs = run_filter_rms(ys)
     elif mode == 'central':
-        mfs, vfs = moment_filter_cms(ys)
+        mfs, vfs = run_filter_cms(ys)
     else:
         raise NotImplementedError(f'Mode {mode} not implemented.')
 
-- 
2.43.0


From 1c91ba3614341874b6270e307642026f5651bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:46 +0000
Subject: [PATCH 13/26] fix: ghf_ekf.py minimised the EKF objective and saved
 it as the Gauss--Hermite result

---
 dardel/parameter_estimation/ghf_ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dardel/parameter_estimation/ghf_ekf.py b/dardel/parameter_estimation/ghf_ekf.py
index 9d2244c..be2407e 100644
--- a/dardel/parameter_estimation/ghf_ekf.py
+++ b/dardel/parameter_estimation/ghf_ekf.py
@@ -89,7 +89,7 @@ ys = jax.random.poisson(key_ys, emission(xs, true_p2), (T,))
 
 # Run optimisation of GHF
 init_params = jnp.log(jnp.exp(jnp.array([args.p1_init, args.p2_init])) - 1.)
-opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ekf)
+opt_solver = jaxopt.ScipyMinimize(method='L-BFGS-B', jit=True, fun=obj_func_ghf)
 opt_params, opt_state = opt_solver.run(init_params,  ys)
 opt_params = jnp.log(jnp.exp(opt_params) + 1.)
 
-- 
2.43.0


From 29c186663b484add699edec2a6b3801dbbeefb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 14/26] fix: Gauss--Hermite rules overflowed int64 and turned
 complex for orders above 26

---
 .../quadratures.py                            | 37 +------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/mfs/classical_filters_smoothers/quadratures.py b/mfs/classical_filters_smoothers/quadratures.py
index 754f968..47a0a77 100644
--- a/mfs/classical_filters_smoothers/quadratures.py
+++ b/mfs/classical_filters_smoothers/quadratures.py
@@ -21,7 +21,7 @@ import jax
 import jax.numpy as jnp
 import numpy as np
 from mfs.typings import JArray
-from typing import Callable, NamedTuple, Union, List, Tuple
+from typing import Callable, NamedTuple, Union, Tuple
 from functools import partial
 
 __all__ = ['rk4_m_cov',
@@ -107,32 +107,6 @@ class SigmaPoints(NamedTuple):
     wc: Union[JArray, None]
     xi: JArray
 
-    @staticmethod
-    def _gen_hermite_poly_coeff(order: int) -> List[np.ndarray]:
-        """Give the 0 to p-th order physician Hermite polynomial coefficients, where p is the
-        order argument. The returned coefficients is ordered from highest to lowest.
-        Also note that this implementation is different from the np.hermite method.
-
-        Parameters
-        ----------
-        order : int
-            The order of Hermite polynomial
-
-        Returns
-        -------
-        H : List
-            The 0 to p-th order Hermite polynomial coefficients in a list.
-        """
-        H0 = np.array([1])
-        H1 = np.array([2, 0])
-
-        H = [H0, H1]
-
-        for i in range(2, order + 1):
-            H.append(2 * np.append(H[i - 1], 0) -
-                     2 * (i - 1) * np.pad(H[i - 2], (2, 0), 'constant', constant_values=0))
-        return H
-
     @classmethod
     def cubature(cls, d: int):
         """A factory method for generating spherical cubature :code:`SigmaPoints`.
@@ -164,17 +138,10 @@ class SigmaPoints(NamedTuple):
         """
         n_points = order ** d
 
-        hermite_coeff = cls._gen_hermite_poly_coeff(order)
-        hermite_roots = np.flip(np.roots(hermite_coeff[-1]))
+        hermite_roots, w_1d = np.polynomial.hermite.hermgauss(order)
 
         table = np.zeros(shape=(d, order ** d))
 
-        w_1d = np.zeros(shape=(order,))
-        for i in range(order):
-            w_1d[i] = (2 ** (order - 1) * np.math.factorial(order) * np.sqrt(np.pi) /
-                       (order ** 2 * (np.polyval(hermite_coeff[order - 1],
-                                                 hermite_roots[i])) ** 2))
-
         # Get roll table
         for i in range(d):
             base = np.ones(shape=(1, order ** (d - i - 1)))
-- 
2.43.0


From 5aa24ec73ba40b4af8cd1b054e5173c47aa1d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:47 +0000
Subject: [PATCH 15/26] fix: TME conditional moments were NaN at a state equal
 to the centring mean (or zero)

---
 mfs/multi_dims/moments.py |  7 ++++---
 mfs/one_dim/moments.py    |  8 ++++----
 mfs/utils.py              | 13 +++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 295f942..2b6059b 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -26,6 +26,7 @@ from scipy.special import comb as scipy_comb
 from scipy.special import factorial as scipy_factorial
 from typing import Sequence, Callable, Tuple, Union
 from mfs.multi_dims.multi_indices import find_indices
+from mfs.utils import int_power
 from functools import partial
 from mfs.typings import JArray, JFloat, Array, FloatScalar, JInt
 
@@ -446,7 +447,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JArray, multi_index: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(_x ** multi_index)
+            return jnp.prod(int_power(_x, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -454,7 +455,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JArray, multi_index: JArray, mean: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod((_x - mean) ** multi_index)
+            return jnp.prod(int_power(_x - mean, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -462,7 +463,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JArray, multi_index: JArray, mean: JArray, scale: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(((_x - mean) / scale) ** multi_index)
+            return jnp.prod(int_power((_x - mean) / scale, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 920c2db..ca76fee 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -22,7 +22,7 @@ import jax.numpy as jnp
 import scipy.linalg
 import tme.base_jax as tme
 from mfs.one_dim.quadtures import moment_quadrature
-from mfs.utils import partial_bell
+from mfs.utils import int_power, partial_bell
 from mfs.typings import JInt, IntScalar, JFloat, FloatScalar, JArray
 from functools import partial
 from typing import Callable, Tuple
@@ -148,7 +148,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JFloat, n: JInt) -> JFloat:
         def phi(u):
-            return u ** n
+            return int_power(u, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -156,7 +156,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JFloat, n: JInt, mean: FloatScalar) -> JFloat:
         def phi(u):
-            return (u - mean) ** n
+            return int_power(u - mean, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -164,7 +164,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         def phi(u):
-            return ((u - mean) / scale) ** n
+            return int_power((u - mean) / scale, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
diff --git a/mfs/utils.py b/mfs/utils.py
index 2b555cf..597cc50 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -36,6 +36,19 @@ def binom(n, k):
     return factorial(n) / (factorial(k) * factorial(n - k))
 
 
+@jax.custom_jvp
+def int_power(x, n):
+    """x ** n for non-negative (possibly traced) integers n, with finite derivatives of any order also at x = 0.
+    """
+    return x ** n
+
+
+@int_power.defjvp
+def _int_power_jvp(primals, tangents):
+    (x, n), (dx, _) = primals, tangents
+    return int_power(x, n), n * int_power(x, jnp.maximum(n - 1, 0)) * dx
+
+
 class GaussianSum1D(NamedTuple):
     """Unidimensional Gaussian-sum distribution.
     """
-- 
2.43.0


From aca3bc6bfc20f0971ade694f3669453957514660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:45 +0000
Subject: [PATCH 16/26] fix: rounding steps of the cumulative weights let
 resampling select zero-weight samples

---
 mfs/classical_filters_smoothers/resampling.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index f91150d..c3acb31 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -40,13 +40,18 @@ def _sorted_uniforms(n, key: JArray) -> JArray:
     return z[:-1] / z[-1]
 
 
+def _cumulative_weights(weights: JArray) -> JArray:
+    # The cumsum is not a left-to-right sum, so that its rounding can make steps also where the weight is zero.
+    return jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), -1.))
+
+
 def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
         u = jax.random.uniform(key, ())
     else:
         u = jax.random.uniform(key, (n,))
-    cs = jnp.cumsum(weights)
+    cs = _cumulative_weights(weights)
     idx = jnp.searchsorted(cs, (jnp.arange(n, dtype=weights.dtype) + u) / n * cs[-1])
     return jnp.clip(idx, 0, n - 1)
 
@@ -61,7 +66,7 @@ def stratified(weights: JArray, key: JArray) -> JArray:
 
 def multinomial(weights: JArray, key: JArray) -> JArray:
     n = weights.shape[0]
-    cs = jnp.cumsum(weights)
+    cs = _cumulative_weights(weights)
     idx = jnp.searchsorted(cs, _sorted_uniforms(n, key) * cs[-1])
     return jnp.clip(idx, 0, n - 1)
 
-- 
2.43.0


From 48e90e216b1af5d1d67c5d72f68ba67f093f58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 17/26] fix: multinomial resampling collapsed onto the first
 and last samples when a uniform draw was zero

---
 mfs/classical_filters_smoothers/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index c3acb31..5807bab 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -36,7 +36,7 @@ from mfs.typings import JArray
 def _sorted_uniforms(n, key: JArray) -> JArray:
     # Credit goes to Nicolas Chopin
     us = jax.random.uniform(key, (n + 1,))
-    z = jnp.cumsum(-jnp.log(us))
+    z = jnp.cumsum(-jnp.log1p(-us))  # us is in [0, 1)
     return z[:-1] / z[-1]
 
 
-- 
2.43.0


From 0e733948a39584fa94eff6fe91998e812d68edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 18/26] fix: saddle_point failed where the leading coefficients
 of the saddle equation vanish

---
 mfs/one_dim/pdf_approximations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 50ede83..b696d5c 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -186,9 +186,13 @@ def saddle_point(sms: JArray,
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
-        saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
-        s = find_nearest_real_root(roots, (x - mean) / scale) / scale
+        p = (x - mean) / scale
+        saddle_equation_poly = jnp.polyadd(-p * sms_poly, jnp.polyder(sms_poly))
+        # Solve for the reciprocals of the roots, because the leading coefficients vanish, e.g., for symmetric densities.
+        # At the mean, the root is zero and has no reciprocal.
+        reversed_poly = jnp.flip(saddle_equation_poly).at[0].set(jnp.where(p == 0., 1., saddle_equation_poly[-1]))
+        roots = 1. / jnp.roots(reversed_poly, strip_zeros=False)
+        s = jnp.where(p == 0., 0., find_nearest_real_root(roots, p)) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From bd642de537e5420c10dde05dca0e756adfbb9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:23 +0000
Subject: [PATCH 19/26] fix: prey_predator's simulate raised when the number of
 integration steps was given

---
 mfs/multi_dims/ss_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/multi_dims/ss_models.py b/mfs/multi_dims/ss_models.py
index ad58958..06ca25c 100644
--- a/mfs/multi_dims/ss_models.py
+++ b/mfs/multi_dims/ss_models.py
@@ -22,6 +22,7 @@ import jax.numpy as jnp
 import numpy as np
 from mfs.utils import GaussianSumND
 from mfs.typings import FloatScalar, JArray, JFloat
+from functools import partial
 from typing import Callable, Union, Tuple, NamedTuple
 
 
@@ -66,7 +67,7 @@ def prey_predator(multi_indices):
     def measurement_cond_pmf(y, x):
         return jax.scipy.stats.bernoulli.pmf(y, emission(x[0]))
 
-    @jax.jit
+    @partial(jax.jit, static_argnames=('integration_steps',))
     def simulate(key, integration_steps: int = 100):
         key_x0, key_ws, key_ys = jax.random.split(key, 3)
 
-- 
2.43.0


From d707e2e17c5f1ff07686046d2760e1fafece5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 20/26] fix: the resampling functions accept column weights
 again (convergence_pf.py could not run)

---
 mfs/classical_filters_smoothers/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index 5807bab..bda590a 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -42,7 +42,7 @@ def _sorted_uniforms(n, key: JArray) -> JArray:
 
 def _cumulative_weights(weights: JArray) -> JArray:
     # The cumsum is not a left-to-right sum, so that its rounding can make steps also where the weight is zero.
-    return jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), -1.))
+    return jax.lax.cummax(jnp.where(weights.ravel() > 0, jnp.cumsum(weights), -1.))
 
 
 def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool) -> JArray:
-- 
2.43.0


From 753eda90504501a265e03082fb4fbb7905a3dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 21/26] fix: Gaussian moments of high order overflowed the
 integer type of JAX

---
 mfs/one_dim/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index ca76fee..8d168ab 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -35,7 +35,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
         return 1.
     elif p % 2 == 0:
         scale = jnp.sqrt(variance)
-        return scale ** p * scipy.special.factorial2(p - 1, exact=True)
+        return scale ** p * float(scipy.special.factorial2(p - 1, exact=True))
     else:
         return 0.
 
@@ -72,7 +72,7 @@ def raw_moment_of_standard_normal(p: int) -> float:
 def raw_moment_of_normal(mean: FloatScalar, variance: FloatScalar, p: int) -> FloatScalar:
     """p-th moment of a Normal random variable given mean and variance.
     """
-    return sum([math.comb(p, m) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
+    return sum([float(math.comb(p, m)) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
                 for m in range(p + 1)])
 
 
-- 
2.43.0


From 68d201bb13db2f9389c588848b3f962572429233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 22/26] fix: conversions between 36 or more raw and central
 moments raised a TypeError

---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 8d168ab..43a3950 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -82,7 +82,7 @@ def _make_pascal_triangle(s: int) -> JArray:
     -----
     pascal() is not a JAX function, hence, cannot be jitted.
     """
-    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True))
+    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True).astype(float))
 
 
 def raw_to_central(rms: JArray) -> JArray:
-- 
2.43.0


From 16be3ce9361d1556fa400e88e7f292c2eba4f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 23/26] fix: Kan's moments of order 21 and higher raised a
 TypeError with JAX inputs

---
 mfs/multi_dims/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 2b6059b..2af3936 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -147,8 +147,8 @@ def raw_moments_mvn_kan(mean: Array, cov: Array, multi_index: Sequence[int]) ->
     signs = (-1) ** np.sum(vs, axis=1)
     combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
     quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).ravel() ** rs \
-                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True) * scipy_factorial(s - 2 * rs,
-                                                                                                    exact=True))
+                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True)
+                                                  * scipy_factorial(s - 2 * rs, exact=True)).astype(float)
     if isinstance(cov, np.ndarray):
         return np.einsum('i,i,i', signs, combs, quad_prods) * 1.
     else:
-- 
2.43.0


From db7539cb90f423b3f7aa4591aa8b157245cc10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 24/26] fix: the covariance of GaussianSumND cancelled for
 means far from the origin

---
 mfs/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 597cc50..1e36fd3 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -124,9 +124,8 @@ class GaussianSumND(NamedTuple):
         d = means.shape[1]
 
         centre = jnp.sum(means * weights[:, None], axis=0)
-        cov = sum(
-            [weight * (cov + jnp.outer(mean, mean)) for mean, cov, weight in zip(means, covs, weights)]) - jnp.outer(
-            centre, centre)
+        cov = sum([weight * (cov + jnp.outer(mean - centre, mean - centre)) for mean, cov, weight in
+                   zip(means, covs, weights)])
         l = [np.vectorize(raw_moments_mvn_kan, signature='(d),(d,d),(d)->()')(mean, cov, multi_indices) * weight for
              mean, cov, weight in zip(means, covs, weights)]
         rms = jnp.sum(jnp.vstack(l), axis=0)
-- 
2.43.0


From 7e25baca8ea12533284e5487091db0a082107d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 25/26] fix: sigma-point covariances cancelled (down to NaN)
 for states far from the origin

---
 mfs/classical_filters_smoothers/gfs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 38a464b..34a64ab 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -130,7 +130,7 @@ def _sgp_prediction(sgps: SigmaPoints,
 
     evals_of_m, evals_of_cov = vectorised_state_cond_m_cov(chi, dt)
     mp = sgps.expectation(evals_of_m)
-    vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m) + evals_of_cov) - jnp.outer(mp, mp)
+    vp = sgps.expectation(_vectorised_outer(evals_of_m - mp, evals_of_m - mp) + evals_of_cov)
     return mp, vp, chi, evals_of_m
 
 
@@ -172,10 +172,10 @@ def _sgp_update(sgps: SigmaPoints,
     evals_m, evals_Xi = vectorised_measurement_cond_m_cov(chi)
     pred = sgps.expectation(evals_m)
     if const_measurement_cov:
-        S = sgps.expectation(_vectorised_outer(evals_m, evals_m)) - jnp.outer(pred, pred) + evals_Xi[0]
+        S = sgps.expectation(_vectorised_outer(evals_m - pred, evals_m - pred)) + evals_Xi[0]
     else:
-        S = sgps.expectation(_vectorised_outer(evals_m, evals_m) + evals_Xi) - jnp.outer(pred, pred)
-    C = sgps.expectation(_vectorised_outer(chi, evals_m)) - jnp.outer(mp, sgps.expectation(evals_m))
+        S = sgps.expectation(_vectorised_outer(evals_m - pred, evals_m - pred) + evals_Xi)
+    C = sgps.expectation(_vectorised_outer(chi - mp, evals_m - pred))
 
     chol = jax.lax.linalg.cholesky(S)
     K = jax.scipy.linalg.cho_solve((chol, True), C.T).T
@@ -583,7 +583,7 @@ def sgp_smoother(state_cond_m_cov: Callable[[JArray, FloatScalar], Tuple[JArray,
         mf, vf = elem
 
         mp, vp, chi, evals_of_m = _sgp_prediction(sgps, vectorised_cond_m_cov, dt, mf, vf)
-        D = sgps.expectation(_vectorised_outer(chi, evals_of_m)) - jnp.outer(mf, mp)
+        D = sgps.expectation(_vectorised_outer(chi - mf, evals_of_m - mp))
 
         ms, vs = _gaussian_smoother_shared(D.T, mf, vf, mp, vp, ms, vs)
         return (ms, vs), (ms, vs)
-- 
2.43.0


From 5084121a3d59e6cc780fc75c4464da0ca9290648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:05 +0000
Subject: [PATCH 26/26] fix: moments of normals had NaN derivatives at zero
 variance

---
 mfs/one_dim/moments.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 43a3950..ae8093a 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -34,8 +34,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     if p == 0:
         return 1.
     elif p % 2 == 0:
-        scale = jnp.sqrt(variance)
-        return scale ** p * float(scipy.special.factorial2(p - 1, exact=True))
+        return variance ** (p // 2) * float(scipy.special.factorial2(p - 1, exact=True))
     else:
         return 0.
 
@@ -72,8 +71,8 @@ def raw_moment_of_standard_normal(p: int) -> float:
 def raw_moment_of_normal(mean: FloatScalar, variance: FloatScalar, p: int) -> FloatScalar:
     """p-th moment of a Normal random variable given mean and variance.
     """
-    return sum([float(math.comb(p, m)) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
-                for m in range(p + 1)])
+    return sum([float(math.comb(p, m)) * mean ** m * variance ** ((p - m) // 2) * raw_moment_of_standard_normal(p - m)
+                for m in range(p % 2, p + 1, 2)])
 
 
 def _make_pascal_triangle(s: int) -> JArray:
-- 
2.43.0

