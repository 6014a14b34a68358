From 879cf2c0cb83245f5b5121fbad91f524f56b93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 01/42] fix: cosmology tables extend far enough for distance
 queries and never lose resolution

---
 gwinferno/cosmology.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..753827e 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -39,6 +39,7 @@ class Cosmology(object):
         self.OmegaKappa = 1.0 - (self.OmegaMatter + self.OmegaRadiation + self.OmegaLambda)
         assert self.OmegaKappa == 0, "we only implement flat cosmologies! OmegaKappa must be 0"
 
+        self.dz = dz
         self.extend(max_z, dz=dz)
 
     @property
@@ -67,7 +68,9 @@ class Cosmology(object):
         integrate to solve for distance measures.
         """
 
-        self.z = jnp.arange(0, max_z, dz)
+        # keep the resolution already tabulated and make sure that max_z itself lies within the table
+        dz = min(dz, self.dz)
+        self.z = jnp.arange(0, max_z + dz, dz)
         Dc = jnp.zeros_like(self.z)
         Vc = jnp.zeros_like(self.z)
 
@@ -124,8 +127,8 @@ class Cosmology(object):
         returns redshifts for each DL specified.
         """
         max_DL = jnp.max(DL)
-        if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
+        while max_DL > jnp.max(self.DL):  # need to extend the integration
+            self.extend(max_z=2 * jnp.max(self.z), dz=dz)
         return jnp.interp(DL, self.DL, self.z)
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From c93b1a8a58f178b15691029d0abbd7ac4031efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 02/42] fix: low-mass smoothing window is 0 below and 1 above
 the smoothing region

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From 3323a333ed5ab9296bd7d5fe75ce6d0bd2109e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 03/42] fix: beta density is finite at the edges of its support
 for unit shape parameters

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..86558c3 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import xlogy
 
 """
 =============================================
@@ -157,6 +158,6 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
-    ln_beta = (alpha - 1) * jnp.log(xx) + (beta - 1) * jnp.log(scale - xx) - (alpha + beta - 1) * jnp.log(scale)
+    ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
     return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
-- 
2.43.0


From f94605683acf6990d26f8634152e001257610ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 04/42] fix: sine and cosine densities are normalized over and
 restricted to their bounds

---
 gwinferno/numpyro_distributions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..6821e61 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -47,8 +47,9 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
+        outside = jnp.less(value, self.minimum) | jnp.greater(value, self.maximum)
+        return jnp.where(jnp.isnan(lp) | outside, -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.cos(value) - jnp.cos(self.minimum)) / (jnp.cos(self.maximum) - jnp.cos(self.minimum)))
@@ -84,8 +85,9 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
+        outside = jnp.less(value, self.minimum) | jnp.greater(value, self.maximum)
+        return jnp.where(jnp.isnan(lp) | outside, -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.sin(value) - jnp.sin(self.minimum)) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
-- 
2.43.0


From e21114fcbaab54f3c5649c7967f1aa3649e2ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 05/42] fix: normalization constant of the power law with power
 law tails

---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 6821e61..9422a87 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -221,17 +221,17 @@ class PowerlawSmoothedPowerlaw(Distribution):
         batch_shape = broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(alpha), jnp.shape(alpha_max), jnp.shape(alpha_min))
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
-        self.k1 = -gamma / (
+        self.k1 = gamma / (
             1
             + gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-            * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
+            * (self.maximum ** (self.alpha + 1) - self.minimum ** (self.alpha + 1))
             + gamma
             / (self.alpha_max + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
             * self.maximum ** (self.alpha - self.alpha_max)
-            * (self.maximum ** (self.alpha_max + 1) - self.high ** (self.alpha_max + 1))
+            * (self.high ** (self.alpha_max + 1) - self.maximum ** (self.alpha_max + 1))
         )
         self.k2 = self.k1 * self.minimum ** (self.alpha_min - self.alpha)
         self.k3 = self.k2 * self.maximum ** (self.alpha - self.alpha_max)
-- 
2.43.0


From 9fec2ea428b6bda16a4879b2faaa717d2305daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 06/42] fix: natural cubic spline applies the natural condition
 at its right end

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..055cf53 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From 768b08e46bdb32288aa986220f482edd7b7240f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 07/42] fix: natural cubic spline can be passed through jax
 transformations

---
 gwinferno/interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 055cf53..06c8016 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,12 +43,14 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
+    def tree_unflatten(cls, aux_data, children):
         x, y, coefs = children
-        return cls(x, y, coefs)
+        spline = object.__new__(cls)
+        spline.k, spline._x, spline._y, spline._coefficients = 3, x, y, coefs
+        return spline
 
     def __call__(self, x):
         t, a, b, c, d = self._compute_coeffs(x)
-- 
2.43.0


From 5368fcce5796f1100ebe9f978936a8ffc6467dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 08/42] fix: basis splines place their knots at the requested
 interior knots

---
 gwinferno/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 06c8016..4c03709 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -101,7 +101,8 @@ class BasisSpline(object):
             if interior_knots is None:
                 interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
             dx = interior_knots[1] - interior_knots[0]
-            knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+            pad = dx * np.arange(1, k)
+            knots = jnp.concatenate([xrange[0] - pad[::-1], jnp.asarray(interior_knots), xrange[1] + pad])
 
         self.knots = knots
         self.interior_knots = interior_knots
-- 
2.43.0


From 696c61b7b778dc54ee6e1356a2c143bedf2031e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 09/42] fix: 2D basis spline design matrix can be built and is
 indexed (x, y)

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 4c03709..665619d 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -522,10 +522,10 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From 99cb609fce150fbc68f48f60b58f5b1e3948d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 10/42] fix: power law with spline perturbation models honour
 the spline order and can be constructed

---
 gwinferno/models/spline_perturbation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..fa8730c 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -54,7 +54,7 @@ class PowerlawBasisSplinePrimaryPowerlawRatio(object):
             ]
         )
         self.knots = knots
-        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=4, **kwargs)
+        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=k, **kwargs)
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
         self.dmats = [self.inj_design_matrix, self.pe_design_matrix]
@@ -202,7 +202,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsm,
             interior_knots=interior_mknots,
             xrange=(np.log(mmin), np.log(mmax)),
-            k=4,
+            k=k,
         )
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
@@ -212,12 +212,11 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsq,
             interior_knots=interior_qknots,
             xrange=(0, 1),
-            k=4,
+            k=k,
         )
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
-- 
2.43.0


From c1b5889c83d04e503fa55b5cbc8256ffdef54ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 11/42] fix: B-spline redshift normalization integrates the
 same density that is evaluated

---
 gwinferno/models/bsplines/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..bea31c5 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -464,7 +464,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
             self.zgrid,
         )
 
-- 
2.43.0


From fde4778465b3b0d26e01b9e4c8b81e4e77a65c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 12/42] fix: basis functions of integer valued inputs are not
 truncated to zero

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 665619d..5974d9c 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -142,9 +142,9 @@ class BasisSpline(object):
             array_like: the ith basis component of order k evaluated at xs
         """
         if self.knots[i + k] - self.knots[i] < 1e-6:
-            return np.zeros_like(xs)
+            return np.zeros_like(xs, dtype=np.promote_types(xs.dtype, np.float32))
         elif k == 1:
-            v = np.zeros_like(xs)
+            v = np.zeros_like(xs, dtype=np.promote_types(xs.dtype, np.float32))
             v[(xs >= self.knots[i]) & (xs < self.knots[i + 1])] = 1 / (self.knots[i + 1] - self.knots[i])
             return v
         else:
-- 
2.43.0


From 30b0bb50abeb576547f0e2673e0f4c57d59d8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 13/42] fix: parameters sharing a model are evaluated with the
 model they share

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..2e749e5 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -392,7 +392,7 @@ def construct_hierarchical_model(
                     hps["grid"] = z_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 625622cdc56f6044cdb433a0b7ba02a9e89f1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 14/42] fix: configured redshift models receive the grid and
 volume element they need

---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 2e749e5..e72105b 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology as Planck15
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -370,6 +371,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = Planck15.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -389,7 +391,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[k] = v
-- 
2.43.0


From 7908554538ff0d314b3f1bd696ea846b8e083992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 15/42] fix: configured models without a redshift model can be
 evaluated

---
 gwinferno/pipeline/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index e72105b..d60c2de 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -410,7 +410,8 @@ def construct_hierarchical_model(
             total_inj=Ninj,
             Nobs=Nobs,
             Tobs=Tobs,
-            surveyed_hypervolume=pop_models["redshift"].norm,
+            surveyed_hypervolume=pop_models["redshift"].norm if "redshift" in pop_models else None,
+            reconstruct_rate="redshift" in pop_models,
             marginalize_selection=marginalize_selection,
             min_neff_cut=min_neff_cut,
             max_variance_cut=max_variance_cut,
-- 
2.43.0


From 3e6ab31abb2c49b0a89b1fa074b5cce7c1cfd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 16/42] fix: model files are loaded from the given path
 whatever was imported before

---
 gwinferno/pipeline/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..c5a6af9 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -2,9 +2,12 @@
 a module that stores tools for parsing CLI arguments and config files for analysis pipelines
 """
 
+import os
 import sys
 from argparse import ArgumentParser
 from importlib import import_module
+from importlib.util import module_from_spec
+from importlib.util import spec_from_file_location
 
 import jax.numpy as jnp
 import yaml
@@ -32,10 +35,12 @@ class PopMixtureModel(PopModel):
 
 
 def load_model_from_python_file(path):
-    fn = path.split("/")[-1]
-    direct = path.replace(f"/{fn}", "")
-    sys.path.append(direct)
-    return getattr(import_module(fn.replace(".py", "")), "model")
+    fn = os.path.basename(path)
+    sys.path.append(os.path.dirname(path))
+    spec = spec_from_file_location(os.path.splitext(fn)[0], path)
+    module = module_from_spec(spec)
+    spec.loader.exec_module(module)
+    return getattr(module, "model")
 
 
 def load_dist_from_string(dist):
-- 
2.43.0


From ca87e39d40ca56aad37e3c116a38d328264e01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 17/42] fix: the number of observations excludes ignored events

---
 gwinferno/pipeline/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..8c1f446 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -77,10 +77,12 @@ def load_pe_and_injections_as_dict(file, ignore=None):
     if ignore is not None:
         sel = np.zeros(data.pe_data["event"].values.shape, dtype=bool)
         for gw in ignore:
-            sel += data.pe_data["event"] == gw
+            sel |= data.pe_data["event"].values == gw
         sel = ~sel
+        nObs = int(sel.sum())
         pedict = {k: jnp.asarray(data.pe_data.posteriors.sel(param=k).values[sel]) for k in data.pe_data.param.values}
     else:
+        nObs = data.pe_data.posteriors.shape[0]
         pedict = {k: jnp.asarray(data.pe_data.posteriors.sel(param=k).values) for k in data.pe_data.param.values}
 
     injdict = {k: jnp.asarray(data.inj_data.injections.sel(param=k).values) for k in data.inj_data.param.values}
@@ -89,7 +91,6 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From b36c1ecda42af85f52be5b9fae6882507dc54f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 18/42] fix: subpopulation pdf export keeps the redshift pdfs
 and the caller's dictionary

---
 gwinferno/pipeline/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 8c1f446..36c26f5 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -237,8 +237,8 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         xr_dict = xr_dict | pdfs
     else:
         z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = xr_dict | z
+        pdf_dict = {key: item for key, item in pdf_dict.items() if key != "redshift"}
         for i, nm in enumerate(subpop_names):
             single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
             xr_dict = xr_dict | single
-- 
2.43.0


From d965f0bc0df2eaeaa3074c03bb1f5e05a9b6e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 19/42] fix: exporting posteriors leaves the caller's
 dictionary untouched

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 36c26f5..537ddec 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -219,15 +219,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    xr_dict = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        xr_dict[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if posteriors[key].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key].shape) - 1)]
+            xr_dict[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(xr_dict)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From 4b5db53e95f77b9916f3bed2aec14450e182b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 20/42] fix: beta shape conversion does not modify its
 arguments in place

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From 5a9fde7c7ec16729181878844beb56589c6d894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 21/42] fix: projecting a basis spline does not modify the
 coefficients in place

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 5974d9c..b87d984 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -206,7 +206,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs /= jnp.sum(coefs)
+        coefs = coefs / jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0


From bcfc03ed596f2506e21583be8cb2b4560e007ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 22/42] fix: effective precession samples keep their event and
 sample axes

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..758ee4e 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -339,7 +339,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From a4e2e780330336d9df04d26524e97d77c124ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 23/42] fix: injections without in-plane spin components can be
 read

---
 gwinferno/preprocess/selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..14b4f51 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,6 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros(found.shape))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros(found.shape))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From 0f1ae5024bd3886cac22fbad1dfa638c10d3bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 24/42] fix: numbers of splines given on the command line are
 integers

---
 gwinferno/pipeline/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 537ddec..cc4fe79 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -26,11 +26,11 @@ def load_base_parser():
     )
     parser.add_argument("--run-label", type=str)
     parser.add_argument("--result-dir", type=str)
-    parser.add_argument("--m-nsplines", type=str, default=50)
-    parser.add_argument("--q-nsplines", type=str, default=30)
-    parser.add_argument("--a-nsplines", type=str, default=16)
-    parser.add_argument("--tilt-nsplines", type=str, default=16)
-    parser.add_argument("--z-nsplines", type=str, default=20)
+    parser.add_argument("--m-nsplines", type=int, default=50)
+    parser.add_argument("--q-nsplines", type=int, default=30)
+    parser.add_argument("--a-nsplines", type=int, default=16)
+    parser.add_argument("--tilt-nsplines", type=int, default=16)
+    parser.add_argument("--z-nsplines", type=int, default=20)
     parser.add_argument("--mmin", type=float, default=3.0)
     parser.add_argument("--mmax", type=float, default=100.0)
     parser.add_argument("--chains", type=int, default=1)
-- 
2.43.0


From 27f7d2f11e8c4c1bac483b46fb5163e1cd8a14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 25/42] fix: isotropic effective spin prior handles case
 boundaries for arrays of mass ratios

---
 gwinferno/preprocess/priors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..8515b39 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -95,7 +95,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         Prior density at given effective spin value(s).
     """
     # Ensure that `chi_eff` is an array and take absolute value
-    chi_eff = np.abs(np.atleast_1d(chi_eff))
+    chi_eff, q = np.broadcast_arrays(np.abs(np.atleast_1d(chi_eff)), q)
 
     # Set up various piecewise cases
     # pdfs = np.ones(chi_eff.size, dtype=complex) * (-1.0)
@@ -183,8 +183,8 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From e9dc10e65b61a146dce08752844e202dfc3cb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 26/42] fix: largest effective precession allowed by an
 effective spin scales with the maximum spin

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 8515b39..a44be99 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -317,7 +317,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0


From aa059e1d40ad7d4643e90cf2d77990ffb1c71c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 27/42] fix: samples at the maximum mass are kept whatever the
 other samples are

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 758ee4e..d0b239c 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -70,7 +70,7 @@ def processed_catalog_dataset_from_dict(catalog_dict, mmax=100.0):
             if np.sum(catalog_dict[ev]["posterior"][param_mapping["mass_1"]] > mmax) > 0:
                 print(np.sum(catalog_dict[ev]["posterior"][param_mapping["mass_1"]] > mmax))
                 print(f"removing samples from {ev} with mass_1 > {mmax}")
-                sel = catalog_dict[ev]["posterior"][param_mapping["mass_1"]] < mmax
+                sel = catalog_dict[ev]["posterior"][param_mapping["mass_1"]] <= mmax
 
             data = np.array([catalog_dict[ev]["posterior"][param_mapping[param]][sel] for param in list(param_mapping.keys())])
 
-- 
2.43.0


From aed395a4de0bf52f7f6cdc757e4f1b99c8db8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 28/42] fix: injection effective sample size does not under- or
 overflow for log weights

---
 gwinferno/pipeline/analysis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index d60c2de..81faa59 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -124,10 +124,9 @@ def detection_efficiency(weights, Ninj, log=False):
     """
     if log:
         logweights = weights
-        logmu = logsumexp(logweights) - jnp.log(Ninj)
-        mu = jnp.exp(logmu)
-        var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / Ninj
-        logn_eff = 2 * logmu - jnp.log(var)
+        logsum = logsumexp(logweights)
+        logmu = logsum - jnp.log(Ninj)
+        logn_eff = -jnp.log(jnp.exp(logsumexp(2 * logweights) - 2 * logsum) - 1 / Ninj)
     else:
         mu = jnp.sum(weights) / Ninj
         var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
-- 
2.43.0


From 898c89b3aef1d7a7c649fbcd303920a43bb5caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 29/42] fix: mixture models can be shared with another
 parameter

---
 gwinferno/pipeline/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index c5a6af9..87a74f7 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -119,8 +119,9 @@ class ConfigReader(object):
             for hp in subd[name]["hyper_params"]:
                 self.add_prior(f"{param}_component_{i + 1}_{hp}", subd[name]["hyper_params"][hp])
         self.models[param] = PopMixtureModel(model, mix_dist, mix_params, components, component_params)
-        if "iid" in subd[name]:
-            self.add_iid_model(param, subd[name]["iid"]["shared_parameter"])
+        iid = subd.get("iid", subd[name].get("iid"))
+        if iid is not None:
+            self.add_iid_model(param, iid["shared_parameter"])
 
 
 def load_base_parser():
-- 
2.43.0


From 8ea7c514a239c8f91b63862c76b9e5a1203f8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:18 +0000
Subject: [PATCH 30/42] fix: squared number of injections does not overflow
 32-bit integers

---
 gwinferno/pipeline/analysis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 81faa59..ae186c6 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -128,10 +128,9 @@ def detection_efficiency(weights, Ninj, log=False):
         logmu = logsum - jnp.log(Ninj)
         logn_eff = -jnp.log(jnp.exp(logsumexp(2 * logweights) - 2 * logsum) - 1 / Ninj)
     else:
-        mu = jnp.sum(weights) / Ninj
-        var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
-        logmu = jnp.log(mu)
-        logn_eff = 2 * logmu - jnp.log(var)
+        sumw = jnp.sum(weights)
+        logmu = jnp.log(sumw / Ninj)
+        logn_eff = -jnp.log(jnp.sum(weights**2) / sumw**2 - 1 / Ninj)
     variance = 1 / jnp.exp(logn_eff) - 1 / Ninj
     return logmu, logn_eff, variance
 
-- 
2.43.0


From 60462ba2df8b72273c538966e178085b3eefc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 31/42] fix: power law with slope -1 given as a plain number
 does not divide by zero

---
 gwinferno/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 86558c3..969efef 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -110,10 +110,11 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
         floor (float, optional): lower bound of pdf (Defaults to 0.0)
     """
     prob = jnp.power(xx, alpha)
+    index = jnp.where(alpha == -1, 1.0, 1 + alpha)
     norm = jnp.where(
         alpha == -1,
-        1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        1 / jnp.log(jnp.divide(high, low)),
+        index / (high**index - low**index),
     )
     prob *= norm
 
-- 
2.43.0


From d9ed270338140d0e53311f5bbee74d5a4982ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 32/42] fix: joint perturbed mass and ratio normalization is
 finite on its grid edge

---
 gwinferno/models/spline_perturbation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index fa8730c..54d80df 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -256,7 +256,8 @@ class PowerlawBasisSplinePrimaryRatio(object):
         """
         p_m = powerlaw_pdf(self.mm, alpha=-alpha, low=mmin, high=mmax)
         perturbation = jnp.exp(self.interpolator.project(self.norm_design_matrix, cs))
-        p_q = powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1)
+        has_secondary = self.mm > mmin
+        p_q = jnp.where(has_secondary, powerlaw_pdf(self.qq, alpha=beta, low=jnp.where(has_secondary, mmin / self.mm, 0.5), high=1), 0)
         qperturbation = jnp.exp(self.qinterpolator.project(self.qnorm_design_matrix, vs))
         p_mq = p_m * perturbation * p_q * qperturbation
         return trapezoid(trapezoid(p_mq, self.qs, axis=0), self.ms)
-- 
2.43.0


From b46b25f4fdb0ea7701085545afe2bd673ae74843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:23 +0000
Subject: [PATCH 33/42] fix: sampler power law is normalized at slope -1 and
 accepts plain numbers

---
 gwinferno/numpyro_distributions.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 9422a87..7a6f5e2 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -126,11 +126,16 @@ class Powerlaw(Distribution):
         assert is_prng_key(key)
         return self.icdf(random.uniform(key, shape=sample_shape + self.batch_shape))
 
+    def _index(self):
+        # 1 + alpha, replaced where the closed forms degenerate (the logarithmic ones are used there instead)
+        return jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)
+
     @validate_sample
     def log_prob(self, value):
+        index = self._index()
         logp = self.alpha * jnp.log(value)
-        logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp = logp + jnp.log(index / (self.maximum**index - self.minimum**index))
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(jnp.divide(self.maximum, self.minimum)))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
@@ -138,20 +143,18 @@ class Powerlaw(Distribution):
         )
 
     def cdf(self, value):
-        cdf = jnp.atleast_1d(value ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)) / (
-            self.maximum ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)
-        )
-        cdf_neg1 = jnp.log(value / self.minimum) / jnp.log(self.maximum / self.minimum)
+        index = self._index()
+        cdf = jnp.atleast_1d(value**index - self.minimum**index) / (self.maximum**index - self.minimum**index)
+        cdf_neg1 = jnp.log(jnp.divide(value, self.minimum)) / jnp.log(jnp.divide(self.maximum, self.minimum))
         cdf = jnp.where(jnp.equal(self.alpha, -1.0), cdf_neg1, cdf)
         cdf = jnp.minimum(cdf, 1.0)
         cdf = jnp.maximum(cdf, 0.0)
         return cdf
 
     def icdf(self, q):
-        icdf = (self.minimum ** (1.0 + self.alpha) + q * (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha))) ** (
-            1.0 / (1.0 + self.alpha)
-        )
-        icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
+        index = self._index()
+        icdf = (self.minimum**index + q * (self.maximum**index - self.minimum**index)) ** (1.0 / index)
+        icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(jnp.divide(self.maximum, self.minimum)))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
 
 
-- 
2.43.0


From a06b49baac5ea5ac0fced345f919833c080b1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:35 +0000
Subject: [PATCH 34/42] fix: isotropic prior is finite where the secondary's
 largest spin alone gives the effective spin

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index a44be99..25ab7b5 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -103,7 +103,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     caseA = (chi_eff > 0) * (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
     caseB = (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseC = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
-    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff >= q * a_max / (1.0 + q))
+    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseE = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > a_max / (1.0 + q)) * (chi_eff < a_max)
     caseF = chi_eff >= a_max
 
-- 
2.43.0


From 2cefbd1e81a5116be444fd0a271d8ea22e5d8443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:48 +0000
Subject: [PATCH 35/42] fix: effective precession can be requested for
 posteriors and injections

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index d0b239c..8c2d8be 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -249,7 +249,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             np.array(q[ii]),
                             a_max=1.0,
                         )
-                    )
+                    )[0]
                 )
             else:
 
@@ -280,7 +280,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 np.array(q[ii][jj]),
                                 a_max=1.0,
                             )
-                        )
+                        )[0]
                     )
                 else:
                     new_prior[ii][jj] = (
-- 
2.43.0


From 33183fcd2a0d7f2a64686ece836034c5d4ae6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:23 +0000
Subject: [PATCH 36/42] fix: plots can be switched off on the command line

---
 gwinferno/pipeline/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index cc4fe79..6f4fc1f 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -1,4 +1,5 @@
 from argparse import ArgumentParser
+from argparse import ArgumentTypeError
 
 import arviz as az
 import jax.numpy as jnp
@@ -18,6 +19,14 @@ from gwinferno.models.bsplines.smoothing import apply_difference_prior
 from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
 
 
+def str_to_bool(value):
+    if value.lower() in ("true", "t", "yes", "y", "1"):
+        return True
+    if value.lower() in ("false", "f", "no", "n", "0"):
+        return False
+    raise ArgumentTypeError(f"expected a boolean but got {value}")
+
+
 def load_base_parser():
     parser = ArgumentParser()
     parser.add_argument(
@@ -39,7 +48,7 @@ def load_base_parser():
     parser.add_argument("--warmup", type=int, default=1000)
     parser.add_argument("--skip-inference", action="store_true", default=False)
     parser.add_argument("--rngkey", type=int, default=1)
-    parser.add_argument("--save-plots", type=bool, default=True)
+    parser.add_argument("--save-plots", type=str_to_bool, default=True)
     return parser
 
 
-- 
2.43.0


From 5c6fb0bd84ee80641c40ddb6d8ff0552b74b665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:11 +0000
Subject: [PATCH 37/42] fix: low-mass smoothing window has finite gradients at
 the ends of the smoothing region

---
 gwinferno/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 969efef..14389f6 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import expit
 from jax.scipy.special import xlogy
 
 """
@@ -16,10 +17,12 @@ This file contains some functions copied from https://github.com/ColmTalbot/gwpo
 
 def smooth(dx, x, xmin):
 
-    func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
-    s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
-    return s2
+    t = x - xmin
+    inside = jnp.greater(t, 0) & jnp.less(t, dx)
+    # samples outside of the smoothing region are kept away from the poles of the window so that gradients are finite
+    t = jnp.where(inside, t, dx / 2)
+    s1 = jnp.where(jnp.less(x, xmin) | (jnp.equal(x, xmin) & jnp.greater(dx, 0)), 0, 1)
+    return jnp.where(inside, expit(-(dx / t + dx / (t - dx))), s1)
 
 
 def logistic_function(x, L, k, x0):
-- 
2.43.0


From 0e28220838e3547fdbc20b4300e622baf0228870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:12 +0000
Subject: [PATCH 38/42] fix: logistic truncations have finite gradients far
 from their midpoint

---
 gwinferno/distributions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 14389f6..be3d4a7 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -3,6 +3,7 @@ a module for basic distribution pdf calculations with jax
 """
 
 import jax.numpy as jnp
+from jax.nn import log_sigmoid
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
 from jax.scipy.special import expit
@@ -38,7 +39,7 @@ def logistic_function(x, L, k, x0):
     Returns:
         array_like: logistic function evaluated at x
     """
-    return L / (1 + jnp.exp(-k * (x - x0)))
+    return L * expit(k * (x - x0))
 
 
 def logistic_unit(x, x0, sgn=1, sc=4):
@@ -68,12 +69,7 @@ def log_logistic_unit(x, x0, sgn=1, sc=4):
     Returns:
         array_like: input array with the soft truncation at x0 applied
     """
-    diff = x - x0
-    return jnp.where(
-        jnp.less(diff * sgn * sc, 0),
-        jnp.log(logistic_unit(x, x0, sgn=sgn, sc=sc)),
-        -sgn * sc * (x - x0) + jnp.log(logistic_unit(x, x0, sgn=-sgn, sc=sc)),
-    )
+    return log_sigmoid(-sgn * sc * (x - x0))
 
 
 def powerlaw_logit_pdf(xx, alpha, low=None, high=None, low_fall_off=4.0, high_fall_off=4.0):
-- 
2.43.0


From 941b646eee11d7caebffc64696ff30f2e60310d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 39/42] fix: plots are saved before they are shown

---
 gwinferno/postprocess/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/postprocess/plot.py b/gwinferno/postprocess/plot.py
index d897fa2..20bb5f7 100644
--- a/gwinferno/postprocess/plot.py
+++ b/gwinferno/postprocess/plot.py
@@ -24,9 +24,9 @@ def plot_mass_pdfs(mpdfs, qpdfs, m1, q, names, label, result_dir, save=True, col
     plt.xlabel("m1")
     plt.legend()
     plt.xlim(m1[0], m1[-1])
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/mass_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
     plt.figure(figsize=(10, 7))
@@ -37,9 +37,9 @@ def plot_mass_pdfs(mpdfs, qpdfs, m1, q, names, label, result_dir, save=True, col
     plt.xlabel("q")
     plt.legend()
     plt.xlim(0, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/mass_ratio_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
 
@@ -57,9 +57,9 @@ def plot_spin_pdfs(a_pdfs, tilt_pdfs, aa, cc, names, label, result_dir, save=Tru
     plt.xlabel(f"a{comp}")
     plt.legend()
     plt.xlim(0, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/spin_mag{comp}_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
     plt.figure(figsize=(10, 7))
@@ -69,9 +69,9 @@ def plot_spin_pdfs(a_pdfs, tilt_pdfs, aa, cc, names, label, result_dir, save=Tru
     plt.xlabel(rf"cos$\theta${comp}")
     plt.legend()
     plt.xlim(-1, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/cos_tilt{comp}_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
 
@@ -84,7 +84,7 @@ def plot_rate_of_z_pdfs(z_pdfs, z, label, result_dir, save=True):
     plt.legend()
     plt.xlim(z[0], 1.5)
     plt.ylim(5, 1e3)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/redshift_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
-- 
2.43.0


From 962d09290c27500eff184d9bd804654b2a9c72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 40/42] fix: posterior predictive draws with categorical
 assignments use the assigned weights

---
 gwinferno/pipeline/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index ae186c6..f5a70d2 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -249,8 +249,8 @@ def hierarchical_likelihood(
                 dist.Categorical(probs=jnp.array(pop_frac)),
                 rng_key=rngkey,
             ).reshape((-1, 1))
-            mix_pe_weights = jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])
-            logBFs, logn_effs, variances = per_event_log_bayes_factors(mix_pe_weights, log=log)
+            pe_weights = jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])
+            logBFs, logn_effs, variances = per_event_log_bayes_factors(pe_weights, log=log)
     else:
 
         logBFs, logn_effs, variances = per_event_log_bayes_factors(pe_weights, log=log)
-- 
2.43.0


From 0281c78184adffdabde6b7253d15cbe887b958de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 41/42] fix: posterior predictive draws do not under- or
 overflow for log weights

---
 gwinferno/pipeline/analysis.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index f5a70d2..d6748c4 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -9,6 +9,7 @@ import numpyro
 import numpyro.distributions as dist
 from jax import jit
 from jax import random
+from jax.nn import softmax
 from jax.scipy.special import logsumexp
 from numpyro.infer import SVI
 from numpyro.infer import Trace_ELBO
@@ -319,36 +320,39 @@ def hierarchical_likelihood(
 
     if posterior_predictive_check:
         if param_names is not None and injdata is not None and pedata is not None:
-            if log:
-                pe_weights = jnp.exp(pe_weights)
-                inj_weights = jnp.exp(inj_weights)
             cond = jnp.less(pedata["mass_1"], m1min) | jnp.greater(pedata["mass_1"], mmax)
             pe_weights = jnp.where(
                 cond | jnp.less(pedata["mass_1"] * pedata["mass_ratio"], m2min),
-                0,
+                -jnp.inf if log else 0,
                 pe_weights,
             )
             inj_weights = jnp.where(
                 jnp.less(injdata["mass_1"], m1min)
                 | jnp.greater(injdata["mass_1"], mmax)
                 | jnp.less(injdata["mass_1"] * injdata["mass_ratio"], m2min),
-                0,
+                -jnp.inf if log else 0,
                 inj_weights,
             )
+            if log:
+                pe_probs, inj_probs = softmax(pe_weights, axis=1), softmax(inj_weights)
+                pe_weights = jnp.exp(pe_weights)
+            else:
+                pe_probs = pe_weights / jnp.sum(pe_weights, axis=1, keepdims=True)
+                inj_probs = inj_weights / jnp.sum(inj_weights)
             for ev in range(Nobs):
                 k = random.PRNGKey(ev)
                 k1, k2 = random.split(k)
                 obs_idx = random.choice(
                     k1,
                     pe_weights.shape[1],
-                    p=pe_weights[ev, :] / jnp.sum(pe_weights[ev, :]),
+                    p=pe_probs[ev, :],
                 )
 
                 if marginal_qs:
                     for i in range(len(indv_weights)):
                         numpyro.deterministic(f"cat_frac_subpop_{i + 1}_event_{ev}", indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx])
 
-                pred_idx = random.choice(k2, inj_weights.shape[0], p=inj_weights / jnp.sum(inj_weights))
+                pred_idx = random.choice(k2, inj_weights.shape[0], p=inj_probs)
                 for p in param_names:
                     numpyro.deterministic(f"{p}_obs_event_{ev}", pedata[p][ev, obs_idx])
                     numpyro.deterministic(f"{p}_pred_event_{ev}", injdata[p][pred_idx])
-- 
2.43.0


From 2f89d7fb4a645964612a3bdb6f5a8be42bdbf450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:19 +0000
Subject: [PATCH 42/42] Revert "fix: projecting a basis spline does not modify
 the coefficients in place"

jax arrays are immutable and in-place division of a numpy array by a jax
scalar already returns a new array, so nothing was wrong.
---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index b87d984..5974d9c 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -206,7 +206,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs = coefs / jnp.sum(coefs)
+        coefs /= jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0

