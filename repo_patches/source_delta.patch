From 7fcd7d85f644e85dd727fd8d42df40dded207d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 01/22] fix: bind decorated methods instead of remembering the
 last instance

RavelArgumentDecorator stored the instance in the class-level decorator, so
another thread (or a bound method kept around, or a re-entrant call) made a
call run on the wrong object.
---
 src/sparse_ir/_util.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index e2ae6d9..555bf51 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -1,6 +1,7 @@
 # Copyright (C) 2020-2022 Markus Wallerberger, Hiroshi Shinaoka, and others
 # SPDX-License-Identifier: MIT
 import functools
+import types
 import numpy as np
 
 
@@ -16,21 +17,19 @@ def ravel_argument(last_dim=False):
 
 class RavelArgumentDecorator(object):
     def __init__(self, inner, last_dim=False):
-        self.instance = None
         self.inner = inner
         self.last_dim = last_dim
         functools.update_wrapper(self, inner)
 
     def __get__(self, instance, _owner=None):
-        self.instance = instance
-        return self
+        # The decorator is shared by all instances of a class (and by all
+        # threads), so the instance must not be stored here, but be bound.
+        return self if instance is None else types.MethodType(self, instance)
 
-    def __call__(self, x):
+    def __call__(self, *args):
+        *instance, x = args
         x = np.asarray(x)
-        if self.instance is None:
-            res = self.inner(x.ravel())
-        else:
-            res = self.inner(self.instance, x.ravel())
+        res = self.inner(*instance, x.ravel())
         if self.last_dim:
             return res.reshape(res.shape[:-1] + x.shape)
         else:
-- 
2.43.0


From a29ebbf5c884d2190768ebfd34399796aad61ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 02/22] fix: do not reseed and use the process-wide generator
 of SciPy

Seeding and drawing is not atomic, so that concurrent constructions gave
different results, and the caller's random stream was clobbered.
---
 src/sparse_ir/svd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index f32c59f..0f4efb5 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -69,8 +69,9 @@ def _idsvd(a, n_sv):
     # Use interpolative decomposition, since it scales favorably to a full
     # SVD when we are only interested in a small subset of singular values.
     # NOTE: this returns the right singular vectors, not their conjugate!
-    intp_decomp.seed(4711)
-    return intp_decomp.svd(a, n_sv)
+    # We use the non-randomized variant: the randomized one draws from (and had
+    # to reseed) a generator which is global to the process.
+    return intp_decomp.svd(a, n_sv, rand=False)
 
 
 def _dgejsv(a, mode='A'):
-- 
2.43.0


From 05362a01101fd13e3eb8537712e932bff7c3525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 03/22] fix: store accuracy of SVE as plain float so that it
 can be pickled

An extended-precision scalar can neither be pickled nor deep-copied.
---
 src/sparse_ir/sve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 3e94cf1..471f807 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -311,7 +311,7 @@ def _safe_eps(eps_required, work_dtype, svd_strat):
         # but it's not too far off and easier to remember for the user.
         safe_eps = 1e-8
     else:
-        safe_eps = np.sqrt(svd.finfo(work_dtype).eps)
+        safe_eps = float(np.sqrt(svd.finfo(work_dtype).eps))
 
     # Work out the SVD strategy to be used.  If the user sets this, we
     # assume they know what they are doing and do not warn if they compute
-- 
2.43.0


From db376c6993daefb50afa687c88d7fe4943b49bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 04/22] fix: frequency part of TauConst and TauLinear

np.complex no longer exists; reciprocal with 'out' needs an array even for a
single frequency.
---
 src/sparse_ir/augment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 71353cb..ee92c62 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -247,7 +247,7 @@ class TauConst(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        return np.sqrt(self._beta) * (n == 0).astype(np.complex)
+        return np.sqrt(self._beta) * (n == 0).astype(complex)
 
 
 class TauLinear(AbstractAugmentation):
@@ -279,7 +279,7 @@ class TauLinear(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        inv_w = np.pi/self._beta * n
+        inv_w = np.asarray(np.pi/self._beta * n)
         inv_w = np.reciprocal(inv_w, out=inv_w, where=n.astype(bool))
         return self._norm * 2/1j * inv_w
 
-- 
2.43.0


From 852fcbadc01332c386152f593e898c9427363ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 05/22] fix: copy sampling points and poles supplied by the
 caller

Otherwise overwriting the array afterwards makes them inconsistent with the
matrices computed from them.
---
 src/sparse_ir/dlr.py      | 2 +-
 src/sparse_ir/sampling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 91e4d65..64793f9 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -39,7 +39,7 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
             raise ValueError("DLR supports only LogisticKernel")
 
         self._basis = basis
-        self._poles = np.asarray(sampling_points)
+        self._poles = np.array(sampling_points)
         self._y_sampling_points = self._poles/basis.wmax
 
         self._u = TauPoles(basis.statistics, basis.beta, self._poles)
diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 52b274d..5362d23 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -123,7 +123,7 @@ class TauSampling(AbstractSampling):
         if sampling_points is None:
             sampling_points = basis.default_tau_sampling_points()
         else:
-            sampling_points = np.asarray(sampling_points)
+            sampling_points = np.array(sampling_points)
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
 
-- 
2.43.0


From 76ed8e45ed5132f13ea90f5fbc25d9db42c00a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 06/22] fix: raise if the SVD yields non-finite numbers instead
 of dropping them

---
 src/sparse_ir/svd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index 0f4efb5..245df18 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -62,6 +62,9 @@ def compute(a_matrix, n_sv_hint=None, strategy='fast'):
     else:
         raise ValueError("invalid strategy:" + str(strategy))
 
+    # Truncation compares with singular values: NaNs would silently drop them
+    if not all(np.isfinite(x).all() for x in (u, s, v)):
+        raise np.linalg.LinAlgError("SVD returned non-finite numbers")
     return u, s, v
 
 
-- 
2.43.0


From dee040387bd36a2e0042d8e632d017b52ab88fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 07/22] fix: end Newton iteration for Gauss nodes once the step
 is zero

It otherwise ran into a warning whose format string is invalid and raised
AttributeError, for small rules and some rounding of the eigenvalues.
---
 src/sparse_ir/_gauss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 44113d0..594a77c 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -142,11 +142,11 @@ def rule_from_recurrence(alpha, beta, a, b):
         # check convergence without relying on ATOL
         currdiff = np.abs(diff).max()
         #print(currdiff)
-        if not (2 * currdiff <= prevdiff):
+        if currdiff == 0 or not (2 * currdiff <= prevdiff):
             break
         prevdiff = currdiff
     else:
-        warnings.warn("Newton iteration did not converge, error = {.2g}"
+        warnings.warn("Newton iteration did not converge, error = {:.2g}"
                       .format(currdiff))
 
     # Now we know that the weights are proportional to the following:
-- 
2.43.0


From c3fb2261759e9c26dc3d08ec801fef629c5c5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 08/22] fix: do not use high-frequency asymptotics too early
 for small cutoffs

For lambda below 10 the switch at 40 * lambda came before the expansion
converges: for the regularized Bose kernel uhat was off by orders of magnitude.
---
 src/sparse_ir/adapter.py | 2 +-
 src/sparse_ir/basis.py   | 4 +++-
 src/sparse_ir/kernel.py  | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/adapter.py b/src/sparse_ir/adapter.py
index 7c296c8..cb28c82 100644
--- a/src/sparse_ir/adapter.py
+++ b/src/sparse_ir/adapter.py
@@ -53,7 +53,7 @@ class Basis:
         self._s = s
         self._v = v
 
-        conv_radius = 40 * Lambda
+        conv_radius = 40 * max(Lambda, 10)
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat = _poly.PiecewiseLegendreFT(u, even_odd, conv_radius)
 
diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 0a4a223..070cf54 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -84,7 +84,9 @@ class FiniteTempBasis(abstract.AbstractBasis):
         uhat_base_full = poly.PiecewiseLegendrePoly(
                             np.sqrt(beta) * sve_result.u.data, sve_result.u,
                             symm=sve_result.u.symm)
-        conv_radius = 40 * self.kernel.lambda_
+        # The discretization does not get coarser below lambda == 10, so neither
+        # do the high-frequency asymptotics converge any earlier.
+        conv_radius = 40 * max(self.kernel.lambda_, 10)
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat_full = poly.PiecewiseLegendreFT(uhat_base_full, even_odd,
                                                    n_asymp=conv_radius)
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 9624dad..888d541 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -191,7 +191,7 @@ class LogisticKernel(AbstractKernel):
         return super().get_symmetrized(sign)
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self): return 40 * max(self.lambda_, 10)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """
@@ -306,7 +306,7 @@ class RegularizedBoseKernel(AbstractKernel):
     def ypower(self): return 1
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self): return 40 * max(self.lambda_, 10)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """ Return the weight function for given statistics """
-- 
2.43.0


From 4da1537fd6e6b308db4706d487beaf3200933a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 09/22] fix: warn about low default accuracy also for pairs and
 sets of bases

finite_temp_bases and FiniteTempBasisSet computed the expansion themselves and
thus bypassed the warning FiniteTempBasis issues without xprec.
---
 src/sparse_ir/basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 070cf54..b80c167 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -220,10 +220,9 @@ def finite_temp_bases(
     Construct FiniteTempBasis objects for fermion and bosons using
     the same LogisticKernel instance.
     """
-    if sve_result is None:
-        sve_result = sve.compute(_kernel.LogisticKernel(beta*wmax), eps)
     basis_f = FiniteTempBasis("F", beta, wmax, eps, sve_result=sve_result)
-    basis_b = FiniteTempBasis("B", beta, wmax, eps, sve_result=sve_result)
+    basis_b = FiniteTempBasis("B", beta, wmax, eps,
+                              sve_result=basis_f.sve_result)
     return basis_f, basis_b
 
 
-- 
2.43.0


From 036c9c88ffcf8a01c235ce71920b124f5e5288ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 10/22] fix: let irbasis adapter warn whenever the solver lacks
 xprec

It probed for the package on its own, and stayed silent if the package could be
imported but the solver could not use it.
---
 src/sparse_ir/adapter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sparse_ir/adapter.py b/src/sparse_ir/adapter.py
index cb28c82..e299a16 100644
--- a/src/sparse_ir/adapter.py
+++ b/src/sparse_ir/adapter.py
@@ -22,14 +22,12 @@ from . import sve as _sve
 from . import poly as _poly
 from . import kernel as _kernel
 
-try:
-    import xprec as _xprec
-except ImportError:
-    ACCURACY = 1.0e-9
-    WARN_ACCURACY = True
-else:
+if _sve.HAVE_XPREC:
     ACCURACY = 1.0e-15
     WARN_ACCURACY = False
+else:
+    ACCURACY = 1.0e-9
+    WARN_ACCURACY = True
 
 
 def load(statistics, Lambda, h5file=None):
-- 
2.43.0


From 0f9dce9935b7fb7ef33eb97941aa312b4dbbb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 11/22] fix: zero frequency of bosonic pole at zero

It came out as NaN, which spoilt uhat of every bosonic pole representation of
odd size.
---
 src/sparse_ir/dlr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 64793f9..3824267 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -142,8 +142,11 @@ class MatsubaraPoles:
         if self._statistics == 'F':
             return 1 /(iv[None, :] - self._poles[:, None])
         else:
-            return np.tanh(0.5 * self._beta * self._poles)[:, None]\
-                /(iv[None, :] - self._poles[:, None])
+            # Zero frequency of a pole at zero is the limit of vanishing pole
+            numer = np.tanh(0.5 * self._beta * self._poles)[:, None]
+            denom = iv[None, :] - self._poles[:, None]
+            result = np.full(denom.shape, -0.5 * self._beta, denom.dtype)
+            return np.divide(numer, denom, out=result, where=(denom != 0))
 
 
 class TauPoles:
-- 
2.43.0


From 62bddca78055ff40bb867679202039e39b5fdf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 12/22] fix: pole representation with a single pole at zero

---
 src/sparse_ir/dlr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 3824267..b2da8c6 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -164,7 +164,7 @@ class TauPoles:
             raise RuntimeError("tau must be in [0, beta]!")
 
         x = 2 * tau/self._beta - 1
-        y = self._poles/self._wmax
+        y = self._poles/(self._wmax or 1.0)
         lambda_ = self._beta * self._wmax
 
         res = -kernel.LogisticKernel(lambda_)(x[:, None], y[None, :])
-- 
2.43.0


From 6b092f38a329c7494ab5085e6d623a8c45222c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 13/22] fix: discretize logistic kernel finely enough for small
 cutoffs

With one or a few segments, roots of basis functions were missed, and default
sampling in time had fewer points than basis functions for lambda below 2.
---
 src/sparse_ir/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 888d541..21131bf 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -218,7 +218,7 @@ class _SVEHintsLogistic(AbstractSVEHints):
 
     @property
     def segments_x(self):
-        nzeros = max(int(np.round(15 * np.log10(self.kernel.lambda_))), 1)
+        nzeros = max(int(np.round(15 * np.log10(self.kernel.lambda_))), 15)
         diffs = 1./np.cosh(.143 * np.arange(nzeros))
         zeros_pos = diffs.cumsum()
         zeros_pos /= zeros_pos[-1]
@@ -232,7 +232,7 @@ class _SVEHintsLogistic(AbstractSVEHints):
             0.06791, 0.06391, 0.05896, 0.05358, 0.04814, 0.04288, 0.03795,
             0.03342, 0.02932, 0.02565, 0.02239, 0.01951, 0.01699])
 
-        nzeros = max(int(np.round(20 * np.log10(self.kernel.lambda_))), 2)
+        nzeros = max(int(np.round(20 * np.log10(self.kernel.lambda_))), 20)
         if nzeros < 20:
             leading_diffs = leading_diffs[:nzeros]
         diffs = .25 / np.exp(.141 * np.arange(nzeros))
-- 
2.43.0


From b35bacbc4bbb1db15ba27facec84d7847e0e9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 14/22] fix: copy values of the integrand and let its
 StopIteration through

---
 src/sparse_ir/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bc178e0..d700c5e 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -489,7 +489,8 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
 
         rule = base_rule.reseat(xstart[:, None], xstop[:, None])
 
-        fx = np.array(list(map(f, rule.x.ravel())))
+        # Copy each value, since f may hand out the same buffer every time
+        fx = np.array([np.array(f(x)) for x in rule.x.ravel()])
         if f_shape is None:
             f_shape = fx.shape[1:]
         elif fx.shape[1:] != f_shape:
-- 
2.43.0


From 57ab739b4dfa8fed8b18b7b87fb3dc53617a99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 15/22] fix: overlap with a function that is zero everywhere
 converges at once

---
 src/sparse_ir/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index d700c5e..0218f10 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -503,7 +503,9 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         intdiff = np.abs(int21 - int10)
         intmagn = np.abs(int10)
 
+        # Avoid 0/0 for functions which are zero everywhere
         magn = res_magn + intmagn.sum(1).max(1)
+        magn = np.maximum(magn, np.finfo(float).tiny)
         relerror = intdiff.max(2) / magn[:, None]
 
         xconverged = (relerror <= rtol).all(0)
-- 
2.43.0


From 61faa3e5430da96e7315d738e3c64b68f39a0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 16/22] fix: overlap with a function that is complex only at
 some points

---
 src/sparse_ir/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 0218f10..cf04da4 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -509,7 +509,7 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         relerror = intdiff.max(2) / magn[:, None]
 
         xconverged = (relerror <= rtol).all(0)
-        res_value += int10[:, xconverged].sum(1)
+        res_value = res_value + int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
         if xconverged.all():
-- 
2.43.0


From f4bbd4d36135567adc17feab85c9ff7470aa8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/22] fix: infinite value of an integrand does not end
 refinement elsewhere

---
 src/sparse_ir/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index cf04da4..f84ab24 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -508,7 +508,8 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         magn = np.maximum(magn, np.finfo(float).tiny)
         relerror = intdiff.max(2) / magn[:, None]
 
-        xconverged = (relerror <= rtol).all(0)
+        # An infinite magnitude says nothing about the other segments
+        xconverged = ((relerror <= rtol) & np.isfinite(magn)[:, None]).all(0)
         res_value = res_value + int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
-- 
2.43.0


From 7d416110cecfa32c52d06d18ccd27af32d15f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 18/22] fix: keep order of sampling frequencies passed to
 evaluate and fit

Values and coefficients were silently computed for the sorted points.
---
 src/sparse_ir/sampling.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 5362d23..14ae5f6 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -210,8 +210,19 @@ class MatsubaraSampling(AbstractSampling):
 
     def _for_sampling_points(self, x):
         x = np.asarray(x)
-        return MatsubaraSampling(self._basis, x,
-                                 positive_only=self._positive_only)
+        result = MatsubaraSampling(self._basis, x,
+                                   positive_only=self._positive_only)
+
+        # The sampling points were sorted there, but the values we are dealing
+        # with are in the order of the original points.
+        order = np.empty(x.size, dtype=int)
+        order[np.argsort(x, kind='stable')] = np.arange(x.size)
+        matrix = result._matrix
+        result._sampling_points = result._sampling_points[order]
+        result._matrix = matrix.__class__(
+                            matrix.a[order],
+                            (matrix.u[order], matrix.s, matrix.vH))
+        return result
 
 
 class DecomposedMatrix:
-- 
2.43.0


From 3a191e26f277728403016124f2a1b6f249c83f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 19/22] fix: truncating a basis again never makes it larger,
 rescaling keeps its size

Slicing a truncated basis beyond its size, or without a stop, brought back
functions that had been discarded, and negative stops counted from the end
of the expansion instead of the basis.  Slicing and rescaling a basis that
shares an expansion of lower accuracy silently dropped functions.
---
 src/sparse_ir/augment.py |  4 ++--
 src/sparse_ir/basis.py   | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index ee92c62..58bca81 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -72,7 +72,7 @@ class AugmentedBasis(abstract.AbstractBasis):
         raise self._basis.statistics
 
     def __getitem__(self, index):
-        stop = basis._slice_to_size(index)
+        stop = basis._slice_to_size(index, self.size)
         if stop <= self._naug:
             raise ValueError("Cannot truncate to only augmentation")
         return AugmentedBasis(self._basis[:stop - self._naug],
@@ -161,7 +161,7 @@ class _AugmentedFunction:
     def __getitem__(self, l):
         # TODO make this more general
         if isinstance(l, slice):
-            stop = basis._slice_to_size(l)
+            stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index b80c167..af13a0e 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -93,10 +93,12 @@ class FiniteTempBasis(abstract.AbstractBasis):
         self._uhat = self._uhat_full[:s.size]
 
     def __getitem__(self, index):
+        # The expansion may have more functions than this basis, as well as
+        # more or fewer than those above its own accuracy.
         return FiniteTempBasis(
-                    self._statistics, self._beta, self._wmax, None,
-                    max_size=_slice_to_size(index), kernel=self._kernel,
-                    sve_result=self._sve_result)
+                    self._statistics, self._beta, self._wmax, 0.0,
+                    max_size=_slice_to_size(index, self.size),
+                    kernel=self._kernel, sve_result=self._sve_result)
 
     @property
     def statistics(self): return self._statistics
@@ -206,7 +208,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         since ``lambda_ == beta * wmax`` stays constant.
         """
         new_wmax = self._kernel.lambda_ / new_beta
-        return FiniteTempBasis(self._statistics, new_beta, new_wmax, None,
+        return FiniteTempBasis(self._statistics, new_beta, new_wmax, 0.0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
 
@@ -330,11 +332,11 @@ def _get_kernel(statistics, lambda_, kernel):
     return kernel
 
 
-def _slice_to_size(index):
+def _slice_to_size(index, size):
     if not isinstance(index, slice):
         raise ValueError("argument must be a slice (`n:m`)")
     if index.start is not None and index.start != 0:
         raise ValueError("slice must start at zero")
     if index.step is not None and index.step != 1:
         raise ValueError("slice must step in ones")
-    return index.stop
+    return index.indices(size)[1]
-- 
2.43.0


From eed4b654152bc76ad735bc0122a192b6806fd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 20/22] fix: statistics, upper end, derivatives and negative
 indices of augmented bases

---
 src/sparse_ir/augment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 58bca81..771d963 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -69,7 +69,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def statistics(self):
-        raise self._basis.statistics
+        return self._basis.statistics
 
     def __getitem__(self, index):
         stop = basis._slice_to_size(index, self.size)
@@ -164,9 +164,9 @@ class _AugmentedFunction:
             stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
-            return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
+            return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
-            l = int(l)
+            l = range(self.size)[l]
             if l < self._naug:
                 return self._faug[l]
             else:
@@ -180,13 +180,13 @@ class AugmentedTauFunction(_AugmentedFunction):
 
     @property
     def xmax(self):
-        return self._fbasis.xmin
+        return self._fbasis.xmax
 
     def deriv(self, n=1):
         """Get polynomial for the n'th derivative"""
         dbasis = self._fbasis.deriv(n)
         daug = [faug_l.deriv(n) for faug_l in self._faug]
-        return AugmentedTauFunction(dbasis, *daug)
+        return AugmentedTauFunction(dbasis, daug)
 
 
 class AugmentedMatsubaraFunction(_AugmentedFunction):
-- 
2.43.0


From aafb7b99c54a4395805c39a2a86344076479bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 21/22] fix: derivative of TauLinear at integer times is not
 rounded to an integer

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 771d963..c0c9411 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -273,7 +273,7 @@ class TauLinear(AbstractAugmentation):
             return self
         elif n == 1:
             c = self._norm * 2/self._beta
-            return lambda tau: np.full_like(tau, c)
+            return lambda tau: np.full_like(tau, c, dtype=float)
         else:
             return lambda tau: np.zeros_like(tau)
 
-- 
2.43.0


From 82c0a47671a77ab4a84fea7a893c81cd635ff0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:29 +0000
Subject: [PATCH 22/22] fix: do not overwrite recurrence coefficients of the
 caller

---
 src/sparse_ir/_gauss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 594a77c..c88ff5b 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -121,6 +121,7 @@ def rule_from_recurrence(alpha, beta, a, b):
 
     # First approximation of roots by finding eigenvalues of tridiagonal system
     # corresponding to the recursion
+    beta = np.array(beta)
     beta[0] = b - a
     beta_is_pos = beta >= 0
     if not beta_is_pos.all():
-- 
2.43.0

