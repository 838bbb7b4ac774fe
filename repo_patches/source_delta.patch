From 8cb9492d140ac0dbca12bb3bef0234026043c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 01/19] fix: integrate_box over a half-line with infinite upper
 limit

---
 gpcm/exppoly.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..5a23d73 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -588,9 +588,13 @@ class ExpPoly:
         for name, lower, upper in name_and_lims:
             parts_new = []
             for part in parts:
-                if not is_inf(upper):
-                    upper = _as_poly(upper)  # Ensure that it is a polynomial.
-                    parts_new.append(part.translate_var(name, upper))
+                if is_inf(upper):
+                    # Reflect to turn the upper half-line into the lower half-line.
+                    lower = _as_poly(lower)  # Ensure that it is a polynomial.
+                    parts_new.append(part.substitute(name, lower - var(name)))
+                    continue
+                upper = _as_poly(upper)  # Ensure that it is a polynomial.
+                parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
                     parts_new.append(-part.translate_var(name, lower))
-- 
2.43.0


From c330e0a1e2948e3c2ecafe94a0a59a9ff5d84f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 02/19] fix: discard polynomial terms which cancel and support
 the zero polynomial

---
 gpcm/exppoly.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 5a23d73..373d7bf 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -303,7 +303,10 @@ def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_terms.append(reduce(operator.add, associated_terms, 0))
+        merged_term = reduce(operator.add, associated_terms, 0)
+        # Discard terms which are identically zero, e.g. because they cancelled.
+        if not (isinstance(merged_term.const, B.Number) and merged_term.const == 0):
+            merged_terms.append(merged_term)
     return merged_terms
 
 
@@ -392,7 +395,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
@@ -405,7 +408,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
-- 
2.43.0


From 42644bfb6ddd69da251ad0855f5b9d8f02ee62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 03/19] fix: raising a polynomial to the power zero gives a
 polynomial

---
 gpcm/exppoly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 373d7bf..627a2f5 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -468,6 +468,8 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
+        if power == 0:
+            return const(1)
         return reduce(operator.mul, [self] * power, 1)
 
 
-- 
2.43.0


From 6f3d0df3cb1a103c4a9499595d0aef23ce22d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 04/19] fix: merging polynomial terms whose partial sums cancel

---
 gpcm/exppoly.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 627a2f5..b29a6b7 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -303,7 +303,10 @@ def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_term = reduce(operator.add, associated_terms, 0)
+        # Add just the constants: a partial sum which cancels would lose its factors.
+        merged_term = Term(
+            reduce(operator.add, [x.const for x in associated_terms]), *factors
+        )
         # Discard terms which are identically zero, e.g. because they cancelled.
         if not (isinstance(merged_term.const, B.Number) and merged_term.const == 0):
             merged_terms.append(merged_term)
-- 
2.43.0


From e3bf6855908271ee3af94e0c972d41bf49c52ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 05/19] fix: closest_psd for matrices with eigenvalues of equal
 magnitude and opposite sign

---
 gpcm/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..77d9365 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -148,9 +148,11 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    # Shift the eigenvalues to make the matrix PSD: the SVD is then an eigendecomposition,
+    # even if `a` has eigenvalues which are equal in magnitude but opposite in sign.
+    shift = B.sqrt(B.sum(a**2, axis=(-2, -1)))[..., None]
+    u, s, v = B.svd(a + shift[..., None] * B.eye(a))
+    s = B.maximum(s - shift, 0)
     if inv:
         s = B.where(s == 0, 0, 1 / s)
     return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
-- 
2.43.0


From a477e515038ac0532a12ffdc3a97aaa6e51c25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 06/19] fix: scale of estimate_psd, because the frequencies are
 not sorted

---
 gpcm/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 77d9365..b1f8517 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,7 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    total_power = np.sum(psd) * (freqs[1] - freqs[0])
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From d01ddb196da966bbf00f888ac29af6fd91904b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 07/19] fix: 68% error bounds of summarise_samples cover 68% of
 the samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index b1f8517..2c9c13a 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From d506f9ea30b47e2ebe3942c8d41cab00f7241b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 08/19] fix: normalise the inter-domain transform of the RGPCM
 for the gamma that is used

---
 gpcm/rgpcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..94c2dcb 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,12 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
-        if gamma_t is None:
-            gamma_t = B.sqrt(2 * gamma)
-
         # Must ensure that `gamma < alpha`.
         self.gamma = min(gamma, self.alpha / 1.5)
+
+        if gamma_t is None:
+            gamma_t = B.sqrt(2 * self.gamma)
+
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From eb845df20f50de25c4cd75b04b10347c37f9e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 09/19] fix: fitting with the scheme `mean-field-gradient`

---
 gpcm/approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..58265c3 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,7 +89,7 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
-    def ignore_qs(self, previous, current):
+    def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
 
@@ -97,7 +97,7 @@ class Approximation:
             previous (bool): Ignore all previous approximate posteriors.
             current (bool or str): Current approximate posteriors to ignore. Set to
                 `True` or `False` to ignore all or none or to `z` or `u` to ignore
-                a specific approximate posterior.
+                a specific approximate posterior. Defaults to `False`.
 
         Returns:
             list[str]: Appropriate list of regexes.
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
-- 
2.43.0


From 3fd6ecfba18a456ac292edaaa8f1f4b9eeffe255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 10/19] fix: fitting with the scheme `mean-field-ca-gradient`

---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 58265c3..a232a70 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From ff26fec7f8e66ca636cc5f1b23a33c25e67756b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 11/19] fix: predict_fourier with mean-field schemes

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index a232a70..df9153f 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Ignored: the prediction is analytic. Provided
+                to ensure a consistent interface between all approximations.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From 9e731f98228e4f6d8f1cf191ebf5c33dcfe2329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 12/19] fix: mean-field predictions under the prior

---
 gpcm/approx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index df9153f..76d2006 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -47,7 +47,10 @@ class Approximation:
     def p_u(self):
         """:class:`stheno.Normal`: Current prior for :math:`u`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_u)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_u, 1),
+                self.model.K_u,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_u[self._q_i - 1],
@@ -70,7 +73,10 @@ class Approximation:
     def p_z(self):
         """:class:`stheno.Normal`: Current prior for :math:`z`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_z)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_z, 1),
+                self.model.K_z,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_z[self._q_i - 1],
-- 
2.43.0


From b6973ff05ee215f70b83ec07f10b05960d178418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 13/19] fix: bounds for inducing points which are all positive
 or all negative

---
 gpcm/gpcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..03ca5a6 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -276,11 +276,12 @@ class GPCM(AbstractGPCM):
             self.gamma = self.ps.positive(self.gamma, name="gamma")
         self.omega = self.ps.positive(self.omega, name="omega")
         self.omega_t = self.omega_t  # Do not learn variance of inter-domain transform!
-        # Bound the inducing points so they don't move away too far.
+        # Bound the inducing points so they don't move away too far. The inducing points
+        # must lie strictly within the bounds.
         self.t_u = self.ps.bounded(
             self.t_u,
-            lower=min(self.t_u) * 1.5,
-            upper=max(self.t_u) * 1.5,
+            lower=min(self.t_u) - max(0.5 * abs(min(self.t_u)), 1e-4),
+            upper=max(self.t_u) + max(0.5 * abs(max(self.t_u)), 1e-4),
             name="t_u",
         )
         self.t_z = self.ps.unbounded(self.t_z, name="t_z")
-- 
2.43.0


From 122da4b19280ec7584f7b88abf0b67432c23d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 14/19] fix: scale of the kernel of the filter of the GPCM and
 CGPCM

---
 gpcm/gpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 03ca5a6..6b26309 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -247,7 +247,7 @@ class GPCM(AbstractGPCM):
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
         k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
-        k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
+        k_h *= lambda t: self.alpha_t * B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
-- 
2.43.0


From 6cafa1b4ec957cb19c986c62b108be939620ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 15/19] fix: predict_filter uses the stored samples of a
 structured approximation

---
 gpcm/approx.py | 7 +++++--
 gpcm/model.py  | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 76d2006..99b8818 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -645,6 +645,9 @@ class MeanField(Approximation):
         B.set_global_random_state(state)
         return elbo
 
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
+
     @_dispatch
     def predict(self, t):
         """Predict.
@@ -676,9 +679,9 @@ class MeanField(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self.p_u.sample(num_samples)
+        us = self._sample_p_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
-        return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
+        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
 
     @_dispatch
     def predict_z(self, num_samples: B.Int = 1000):
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..733e454 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -171,9 +171,10 @@ class AbstractGPCM(Model):
         if t_h is None:
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
+        us = self.approximation._sample_p_u(num_samples)
+
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
@@ -183,8 +184,8 @@ class AbstractGPCM(Model):
         # Perform sampling.
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From eb40bffc8f941ebc44ecc9b1e476f1026805f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 16/19] fix: optimal mean-field factors use the current prior

---
 gpcm/approx.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 99b8818..056b6d4 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -211,9 +211,10 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u.prec,
             q_z.mean,
             q_z.m2,
+            self.p_u.lam,
         )
 
     @_dispatch
@@ -250,12 +251,13 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z.prec,
             q_u.mean,
             q_u.m2,
+            self.p_z.lam,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, K, x, x2=None, lam=0):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -263,7 +265,7 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
+            lam + B.mm(I_sum, x) / self.model.noise,
             K + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
-- 
2.43.0


From eca098316054fcd2792584c9188a230b1c6208c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 17/19] fix: feature decays of the RGPCM more than 1e4 times
 below the decay of the window

The bound on the factor between the two was below the initial value, so the
instantiated model had a decay which is not a number.
---
 gpcm/rgpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 94c2dcb..7bcaa97 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -204,7 +204,7 @@ class RGPCM(AbstractGPCM):
         gamma_factor = self.ps.bounded(
             gamma_factor_init,
             lower=1,
-            upper=1e4,
+            upper=max(1e4, 2 * gamma_factor_init),
             name="gamma_factor",
         )
         self.gamma = self.alpha / gamma_factor
-- 
2.43.0


From e9f0467b5575f523fcc73bca27f5b4dd3ec98e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 18/19] fix: bounds of a single inducing point of the RGPCM at
 the origin

The initial value was on the upper bound, so its unconstrained value was
infinite and the model could not be fitted.
---
 gpcm/rgpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 7bcaa97..49d39ce 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -213,7 +213,7 @@ class RGPCM(AbstractGPCM):
         self.t_u = self.ps.bounded(
             self.t_u,
             lower=-1e-4,  # First inducing point is at the origin.
-            upper=max(self.t_u) * 1.5,
+            upper=max(max(self.t_u) * 1.5, 1e-4),
             name="t_u",
         )
 
-- 
2.43.0


From e8462640a27e090f9412f34df9d9c500ba5950f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 19/19] fix: half-line integrals over two variables for any
 units of the variables

Products of variances beyond 1e-30 were clipped, so the integrals, and hence the
CGPCM, were wrong for time scales below about 1e-7 or above about 1e8.
---
 gpcm/exppoly.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index b29a6b7..b9cd457 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -703,7 +703,9 @@ class ExpPoly:
         # Normalise and compute CDF part.
         x1 = -mu1 / safe_sqrt(ia11)
         x2 = -mu2 / safe_sqrt(ia22)
-        rho = ia12 / safe_sqrt(ia11 * ia22)
+        # Take square roots of the factors: products might be tiny just because of the
+        # units of the variables.
+        rho = ia12 / (safe_sqrt(ia11) * safe_sqrt(ia22))
 
         # Evaluate CDF for all `x1` and `x2`.
         orig_shape = B.shape(mu1)
@@ -715,7 +717,8 @@ class ExpPoly:
 
         # Compute exponentiated part.
         quad_form = 0.5 * (ia11 * b1**2 + ia22 * b2**2 + 2 * ia12 * b1 * b2)
-        det_part = 2 * B.pi / safe_sqrt(a_det)
+        sqrt_det = safe_sqrt(a11) * safe_sqrt(a22) * safe_sqrt(a_det / (a11 * a22))
+        det_part = 2 * B.pi / sqrt_det
         exp_part = det_part * B.exp(quad_form + c)
 
         return self.const * cdf_part * exp_part
-- 
2.43.0

