From d777e254dcabae5b993db993822cfc1b4a625069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 01/79] fix: lognormal.sf raised AttributeError for x <= 0

---
 mpsci/distributions/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/lognormal.py b/mpsci/distributions/lognormal.py
index a8aa39c..e59255e 100644
--- a/mpsci/distributions/lognormal.py
+++ b/mpsci/distributions/lognormal.py
@@ -73,7 +73,7 @@ def sf(x, mu=0, sigma=1):
     mu, sigma = _validate_params(mu, sigma)
     x = mp.mpf(x)
     if x <= 0:
-        return mp.mp.one
+        return mp.one
     lnx = mp.log(x)
     return mp.ncdf(-lnx, -mu, sigma)
 
-- 
2.43.0


From bddc68c11ea6a4667a5be81cd4ddf2ac951cc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 02/79] fix: genexpon: logpdf ignored the scale, and points
 below loc raised ValueError

---
 mpsci/distributions/genexpon.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 5c3a8e0..7805d6a 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -28,8 +28,6 @@ def _validate_params(a, b, c, loc, scale):
 def _validate_x_params(x, a, b, c, loc, scale):
     x = mp.mpf(x)
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
-    if x < loc:
-        raise ValueError("'x' must not be less than 'loc'.")
     return x, a, b, c, loc, scale
 
 
@@ -39,6 +37,8 @@ def pdf(x, a, b, c, loc=0, scale=1):
     PDF of the generalized exponential distribution.
     """
     x, a, b, c, loc, scale = _validate_x_params(x, a, b, c, loc, scale)
+    if x < loc:
+        return mp.zero
     z = (x - loc) / scale
     s = a + b
     r = b / c
@@ -52,10 +52,13 @@ def logpdf(x, a, b, c, loc=0, scale=1):
     Natural logarithm of the PDF of the generalized exponential distribution.
     """
     x, a, b, c, loc, scale = _validate_x_params(x, a, b, c, loc, scale)
+    if x < loc:
+        return mp.ninf
     z = (x - loc) / scale
     s = a + b
     r = b / c
-    return mp.log(a + b*(-mp.expm1(-c*z))) + (-s*z + r*(-mp.expm1(-c*z)))
+    return (mp.log(a + b*(-mp.expm1(-c*z))) + (-s*z + r*(-mp.expm1(-c*z)))
+            - mp.log(scale))
 
 
 @mp.extradps(5)
@@ -64,6 +67,8 @@ def cdf(x, a, b, c, loc=0, scale=1):
     CDF of the generalized exponential distribution.
     """
     x, a, b, c, loc, scale = _validate_x_params(x, a, b, c, loc, scale)
+    if x < loc:
+        return mp.zero
     z = (x - loc) / scale
     s = a + b
     r = b / c
@@ -76,6 +81,8 @@ def sf(x, a, b, c, loc=0, scale=1):
     Survival function of the generalized exponential distribution.
     """
     x, a, b, c, loc, scale = _validate_x_params(x, a, b, c, loc, scale)
+    if x < loc:
+        return mp.one
     z = (x - loc) / scale
     s = a + b
     r = b / c
-- 
2.43.0


From e4515c7f325901dbc93b3d9c2cf18cd60506072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 03/79] fix: binomial: pmf, logpmf, cdf and sf failed outside
 the support and for p=0 or p=1

---
 mpsci/distributions/binomial.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index 44f22e2..b98750d 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -8,7 +8,7 @@ from mpmath import mp
 from ..stats import mean as _mean, var as _var
 from ._common import (_validate_p, _validate_x_bounds, _validate_counts,
                       isfixed)
-from ..fun import logbinomial
+from ..fun import logbinomial, xlogy, xlog1py
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf', 'mean', 'mode', 'var',
@@ -63,6 +63,8 @@ def pmf(k, n, p):
     Probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.zero
     return (mp.binomial(n, k) *
             mp.power(p, k) *
             mp.power(1 - p, n - k))
@@ -74,9 +76,11 @@ def logpmf(k, n, p):
     Natural log of the probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.ninf
     return (logbinomial(n, k)
-            + k*mp.log(p)
-            + mp.fsum([n, -k])*mp.log1p(-p))
+            + xlogy(k, p)
+            + xlog1py(mp.fsum([n, -k]), -p))
 
 
 @mp.extradps(5)
@@ -94,7 +98,9 @@ def cdf(k, n, p, method='incbeta'):
         raise ValueError('method must be "sumpmf" or "incbeta"')
     if method == 'incbeta':
         n, p = _validate_np(n, p)
-        if k == n:
+        if k < 0:
+            return mp.zero
+        if k >= n:
             return mp.one
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
@@ -122,6 +128,10 @@ def sf(k, n, p, method='incbeta'):
         raise ValueError('method must be "sumpmf" or "incbeta"')
     if method == 'incbeta':
         n, p = _validate_np(n, p)
+        if k < 0:
+            return mp.one
+        if k >= n:
+            return mp.zero
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
         return mp.betainc(n - k, k + 1, x1=1-p, x2=1,
-- 
2.43.0


From d2df593efc4f63ad21ad027930156771911eff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 04/79] fix: negative_binomial.logpmf and pmf raised ValueError
 for 0 < r < 1

---
 mpsci/distributions/negative_binomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index ccdfc68..fb6405d 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -11,7 +11,7 @@ a "success".
 
 import itertools
 from mpmath import mp
-from ..fun import logbinomial, xlogy, xlog1py
+from ..fun import xlogy, xlog1py
 from ..stats import mean as _mean
 from ._common import Initial, _validate_counts, _validate_int
 
@@ -80,7 +80,8 @@ def logpmf(k, r, p):
     k = _validate_int(k)
     if k < 0:
         return mp.ninf
-    return logbinomial(k + r - 1, k) + xlog1py(r, -p) + xlogy(k, p)
+    logb = mp.loggamma(k + r) - mp.loggamma(k + 1) - mp.loggamma(r)
+    return logb + xlog1py(r, -p) + xlogy(k, p)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 20c91da513e1884fd1572e77437bf93fb1c0471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 05/79] fix: negative_binomial.mode returned -1 for p=0

---
 mpsci/distributions/negative_binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index fb6405d..f744a78 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -161,7 +161,7 @@ def mode(r, p):
     r, p = _validate_params(r, p)
     if r <= 1:
         return 0
-    return int(mp.ceil((r - 1) * p / (1 - p))) - 1
+    return max(0, int(mp.ceil((r - 1) * p / (1 - p))) - 1)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 2b4ca4f5c0cdb61b4bda282677fad065569eea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 06/79] fix: negative_hypergeometric.logpmf raised ValueError
 for untilnbad=0

---
 mpsci/distributions/negative_hypergeometric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index 6e6d433..935e48d 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -51,6 +51,8 @@ def logpmf(k, ntotal, ngood, untilnbad):
 
     if k < 0 or k > ngood:
         return mp.ninf
+    if untilnbad == 0:
+        return mp.zero if k == 0 else mp.ninf
 
     t1 = logbinomial(k + untilnbad - 1, k)
     t2 = logbinomial(ntotal - untilnbad - k, ngood - k)
-- 
2.43.0


From bcf68d38dd15f018bc83e98c338364414e6c3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 07/79] fix: negative_hypergeometric.mode divided by zero when
 there is a single bad item

---
 mpsci/distributions/negative_hypergeometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index 935e48d..efa4e59 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -110,7 +110,7 @@ def mode(ntotal, ngood, untilnbad):
     ngood = mp.mpf(ngood)
     untilnbad = mp.mpf(untilnbad)
 
-    if ntotal > untilnbad * (ngood + 1):
+    if ntotal >= untilnbad * (ngood + 1):
         # The PMF is decreasing.
         return 0
     t = ngood + untilnbad - 1
-- 
2.43.0


From 6949a91b9cecc4de26f41a71548cb587694808aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 08/79] fix: hypergeometric: logpmf, cdf and sf failed outside
 the support

---
 mpsci/distributions/hypergeometric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 64db787..59e04d6 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -47,6 +47,8 @@ def logpmf(k, ntotal, ngood, nsample):
     """
     _validate(ntotal, ngood, nsample)
     nbad = ntotal - ngood
+    if k < max(0, nsample - nbad) or k > min(nsample, ngood):
+        return mp.ninf
     # numerator terms
     terms = [mp.log(ntotal + 1),
              logbeta(ntotal - nsample + 1, nsample + 1)]
@@ -73,6 +75,10 @@ def sf(k, ntotal, ngood, nsample):
     Survival function of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if k < max(0, nsample - (ntotal - ngood)):
+        return mp.one
+    if k >= min(nsample, ngood):
+        return mp.zero
     h = mp.hyp3f2(1, k + 1 - ngood, k + 1 - nsample, k + 2,
                   ntotal + k + 2 - ngood - nsample, 1)
     num = (mp.binomial(nsample, k + 1) *
-- 
2.43.0


From 4203a0cb857d6d8cb332de4025a04f3316a5b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 09/79] fix: hypergeometric.var divided by zero for ntotal=1

---
 mpsci/distributions/hypergeometric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 59e04d6..4d603eb 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -172,6 +172,8 @@ def var(ntotal, ngood, nsample):
     Variance of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    if ntotal == 1:
+        return mp.zero
     ntotal = mp.mpf(ntotal)
     ngood = mp.mpf(ngood)
     nsample = mp.mpf(nsample)
-- 
2.43.0


From 42bb4d5ff3dfcbf0e71f5a1154d2ba5faf66b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 10/79] fix: beta.interval_prob was wrong for intervals
 extending outside [0, 1]

---
 mpsci/distributions/beta.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index 1344daa..69d4c9e 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -101,6 +101,7 @@ def interval_prob(x1, x2, a, b):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
+    x1, x2 = [min(max(t, mp.zero), mp.one) for t in (x1, x2)]
     return mp.betainc(a, b, x1, x2, regularized=True)
 
 
-- 
2.43.0


From fd7ff725b8823606cb700fad38835d13511b1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 11/79] fix: gamma.interval_prob was wrong for intervals
 extending below 0

---
 mpsci/distributions/gamma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index f487988..42d34df 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -154,6 +154,7 @@ def interval_prob(x1, x2, k, scale):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
+    x1, x2 = max(x1, mp.zero), max(x2, mp.zero)
     return mp.gammainc(k, x1/scale, x2/scale, regularized=True)
 
 
-- 
2.43.0


From 17ae43c65abecfe2baeefe9e2c2cc61452e755cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 12/79] fix: gamma: pdf(0) raised for k < 1 and logpdf(0) was
 nan for k = 1

---
 mpsci/distributions/gamma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 42d34df..d9d082e 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -13,7 +13,7 @@ Another common parameterization is shape `k` and the "rate" `lambda`.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       _find_bracket)
-from ..fun import digammainv
+from ..fun import digammainv, xlogy
 from .. import stats
 from . import normal
 
@@ -48,6 +48,8 @@ def pdf(x, k, scale):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0 and k < 1:
+        return mp.inf
     return mp.rgamma(k) / scale**k * x**(k-1) * mp.exp(-x/scale)
 
 
@@ -61,7 +63,7 @@ def logpdf(x, k, scale):
     if x < 0:
         return mp.ninf
     return (-mp.loggamma(k) - k*mp.log(scale) +
-            (k - 1)*mp.log(x) - x/scale)
+            xlogy(k - 1, x) - x/scale)
 
 
 @mp.extradps(5)
-- 
2.43.0


From de6b09926e43fde05f3035c3653b275efbee3512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 13/79] fix: chi: pdf(0) and logpdf(0) were nan for k = 1

---
 mpsci/distributions/chi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi.py b/mpsci/distributions/chi.py
index b634a05..1ec4771 100644
--- a/mpsci/distributions/chi.py
+++ b/mpsci/distributions/chi.py
@@ -6,6 +6,7 @@ Chi distribution
 import re
 from mpmath import mp
 from ._common import _validate_moment_n
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'mode', 'mean', 'var',
@@ -58,7 +59,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = ((k - 1)*mp.log(x) - x**2/2 - ((k/2) - 1)*mp.log(2)
+    p = (xlogy(k - 1, x) - x**2/2 - ((k/2) - 1)*mp.log(2)
             - mp.loggamma(k/2))
     return p
 
-- 
2.43.0


From ec3b2379abb07b9a5e81f071bf56dc91e022032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 14/79] fix: chi2: pdf(0) raised for k < 2 and logpdf(0) was
 nan for k = 2

---
 mpsci/distributions/chi2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index 3b922a9..b51a314 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -5,6 +5,7 @@ Chi-square distribution
 
 from mpmath import mp
 from ._common import _validate_moment_n, _generic_inv
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf',
@@ -28,6 +29,8 @@ def pdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0 and k < 2:
+        return mp.inf
     p = mp.exp(-x/2) * (x/2)**(k/2 - 1)/2 / mp.gamma(k/2)
     return p
 
@@ -41,7 +44,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = -x/2 + (k/2 - 1)*mp.log(x/2) - mp.log(2) - mp.loggamma(k/2)
+    p = -x/2 + xlogy(k/2 - 1, x/2) - mp.log(2) - mp.loggamma(k/2)
     return p
 
 
-- 
2.43.0


From ea0efa94a376f8a977056d99e0461bc0b41411e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 15/79] fix: exponweib: pdf(0) raised or logpdf(0) was nan for
 some shape parameters

---
 mpsci/distributions/exponweib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 852ff07..507386a 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -5,6 +5,7 @@ Exponentiated Weibull probability distribution
 
 from mpmath import mp
 from ._common import _validate_p
+from ..fun import xlogy
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
            'support', 'noncentral_moment', 'mean', 'var']
@@ -31,6 +32,8 @@ def pdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0:
+        return mp.exp(logpdf(x, a, c, scale))
     z = x/scale
     p = (a * c / scale * z**(c-1) * (-mp.expm1(-z**c))**(a - 1) *
          mp.exp(-z**c))
@@ -48,6 +51,9 @@ def logpdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
+    if x == 0:
+        # The PDF behaves like a*c/scale * (x/scale)**(a*c - 1) near 0.
+        return mp.log(a*c/scale) + xlogy(a*c - 1, x)
     z = x/scale
     logp = (mp.log(a)
             + mp.log(c)
-- 
2.43.0


From 1f67e764779cb6e83c1cba2379e9e9c547dfa6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 16/79] fix: kumaraswamy.logpdf was nan at 0 for a = 1 and at 1
 for b = 1

---
 mpsci/distributions/kumaraswamy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index c0ba9cc..5dad0d7 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -21,6 +21,7 @@ https://en.wikipedia.org/wiki/Kumaraswamy_distribution.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       Initial)
+from ..fun import xlogy, xlog1py
 from ..fun._powm1 import inv_powm1
 
 
@@ -64,8 +65,8 @@ def logpdf(x, a, b):
     x = mp.mpf(x)
     if x < 0 or x > 1:
         return mp.ninf
-    return (mp.log(a) + mp.log(b) + (a - 1)*mp.log(x)
-            + (b - 1)*mp.log1p(-x**a))
+    return (mp.log(a) + mp.log(b) + xlogy(a - 1, x)
+            + xlog1py(b - 1, -x**a))
 
 
 @mp.extradps(5)
-- 
2.43.0


From df741fd6280147f707316d3f649631bb85d8ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 17/79] fix: levy.support had a spurious probability argument

---
 mpsci/distributions/levy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index 0622caa..f87c340 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -95,10 +95,9 @@ def invsf(p, mu=0, sigma=1):
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
-def support(p, mu=0, sigma=1):
+def support(mu=0, sigma=1):
     """
     Support of the Lévy distribution.
     """
-    p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
     return (mu, mp.inf)
-- 
2.43.0


From d669c850bbf4adc20d356ec4ffca3a8eae071245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 18/79] fix: levy.invcdf(1) and levy.invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/levy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index f87c340..d137873 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -69,6 +69,8 @@ def invcdf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
+    if p == 1:
+        return mp.inf
     return mu + sigma / (2*_erfcinv(p)**2)
 
 
@@ -92,6 +94,8 @@ def invsf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
+    if p == 0:
+        return mp.inf
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
-- 
2.43.0


From befa001be6bc231cded0875e05d3690df8ab7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 19/79] fix: betaprime.invsf(0) returned 1

---
 mpsci/distributions/betaprime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index 4656274..cd3d944 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -174,7 +174,7 @@ def invsf(p, a, b, scale):
     a, b, scale = _validate_params(a, b, scale)
     p = _validate_p(p)
     if p == 0:
-        return mp.one
+        return mp.inf
     if p == 1:
         return mp.zero
 
-- 
2.43.0


From 489c01267588e236ff98dba9fcadc23b03b734bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 20/79] fix: maxwell.invcdf and invsf did not search from loc
 and returned 0 at the lower end

---
 mpsci/distributions/maxwell.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/maxwell.py b/mpsci/distributions/maxwell.py
index edfe226..612f0a2 100644
--- a/mpsci/distributions/maxwell.py
+++ b/mpsci/distributions/maxwell.py
@@ -82,10 +82,10 @@ def invcdf(p, loc=0, scale=1):
     p = _validate_p(p)
     loc, scale = _validate_params(loc, scale)
     if p == 0:
-        return mp.zero
+        return loc
     if p == 1:
         return mp.inf
-    x0, x1 = _find_bracket(lambda x: cdf(x, loc, scale), p, 0, mp.inf)
+    x0, x1 = _find_bracket(lambda x: cdf(x, loc, scale), p, loc, mp.inf)
     if x0 == x1:
         return x0
     try:
@@ -124,15 +124,15 @@ def invsf(p, loc=0, scale=1):
     if p == 0:
         return mp.inf
     if p == 1:
-        return mp.zero
-    x0, x1 = _find_bracket(lambda x: sf(x, loc, scale), p, 0, mp.inf)
+        return loc
+    x0, x1 = _find_bracket(lambda x: sf(x, loc, scale), p, loc, mp.inf)
     if x0 == x1:
         return x0
     try:
         x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0, x1),
                         solver='secant')
     except Exception:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
+        x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0 + x1)/2,
                         solver='newton')
     return x
 
-- 
2.43.0


From 00ee6373e03dbdee6816d69666eac80195208261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 21/79] fix: nakagami.invcdf and invsf did not search from loc
 and failed for p=0 and p=1

---
 mpsci/distributions/nakagami.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 296aec2..9398533 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -87,8 +87,15 @@ def invcdf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if p == 0:
+        return loc
+    if p == 1:
+        return mp.inf
     with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: cdf(x, nu, loc, scale), p, 0, mp.inf)
+        x0, x1 = _find_bracket(lambda x: cdf(x, nu, loc, scale), p, loc,
+                               mp.inf)
+        if x0 == x1:
+            return x0
         root = mp.findroot(lambda t: cdf(t, nu, loc, scale) - p, x0=(x0, x1))
     return root
 
@@ -116,8 +123,15 @@ def invsf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return loc
     with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: sf(x, nu, loc, scale), p, 0, mp.inf)
+        x0, x1 = _find_bracket(lambda x: sf(x, nu, loc, scale), p, loc,
+                               mp.inf)
+        if x0 == x1:
+            return x0
         root = mp.findroot(lambda t: sf(t, nu, loc, scale) - p, x0=(x0, x1))
     return root
 
-- 
2.43.0


From 89c447983dfae071f491d7460ff3a06639c8f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 22/79] fix: nakagami.mode was complex for nu < 1/2

---
 mpsci/distributions/nakagami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 9398533..a1edc5d 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -162,6 +162,8 @@ def mode(nu, loc=0, scale=1):
     Mode of the Nakagami distribution.
     """
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if nu < 0.5:
+        return loc
     return loc + scale * mp.sqrt(1 - 1/(2 * nu))
 
 
-- 
2.43.0


From 862ca6c5e0096524983db572aa89590cca759da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 23/79] fix: pareto.invcdf(1) and pareto.invsf(0) raised

---
 mpsci/distributions/pareto.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index 16e9812..eed9657 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -82,6 +82,8 @@ def invcdf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*inv_powm1(-p, -b)
 
 
@@ -108,6 +110,8 @@ def invsf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return loc + scale*mp.power(p, -1/b)
 
 
-- 
2.43.0


From 3a5fc9b77e51df0f785fe20d917f73607222ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 24/79] fix: f.invcdf(1) and f.invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/f.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index 74d2966..702d88d 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -88,6 +88,8 @@ def invcdf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     g = betaincinv(dfn/2, dfd/2, p, method='bisect')
     # XXX Possible loss of precision in (1 - g):
     return (dfd/dfn)*g/(1 - g)
@@ -118,6 +120,8 @@ def invsf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     g = betaincinv(dfd/2, dfn/2, p, method='bisect')
     # XXX Possible loss of precison in (1 - g):
     return (dfd/dfn)*(1 - g)/g
-- 
2.43.0


From fa9355a98000fe176c34f3426ce0ce9c8e3efafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 25/79] fix: burr12.invcdf(1) and invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/burr12.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 91c0c48..39badbd 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -72,6 +72,8 @@ def invcdf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return scale * mp.powm1(1 - p, -1/d)**(1/c)
 
 
@@ -106,6 +108,8 @@ def invsf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return scale * mp.powm1(p, -1/d)**(1/c)
 
 
-- 
2.43.0


From ff03964bd955993b06eccbc950c46f1c8795b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 26/79] fix: cauchy.invcdf and invsf raised or returned a
 finite value for p=0 and p=1

---
 mpsci/distributions/cauchy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/cauchy.py b/mpsci/distributions/cauchy.py
index f19e97d..e86c80b 100644
--- a/mpsci/distributions/cauchy.py
+++ b/mpsci/distributions/cauchy.py
@@ -52,6 +52,10 @@ def invcdf(p, loc=0, scale=1):
     """Quantile function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.ninf
+    if p == 1:
+        return mp.inf
     return loc - scale*mp.cot(mp.pi*p)
 
 
@@ -69,6 +73,10 @@ def invsf(p, loc=0, scale=1):
     """Inverse of the survival function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.ninf
     return loc + scale*mp.cot(mp.pi*p)
 
 
-- 
2.43.0


From 1b93a76fe934713595146122d85579d2d9cf212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 27/79] fix: benini.invcdf(1) and invsf(0) returned nan

---
 mpsci/distributions/benini.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benini.py b/mpsci/distributions/benini.py
index ddb1f10..61401ff 100644
--- a/mpsci/distributions/benini.py
+++ b/mpsci/distributions/benini.py
@@ -156,6 +156,8 @@ def invcdf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log1p(-p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
@@ -198,6 +200,8 @@ def invsf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log(p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
-- 
2.43.0


From c0fab38db5c2e3ca4662a5456aa0ac1185425715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 28/79] fix: benktander2.invcdf(1) and invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/benktander2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index 75da718..e90827c 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -91,6 +91,8 @@ def invcdf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 1:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log1p(-p)/a
     else:
@@ -109,6 +111,8 @@ def invsf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 0:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log(p)/a
     else:
-- 
2.43.0


From 357229dd84132f4fbbf3e90267abe132872e6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 29/79] fix: gamma_gompertz.invcdf(1) and invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/gamma_gompertz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/gamma_gompertz.py b/mpsci/distributions/gamma_gompertz.py
index 4ed4295..3ccd616 100644
--- a/mpsci/distributions/gamma_gompertz.py
+++ b/mpsci/distributions/gamma_gompertz.py
@@ -86,6 +86,8 @@ def invcdf(p, c, beta, scale):
     """
     c, beta, scale = _validate_params(c, beta, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     r = pow1pm1(-p, -1/c)
     return scale * mp.log1p(beta * r)
 
@@ -113,6 +115,8 @@ def invsf(p, c, beta, scale):
     """
     c, beta, scale = _validate_params(c, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = mp.powm1(p, -1/c)
     scale * mp.log1p(beta * r)
     return scale * mp.log1p(beta * r)
-- 
2.43.0


From 4264d456fc748282b423f9d7293b0ade101a870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 30/79] fix: genextreme.invcdf(1) and invsf(0) raised
 ZeroDivisionError for xi > 0

---
 mpsci/distributions/genextreme.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index e908b62..1580153 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -118,6 +118,8 @@ def invcdf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if xi > 0 and p == 1:
+        return mp.inf
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log(p), -xi)
     else:
@@ -154,6 +156,8 @@ def invsf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if xi > 0 and p == 0:
+        return mp.inf
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log1p(-p), -xi)
     else:
-- 
2.43.0


From 28506a8099628bc31dbbbcc0dbbd6d2e7e4fd1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 31/79] fix: hypsecant.invcdf(1) and invsf(1) returned a finite
 complex value

---
 mpsci/distributions/hypsecant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/hypsecant.py b/mpsci/distributions/hypsecant.py
index f6ac617..84a0f92 100644
--- a/mpsci/distributions/hypsecant.py
+++ b/mpsci/distributions/hypsecant.py
@@ -76,6 +76,8 @@ def invcdf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*mp.log(mp.tan(mp.pi*p/2))
 
 
@@ -86,6 +88,8 @@ def invsf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.ninf
     return loc - scale*mp.log(mp.tan(mp.pi*p/2))
 
 
-- 
2.43.0


From a28e11c49ad3ccdb3baffcdc14327ee308d14f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 32/79] fix: benktander1.cdf and sf were nan at infinity

---
 mpsci/distributions/benktander1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 7b5e338..5025c3a 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -65,6 +65,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     blogx = b*mp.log(x)
     return 1 - (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
@@ -80,6 +82,8 @@ def sf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     blogx = b*mp.log(x)
     return (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
-- 
2.43.0


From db34ba3f8de882101820d31169b4be1652405fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 33/79] fix: benktander2.cdf was nan at infinity

---
 mpsci/distributions/benktander2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index e90827c..592fecb 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -64,6 +64,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     p = (b - 1)*mp.log(x) + a/b*-mp.powm1(x, b)
     return -mp.expm1(p)
 
-- 
2.43.0


From 3e48a0022c6f7845bcc0bc01d2bd6c66944e7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 34/79] fix: f.cdf and f.sf were nan at infinity

---
 mpsci/distributions/f.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index 702d88d..16036df 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -74,6 +74,8 @@ def cdf(x, dfn, dfd):
     x = mp.mpf(x)
     if x <= 0:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     dfnx = dfn * x
     return mp.betainc(dfn/2, dfd/2, x2=dfnx/(dfnx + dfd),
                       regularized=True)
@@ -106,6 +108,8 @@ def sf(x, dfn, dfd):
     x = mp.mpf(x)
     if x <= 0:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     dfnx = dfn * x
     return mp.betainc(dfn/2, dfd/2, x1=dfnx/(dfnx + dfd),
                       regularized=True)
-- 
2.43.0


From 97e4778f7f65aafa533399602a476dd14f260d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 35/79] fix: invgauss.cdf, sf, logcdf and logsf were nan at
 infinity

---
 mpsci/distributions/invgauss.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/invgauss.py b/mpsci/distributions/invgauss.py
index 6413314..83aab94 100644
--- a/mpsci/distributions/invgauss.py
+++ b/mpsci/distributions/invgauss.py
@@ -96,6 +96,8 @@ def cdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
     z = (x - loc)/scale
     t1 = mp.ncdf((z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -111,6 +113,8 @@ def logcdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.ninf
+    if x == mp.inf:
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf((z/m - 1)/mp.sqrt(z)))
     t2 = (2/m) + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
@@ -147,6 +151,8 @@ def sf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.one
+    if x == mp.inf:
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.ncdf(-(z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -162,6 +168,8 @@ def logsf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if x == mp.inf:
+        return mp.ninf
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf(-(z/m - 1)/mp.sqrt(z)))
     t2 = 2/m + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
-- 
2.43.0


From 67396304e17088fd6a3fcf87d0fc9ee63b3c1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 36/79] fix: ncf.cdf was nan at infinity

---
 mpsci/distributions/ncf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index 4c512da..3166533 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -63,6 +63,8 @@ def cdf(x, dfn, dfd, nc):
     """
     if x < 0:
         return mp.zero
+    if x == mp.inf:
+        return mp.one
 
     def _cdfk(k):
         return _cdf_term(k, x, dfn, dfd, nc)
-- 
2.43.0


From db1542c2766ae66e0a958dc6d9443b60f790245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 37/79] fix: tukeylambda.cdf and sf raised at infinity for lam
 < 0

---
 mpsci/distributions/tukeylambda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index 27bd7c9..9d34fb0 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -128,6 +128,9 @@ def cdf(x, lam, loc=0, scale=1):
     if lam == 0:
         return mp.one/(mp.exp(-z) + 1)
 
+    if mp.isinf(z):
+        return mp.one if z > 0 else mp.zero
+
     pmin, pmax = _cdf_solver_bracket(z, lam)
     pmin, pmax = _refine_bracket(pmin, pmax, z, lam)
 
-- 
2.43.0


From 714baf123f1ff0a62dfc3ace326b61a44ffa3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 38/79] fix: laplace.invcdf and invsf accepted p outside [0, 1]

---
 mpsci/distributions/laplace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/laplace.py b/mpsci/distributions/laplace.py
index 824a9cb..9a4c6cd 100644
--- a/mpsci/distributions/laplace.py
+++ b/mpsci/distributions/laplace.py
@@ -12,7 +12,7 @@ wikipedia article:
 
 from mpmath import mp
 from mpsci.stats import mean as _mean
-from ._common import _seq_to_mp, _validate_loc_scale
+from ._common import _seq_to_mp, _validate_loc_scale, _validate_p
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'invcdf', 'invsf', 'interval_prob',
@@ -110,7 +110,7 @@ def invcdf(p, loc=0, scale=1):
     point function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p <= 0.5:
         q = loc + scale * mp.log(2*p)
     else:
@@ -124,7 +124,7 @@ def invsf(p, loc=0, scale=1):
     Laplace distribution inverse survival function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p >= 0.5:
         q = loc + scale * mp.log(2 - 2*p)
     else:
-- 
2.43.0


From 3a8574df10e45e492596e3e3574c3df9295bbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 39/79] fix: benktander2.mode did not validate the parameters

---
 mpsci/distributions/benktander2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index 592fecb..3c57587 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -149,6 +149,7 @@ def mode(a, b):
 
     The is 1 for all parameter values.
     """
+    _validate_ab(a, b)
     return mp.one
 
 
-- 
2.43.0


From 378c9603daab7c15b38d56854fc3138514e711cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 40/79] fix: kumaraswamy.support did not validate the
 parameters

---
 mpsci/distributions/kumaraswamy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 5dad0d7..7eace5a 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -129,6 +129,7 @@ def support(a, b):
     """
     Support of the Kumaraswamy distribution.
     """
+    _validate_a_b(a, b)
     return (mp.zero, mp.one)
 
 
-- 
2.43.0


From f1b0678374121069fbd65cf633045e1f2bc941b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 41/79] fix: loggamma.invcdf and invsf did not validate the
 parameters for p=0 and p=1

---
 mpsci/distributions/loggamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 1d9c665..6a06fb3 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -86,11 +86,11 @@ def invcdf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.ninf
     if p == 1:
         return mp.inf
-    k, theta = _validate_k_theta(k, theta)
     x0, x1 = _find_bracket(lambda t: cdf(t, k, theta), p, -mp.inf, mp.inf)
     root = mp.findroot(lambda t: cdf(t, k, theta) - p, x0=(x0, x1))
     return root
@@ -119,11 +119,11 @@ def invsf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.inf
     if p == 1:
         return mp.ninf
-    k, theta = _validate_k_theta(k, theta)
     x0, x1 = _find_bracket(lambda t: sf(t, k, theta), p, -mp.inf, mp.inf)
     root = mp.findroot(lambda t: sf(t, k, theta) - p, x0)
     return root
-- 
2.43.0


From ff6b089cd4ad6b4ccb5db4e89762aa1b72d37561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 42/79] fix: negative_binomial.support did not validate the
 parameters

---
 mpsci/distributions/negative_binomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index f744a78..22c0b00 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -42,13 +42,14 @@ def support(r, p):
     Examples
     --------
     >>> from mpsci.distributions import negative_binomial
-    >>> sup = negative_binomial.support()
+    >>> sup = negative_binomial.support(5, 0.25)
     >>> next(sup)
     0
     >>> next(sup)
     1
 
     """
+    _validate_params(r, p)
     return itertools.count(start=0)
 
 
-- 
2.43.0


From 8c567a61384a0de9f814fa9d5eb610a8c1fdf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 43/79] fix: chi2.invcdf and invsf did not validate p and did
 not terminate or return the ends of the support for p=0 and p=1

---
 mpsci/distributions/chi2.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index b51a314..029da2b 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -4,7 +4,7 @@ Chi-square distribution
 """
 
 from mpmath import mp
-from ._common import _validate_moment_n, _generic_inv
+from ._common import _validate_moment_n, _validate_p, _generic_inv
 from ..fun import xlogy
 
 
@@ -74,6 +74,12 @@ def invcdf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
+    p = _validate_p(p)
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.inf
     return _generic_inv(lambda x: cdf(x, k), p,
                         direction=1, solver=solver, **kwargs)
 
@@ -119,6 +125,12 @@ def invsf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
+    p = _validate_p(p)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.zero
     return _generic_inv(lambda x: sf(x, k), p,
                         direction=-1, solver=solver, **kwargs)
 
-- 
2.43.0


From fa0a528100f22f5f234300ffa152bb6d8240e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 44/79] fix: nct.mean was complex for nc < 0

---
 mpsci/distributions/nct.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/nct.py b/mpsci/distributions/nct.py
index 2e62cbe..94deb01 100644
--- a/mpsci/distributions/nct.py
+++ b/mpsci/distributions/nct.py
@@ -106,11 +106,10 @@ def mean(df, nc):
     # XXX Require df > 1.
     df = mp.mpf(df)
     nc = mp.mpf(nc)
-    logm = (mp.log(nc)
-            + mp.log(df/2)/2
+    logm = (mp.log(df/2)/2
             + mp.loggamma((df - 1)/2)
             - mp.loggamma(df/2))
-    return mp.exp(logm)
+    return nc*mp.exp(logm)
 
 
 @mp.extradps(5)
-- 
2.43.0


From d180cf2e87be9d97b8545dffc1ee209b79fbe180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 45/79] fix: logseries.support did not validate p

---
 mpsci/distributions/logseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/logseries.py b/mpsci/distributions/logseries.py
index fd4a1ae..45163c9 100644
--- a/mpsci/distributions/logseries.py
+++ b/mpsci/distributions/logseries.py
@@ -29,13 +29,14 @@ def support(p):
     Examples
     --------
     >>> from mpsci.distributions import logseries
-    >>> sup = logseries.support()
+    >>> sup = logseries.support(0.25)
     >>> next(sup)
     1
     >>> next(sup)
     2
 
     """
+    _validate_p(p)
     return itertools.count(start=1)
 
 
-- 
2.43.0


From 4e6da2c470bfa65c02d19230f3c4c96f9d8e2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 46/79] fix: trunc_discrete_exp.mode did not validate the
 parameters

---
 mpsci/distributions/trunc_discrete_exp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/trunc_discrete_exp.py b/mpsci/distributions/trunc_discrete_exp.py
index 33be23d..6fa310c 100644
--- a/mpsci/distributions/trunc_discrete_exp.py
+++ b/mpsci/distributions/trunc_discrete_exp.py
@@ -138,6 +138,7 @@ def mode(lam, n):
     The PMF of this distribution is decreasing (or constant if `lam` is 0),
     so the mode is always 0.
     """
+    _validate_params(lam, n)
     return 0
 
 
-- 
2.43.0


From fe255d28c0e0e676e54bb27a5c0932c78f95cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 47/79] fix: trunc_discrete_exp.__all__ listed names that do
 not exist

---
 mpsci/distributions/trunc_discrete_exp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/trunc_discrete_exp.py b/mpsci/distributions/trunc_discrete_exp.py
index 6fa310c..baebbaf 100644
--- a/mpsci/distributions/trunc_discrete_exp.py
+++ b/mpsci/distributions/trunc_discrete_exp.py
@@ -21,7 +21,7 @@ from ._common import _validate_x_bounds, Initial, _validate_counts, _validate_in
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf',
-           'mean', 'mode', 'var', 'skewness', 'kurtosis',
+           'mean', 'mode', 'var',
            'nll', 'mle', 'entropy']
 
 
-- 
2.43.0


From 16cc7df5d1a83fa9f93728e45fbb67eeef8b767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:59 +0000
Subject: [PATCH 48/79] fix: normal.nll used 1 instead of 0 as the default
 value of mu

---
 mpsci/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/normal.py b/mpsci/distributions/normal.py
index 99794f3..9aed212 100644
--- a/mpsci/distributions/normal.py
+++ b/mpsci/distributions/normal.py
@@ -130,7 +130,7 @@ def entropy(mu=0, sigma=1):
 
 
 @mp.extradps(5)
-def nll(x, mu=1, sigma=1):
+def nll(x, mu=0, sigma=1):
     """
     Negative log-likelihood for the normal distribution.
     """
-- 
2.43.0


From e350e2b0d193deb7f9d758632167c5c59bb2c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:59 +0000
Subject: [PATCH 49/79] fix: gamma.nll returned nan when k is 1 and x contains
 0

---
 mpsci/distributions/gamma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index d9d082e..5f95240 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -312,8 +312,9 @@ def nll(x, k, scale):
     sumx = mp.fsum(x)
     sumlnx = mp.fsum(mp.log(t) for t in x)
 
-    ll = ((k - 1)*sumlnx - sumx/scale - N*k*mp.log(scale) -
-          N*mp.loggamma(k))
+    # When k is 1, the term (k - 1)*log(x) is 0, even if x is 0.
+    t1 = (k - 1)*sumlnx if k != 1 else mp.zero
+    ll = t1 - sumx/scale - N*k*mp.log(scale) - N*mp.loggamma(k)
     return -ll
 
 
-- 
2.43.0


From 1b049609d39556b9998fb74cc28c2328017519cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:26 +0000
Subject: [PATCH 50/79] fix: pareto.mle ignored a fixed loc when scale was also
 fixed

---
 mpsci/distributions/pareto.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index eed9657..3dd406d 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -229,6 +229,14 @@ def mle(x, *, b=None, loc=None, scale=None):
             b_hat = 1/(s1/n - mp.log(scale_hat))
             return b_hat, loc, scale_hat
 
+        if loc_fixed:
+            # b is free, loc and scale are fixed.
+            _, loc, scale = _validate_params(1, loc, scale)
+            x = _validate_x_bounds(x, low=loc + scale, high=mp.inf)
+            s1 = mp.fsum([mp.log(t - loc) for t in x])
+            b_hat = 1/(s1/n - mp.log(scale))
+            return b_hat, loc, scale
+
         # b and loc are free, scale is fixed.
         _, _, scale = _validate_params(1, 1, scale)
         x = _validate_x_bounds(x, low=mp.ninf, high=mp.inf)
-- 
2.43.0


From bb244339cfba8a335a5685a936e3b5786920be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 51/79] fix: odds_ratio_ci raised TypeError for the sample odds
 ratio

---
 mpsci/stats/_odds_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 95096c4..1b8f096 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -194,7 +194,7 @@ def _sample_odds_ratio_ci(table, confidence_level,
     oddsratio = _sample_odds_ratio(table)
     log_or = mp.log(oddsratio)
     a, b, c, d = _unpack_table_to_mpf(table)
-    se = mp.sqrt(sum(1/a + 1/b + 1/c + 1/d))
+    se = mp.sqrt(1/a + 1/b + 1/c + 1/d)
     if alternative == 'less':
         z = normal.invcdf(confidence_level)
         loglow = mp.ninf
-- 
2.43.0


From 76ddcd306d4306993f9d53222dcce449b3a3d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 52/79] fix: marcumq and cmarcumq did arithmetic with float and
 int arguments in double precision

---
 mpsci/fun/_marcumq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpsci/fun/_marcumq.py b/mpsci/fun/_marcumq.py
index 3ffadd5..8ab6f9b 100644
--- a/mpsci/fun/_marcumq.py
+++ b/mpsci/fun/_marcumq.py
@@ -40,6 +40,9 @@ def marcumq(m, a, b):
     mpf('0.07558718754263240906718640000640082605610073')
 
     """
+    m = mp.mpf(m)
+    a = mp.mpf(a)
+    b = mp.mpf(b)
     if a == 0:
         if m == 1:
             q = mp.exp(-b**2/2)
@@ -78,6 +81,9 @@ def cmarcumq(m, a, b):
 
     *See also:* :func:`marcumq`
     """
+    m = mp.mpf(m)
+    a = mp.mpf(a)
+    b = mp.mpf(b)
     if a == 0:
         if m == 1:
             q = -mp.expm1(-b**2/2)
-- 
2.43.0


From 11d3c0525acc3eecce3c51daefd2a9a6885cb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 53/79] fix: logsumexp subtracted float values in double
 precision

---
 mpsci/fun/_logsumexp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/fun/_logsumexp.py b/mpsci/fun/_logsumexp.py
index e8fe211..b189af3 100644
--- a/mpsci/fun/_logsumexp.py
+++ b/mpsci/fun/_logsumexp.py
@@ -41,6 +41,7 @@ def logsumexp(logs, weights=None):
     >>> mp.log(mp.fsum([wi*mp.exp(xi) for xi, wi in zip(x, w)]))
     mpf('1.838387764326144472528490234')
     """
+    logs = [mp.mpf(t) for t in logs]
     log_max = max(logs)
     exps = [mp.exp(t - log_max) for t in logs]
     if weights is None:
-- 
2.43.0


From 273cf1b807adb9d38f2ea34cd13efcd6f9b4a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 54/79] fix: pearsonr rounded the data to double precision

---
 mpsci/stats/_pearsonr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 9f42e81..9b563c0 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -53,8 +53,8 @@ def pearsonr(x, y, alternative='two-sided'):
     if len(x) == 2:
         return mp.sign(x[1] - x[0])*mp.sign(y[1] - y[0]), mp.one
 
-    x = [mp.mpf(float(t)) for t in x]
-    y = [mp.mpf(float(t)) for t in y]
+    x = [mp.mpf(t) for t in x]
+    y = [mp.mpf(t) for t in y]
 
     xmean = sum(x) / len(x)
     ymean = sum(y) / len(y)
-- 
2.43.0


From 65006d9406a5f0e209081ebf5a7317473d80804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 55/79] fix: weighted mean multiplied float values by float
 weights in double precision

---
 mpsci/stats/_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 7d4d9c7..aa95e24 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -52,7 +52,7 @@ def mean(x, weights=None):
             return mp.fsum(x) / len(x)
         if mp.fsum(weights) == 0:
             raise ZeroDivisionError('sum(weights) must be nonzero.')
-        return (mp.fsum(t*w for t, w in zip(x, weights)) /
+        return (mp.fsum(mp.convert(t)*w for t, w in zip(x, weights)) /
                 mp.fsum(weights))
 
 
-- 
2.43.0


From b3f922813fb4d3beb0e61a68e906492670a97cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:36 +0000
Subject: [PATCH 56/79] fix: logsumexp returned nan when the maximum of the
 logs is infinite

---
 mpsci/fun/_logsumexp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/fun/_logsumexp.py b/mpsci/fun/_logsumexp.py
index b189af3..2d1299b 100644
--- a/mpsci/fun/_logsumexp.py
+++ b/mpsci/fun/_logsumexp.py
@@ -43,6 +43,8 @@ def logsumexp(logs, weights=None):
     """
     logs = [mp.mpf(t) for t in logs]
     log_max = max(logs)
+    if mp.isinf(log_max) and (weights is None or log_max < 0):
+        return log_max
     exps = [mp.exp(t - log_max) for t in logs]
     if weights is None:
         result = mp.log(mp.fsum(exps)) + log_max
-- 
2.43.0


From 966e00f85141679408dbf98a1640a5f54956c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:36 +0000
Subject: [PATCH 57/79] fix: spherical_besselj and spherical_besseli raised
 ZeroDivisionError at z = 0

---
 mpsci/fun/_spherical_bessel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/fun/_spherical_bessel.py b/mpsci/fun/_spherical_bessel.py
index 451b90b..a42f300 100644
--- a/mpsci/fun/_spherical_bessel.py
+++ b/mpsci/fun/_spherical_bessel.py
@@ -11,6 +11,8 @@ def spherical_besselj(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
     return mp.besselj(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
 
 
@@ -35,6 +37,8 @@ def spherical_besseli(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
     return mp.besseli(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
 
 
-- 
2.43.0


From 2b31b308588f5d47638bea0edd3da2974868b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 58/79] fix: fishers_noncentral_hypergeometric.support_pmf
 returned its cached list

---
 mpsci/distributions/fishers_noncentral_hypergeometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/fishers_noncentral_hypergeometric.py b/mpsci/distributions/fishers_noncentral_hypergeometric.py
index 2909fff..9f9f053 100644
--- a/mpsci/distributions/fishers_noncentral_hypergeometric.py
+++ b/mpsci/distributions/fishers_noncentral_hypergeometric.py
@@ -117,7 +117,7 @@ def support_pmf(nc, ntotal, ngood, nsample):
     _hg._validate(ntotal, ngood, nsample)
     prec = mp.prec
     sup, values = _support_pmf(nc, ntotal, ngood, nsample, prec)
-    return sup, values
+    return sup, list(values)
 
 
 _c_k_formula = r"""
-- 
2.43.0


From c8cfbda09094f4b3b2fe2c7345be55323e956902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 59/79] fix: betaincinv returned roots greater than 1

---
 mpsci/fun/_inv_reg_inc_beta.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpsci/fun/_inv_reg_inc_beta.py b/mpsci/fun/_inv_reg_inc_beta.py
index cc57129..a83cda3 100644
--- a/mpsci/fun/_inv_reg_inc_beta.py
+++ b/mpsci/fun/_inv_reg_inc_beta.py
@@ -120,8 +120,9 @@ def betaincinv(a, b, y, method='findroot', complement=False):
         except Exception:
             raise RuntimeError('failed to find the inverse with '
                                'mpmath.mp.findroot')
-        if isinstance(y, mp.mpc) or y < 0:
+        if isinstance(y, mp.mpc) or y < 0 or y > 1:
             raise RuntimeError('mpmath.mp.findroot converged to an invalid '
-                               '(negative or complex) root.  Try providing an '
-                               'initial guess, or use method="bisect"')
+                               '(negative, greater than 1 or complex) root.  '
+                               'Try providing an initial guess, or use '
+                               'method="bisect"')
         return y
-- 
2.43.0


From e439f9018fcb61e37febc399cad142726da88806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 60/79] fix: pearsonr returned |r| > 1 and a complex p-value
 for exactly linear data

---
 mpsci/stats/_pearsonr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 9b563c0..b969997 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -65,6 +65,9 @@ def pearsonr(x, y, alternative='two-sided'):
     num = sum(s*t for s, t in zip(xm, ym))
     den = mp.sqrt(sum(t**2 for t in xm) * sum(t**2 for t in ym))
     r = num / den
+    if abs(r) > 1:
+        # The magnitude of r can exceed 1 only because of rounding errors.
+        r = mp.sign(r)
 
     n = len(x)
     a = mp.mpf(float(n))/2 - 1
-- 
2.43.0


From 94fcad09daa8cda00e1ca5a9b64dc2de7c8759a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 61/79] fix: conditional odds_ratio_ci(1) did not terminate

---
 mpsci/stats/_odds_ratio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 1b8f096..ff942dc 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -102,7 +102,7 @@ def _ci_upper(table, alpha):
     """
     Compute the upper end of the confidence interval.
     """
-    if mp.isinf(_sample_odds_ratio(table)):
+    if alpha == 0 or mp.isinf(_sample_odds_ratio(table)):
         return mp.inf
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
@@ -117,7 +117,7 @@ def _ci_lower(table, alpha):
     """
     Compute the lower end of the confidence interval.
     """
-    if _sample_odds_ratio(table) == 0:
+    if alpha == 0 or _sample_odds_ratio(table) == 0:
         return mp.zero
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
-- 
2.43.0


From bd96c230d59633488cf1458d611670f66e39d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 62/79] fix: anova_oneway raised ZeroDivisionError when the
 values within each group are equal

---
 mpsci/stats/_anova.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mpsci/stats/_anova.py b/mpsci/stats/_anova.py
index 036c052..0b2dfae 100644
--- a/mpsci/stats/_anova.py
+++ b/mpsci/stats/_anova.py
@@ -58,13 +58,18 @@ def anova_oneway(*args):
         grand_total += mp.fsum(group)
     grand_mean = grand_total / n
 
-    v = mp.fsum(mp.fsum((g - grand_mean)**2 for g in group)
-                for group in groups)
-    vb = mp.fsum(len(group)*(mean(group) - grand_mean)**2
-                    for group in groups)
-    vw = v - vb
-    F = vb/(num_groups - 1) / (vw/(n - num_groups))
+    means = [mean(group) for group in groups]
+    vb = mp.fsum(len(group)*(m - grand_mean)**2
+                 for group, m in zip(groups, means))
+    vw = mp.fsum(mp.fsum((g - m)**2 for g in group)
+                 for group, m in zip(groups, means))
     dof_num = num_groups - 1
     dof_den = n - num_groups
+    if vw == 0:
+        # There is no variation within the groups.
+        if vb == 0:
+            return ANOVAOneWayResult(f=mp.nan, p=mp.nan)
+        return ANOVAOneWayResult(f=mp.inf, p=mp.zero)
+    F = vb/dof_num / (vw/dof_den)
     p = f.sf(F, dof_num, dof_den)
     return ANOVAOneWayResult(f=F, p=p)
-- 
2.43.0


From c99d0d2c6b06b4ecd5f1d87d9d53fe4e17078316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 63/79] fix: multivariate_hypergeometric.pmf was positive or
 raised at points outside the support

---
 mpsci/distributions/multivariate_hypergeometric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 584c88d..82736df 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -84,6 +84,12 @@ def logpmf(point, colors, nsample):
     mpf('-2.121263036533174590973082873')
     """
     _validate_params(colors, nsample)
+    if len(point) != len(colors):
+        raise ValueError("point and colors must have the same length.")
+    if (sum(point) != nsample
+            or any(k < 0 or k > color for color, k in zip(colors, point))):
+        # The point is not in the support of the distribution.
+        return mp.ninf
     total = sum(colors)
     logdenom = logbinomial(total, nsample)
     lognumer = 0
-- 
2.43.0


From 1ed2e4211c7bcf4f65c1f0b1c4cb8915bf17ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 64/79] fix: multivariate_hypergeometric.cov([1, 0], 0) raised
 ZeroDivisionError

---
 mpsci/distributions/multivariate_hypergeometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 82736df..b70dc91 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -203,7 +203,7 @@ def cov(colors, nsample):
     _validate_params(colors, nsample)
     n = len(colors)
     s = mp.fsum(colors)
-    if nsample == s:
+    if nsample == 0 or nsample == s:
         return [[mp.zero]*n for _ in range(n)]
     u = [k / s for k in colors]
     f = nsample * (s - nsample) / (s - 1)
-- 
2.43.0


From d4d318a11482d05b333db1882b681fa60ba93a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:04 +0000
Subject: [PATCH 65/79] fix: gmean silently ignored a length mismatch of x and
 weights

---
 mpsci/stats/_basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index aa95e24..ffcaf34 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -118,6 +118,8 @@ def gmean(x, *, weights=None):
     """
     if any(t < 0 for t in x):
         raise ValueError("all values in x must be nonnegative.")
+    if weights is not None and len(weights) != len(x):
+        raise ValueError('x and weights must have the same length.')
     with mp.extraprec(16):
         if weights is None:
             if 0 in x:
-- 
2.43.0


From 0a7b889b463646e67356bea1364c9cb2124cd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 66/79] fix: genextreme.noncentral_moment raised
 ZeroDivisionError for xi = 0

---
 mpsci/distributions/genextreme.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index 1580153..be07673 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -291,6 +291,17 @@ def entropy(xi, mu=0, sigma=1):
 def _standard_noncentral_moment(n, xi):
     if n == 0:
         return mp.one
+    if xi == 0:
+        # Gumbel distribution; use the recurrence that expresses the moments
+        # in terms of the cumulants, which are euler for k = 1 and
+        # (k - 1)!*zeta(k) for k > 1.
+        kappa = [mp.zero, +mp.euler]
+        kappa.extend([mp.factorial(k - 1)*mp.zeta(k) for k in range(2, n + 1)])
+        m = [mp.one]
+        for j in range(1, n + 1):
+            m.append(mp.fsum([mp.binomial(j - 1, k - 1)*kappa[k]*m[j - k]
+                              for k in range(1, j + 1)]))
+        return m[n]
     if xi < mp.one/n:
         v = [mp.binomial(n, k) * (-1)**k * mp.gamma(1 - xi*k)
              for k in range(n+1)]
-- 
2.43.0


From dfa73344d2b9adc2add036fa29ff69553ccc90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 67/79] fix: tukeylambda.noncentral_moment raised
 ZeroDivisionError for lam = 0

---
 mpsci/distributions/tukeylambda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index 9d34fb0..ffcd6c9 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -234,6 +234,9 @@ def _standard_noncentral_moment(n, lam):
         return mp.zero
     if lam * n <= -1:
         return mp.nan
+    if lam == 0:
+        # Logistic distribution.
+        return 2*mp.factorial(n)*mp.altzeta(n)
     terms = [(-1)**k * mp.binomial(n, k) * mp.beta(lam * k + 1, (n - k) * lam + 1)
              for k in range(0, n + 1)]
     m = mp.fsum(terms) / lam**n
-- 
2.43.0


From 47947368469fe33c0af61d14a6d2a876fd4ccab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 68/79] fix: genpareto.pdf raised ZeroDivisionError at the
 upper end of the support for xi < -1

---
 mpsci/distributions/genpareto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/genpareto.py b/mpsci/distributions/genpareto.py
index 9ebe2b7..52eb05f 100644
--- a/mpsci/distributions/genpareto.py
+++ b/mpsci/distributions/genpareto.py
@@ -30,7 +30,10 @@ def pdf(x, xi, mu=0, sigma=1):
     if (xi >= 0 and z < 0) or (xi < 0 and (z < 0 or z > -1/xi)):
         p = 0
     else:
-        if xi != 0:
+        if xi < -1 and z == -1/xi:
+            # The PDF is unbounded at the upper end of the support.
+            t = mp.inf
+        elif xi != 0:
             t = mp.power(1 + z*xi, -(1/xi + 1))
         else:
             t = mp.exp(-z)
-- 
2.43.0


From 7030bbd1e95e664a58211d9e83c63fd36752a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 69/79] fix: genextreme.pdf raised ZeroDivisionError at the
 upper end of the support for xi < -1

---
 mpsci/distributions/genextreme.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index be07673..67d5c8d 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -43,6 +43,9 @@ def pdf(x, xi, mu=0, sigma=1):
             return mp.zero
         if xi < 0 and x > bound:
             return mp.zero
+        if xi < -1 and x == bound:
+            # The PDF is unbounded at the upper end of the support.
+            return mp.inf
 
     # Formula from wikipedia, which has a sign convention for xi that
     # is the opposite of scipy's shape parameter.
-- 
2.43.0


From 3365500f5f777d55aad7333459af79167df9dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 70/79] fix: genextreme.logpdf was -inf at the upper end of the
 support for xi <= -1

---
 mpsci/distributions/genextreme.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index 67d5c8d..e8e7e78 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -69,8 +69,12 @@ def logpdf(x, xi, mu=0, sigma=1):
         bound = mu - sigma/xi
         if xi > 0 and x <= bound:
             return mp.ninf
-        if xi < 0 and x >= bound:
+        if xi < 0 and x > bound:
             return mp.ninf
+        if xi < 0 and x == bound:
+            if xi == -1:
+                return -mp.log(sigma)
+            return mp.inf if xi < -1 else mp.ninf
 
     # Formula from wikipedia, which has a sign convention for xi that
     # is the opposite of scipy's shape parameter.
-- 
2.43.0


From 5ffe93e34a8f2aa77c2078fad88554c62931dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 71/79] fix: genpareto.logpdf was nan at the upper end of the
 support for xi = -1

---
 mpsci/distributions/genpareto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/genpareto.py b/mpsci/distributions/genpareto.py
index 52eb05f..e6664b3 100644
--- a/mpsci/distributions/genpareto.py
+++ b/mpsci/distributions/genpareto.py
@@ -52,7 +52,9 @@ def logpdf(x, xi, mu=0, sigma=1):
     if (xi >= 0 and z < 0) or (xi < 0 and (z < 0 or z > -1/xi)):
         p = -mp.inf
     else:
-        if xi != 0:
+        if xi == -1:
+            logt = mp.zero
+        elif xi != 0:
             logt = -(1/xi + 1)*mp.log(1 + xi*z)
         else:
             logt = -z
-- 
2.43.0


From 96516fa1a5f4c03a66915c2134f0e33cc2471c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 72/79] fix: tukeylambda.noncentral_moment was finite for odd
 orders n with lam*n <= -1

---
 mpsci/distributions/tukeylambda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index ffcd6c9..2d5848f 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -229,11 +229,11 @@ def _standard_noncentral_moment(n, lam):
     """
     if n == 0:
         return mp.one
+    if lam * n <= -1:
+        return mp.nan
     if n % 2 == 1:
         # Moments of odd order are zero.
         return mp.zero
-    if lam * n <= -1:
-        return mp.nan
     if lam == 0:
         # Logistic distribution.
         return 2*mp.factorial(n)*mp.altzeta(n)
-- 
2.43.0


From 7adfca63fe03dbb115e7a0696bdba73ce0a7a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 73/79] fix: logseries.mle accepted values outside the support
 and invalid counts

---
 mpsci/distributions/logseries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/logseries.py b/mpsci/distributions/logseries.py
index 45163c9..5b3d79b 100644
--- a/mpsci/distributions/logseries.py
+++ b/mpsci/distributions/logseries.py
@@ -187,6 +187,9 @@ def mle(x, *, counts=None):
     mpf('0.9207611550739465028229025367922360801454828')
 
     """
+    if not all([mp.isint(t) and t >= 1 for t in x]):
+        raise ValueError('all values in x must be integers greater than 0')
+    counts = _validate_counts(x, counts, expand_none=False)
     with mp.extradps(mp.dps):
         m = _fmean(x, weights=counts)
         if m == 1:
-- 
2.43.0


From d2a8cb1f181af345817234e8b69c28967fc8bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 74/79] fix: poisson.mle accepted values outside the support

---
 mpsci/distributions/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/poisson.py b/mpsci/distributions/poisson.py
index 8aef8ab..d66e134 100644
--- a/mpsci/distributions/poisson.py
+++ b/mpsci/distributions/poisson.py
@@ -172,5 +172,8 @@ def mle(x, *, counts=None):
 
     Returns lambda, the estimated parameter of the Poisson distribution.
     """
+    x = _validate_x_bounds(x, low=0, high=None, strict_low=False)
+    if not all([mp.isint(t) and t >= 0 for t in x]):
+        raise ValueError('all values in x must be nonnegative integers')
     counts = _validate_counts(x, counts, expand_none=False)
     return _fmean(x, weights=counts)
-- 
2.43.0


From 3c1ecb2b7522ec7fe81090541b45b586b2feae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 75/79] fix: gamma.mle accepted fixed parameters that are not
 positive

---
 mpsci/distributions/gamma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 5f95240..67bac0a 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -262,6 +262,10 @@ def mle(x, *, k=None, scale=None):
 
     x must be a sequence of values.
     """
+    if k is not None and k <= 0:
+        raise ValueError('k must be positive')
+    if scale is not None and scale <= 0:
+        raise ValueError('scale must be positive')
     meanx = mp.fsum(x) / len(x)
     meanlnx = mp.fsum(mp.log(t) for t in x) / len(x)
 
-- 
2.43.0


From 9a38544e6017d3ee180781992c5d281b54e7e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 76/79] fix: gumbel_max.mle and gumbel_min.mle accepted a fixed
 scale that is not positive

---
 mpsci/distributions/gumbel_max.py | 3 +++
 mpsci/distributions/gumbel_min.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mpsci/distributions/gumbel_max.py b/mpsci/distributions/gumbel_max.py
index 57288a4..3481435 100644
--- a/mpsci/distributions/gumbel_max.py
+++ b/mpsci/distributions/gumbel_max.py
@@ -231,6 +231,9 @@ def mle(x, *, loc=None, scale=None):
     >>> gumbel_max.mle(x, scale=2)
     (mpf('9.1305625326153555632872'), mpf('2.0'))
     """
+    if scale is not None and scale <= 0:
+        raise ValueError('scale must be positive.')
+
     x = _seq_to_mp(x)
 
     if scale is None and loc is not None:
diff --git a/mpsci/distributions/gumbel_min.py b/mpsci/distributions/gumbel_min.py
index 6df97bf..f6acc32 100644
--- a/mpsci/distributions/gumbel_min.py
+++ b/mpsci/distributions/gumbel_min.py
@@ -222,6 +222,9 @@ def mle(x, *, loc=None, scale=None):
     >>> gumbel_min.mle(x, scale=2)
     (mpf('13.18226169025112165358'), mpf('2.0'))
     """
+    if scale is not None and scale <= 0:
+        raise ValueError('scale must be positive.')
+
     x = _seq_to_mp(x)
 
     if scale is None and loc is not None:
-- 
2.43.0


From c63eecedbea31ae7c89abd1d78cc75b4bd3d05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 77/79] fix: nakagami.mle accepted fixed parameters that are
 not positive

---
 mpsci/distributions/nakagami.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index a1edc5d..50cadc7 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -252,6 +252,11 @@ def mle(x, *, nu=None, loc=None, scale=None):
 
     Currently a fixed loc *must* be given.
     """
+    if nu is not None and nu <= 0:
+        raise ValueError('nu must be positive')
+    if scale is not None and scale <= 0:
+        raise ValueError('scale must be positive')
+
     if nu is not None and loc is not None and scale is not None:
         # Nothing to do.
         return nu, loc, scale
-- 
2.43.0


From 943cae53b4c36a4be2a6021234106fc99d51efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 78/79] fix: benktander1 compared b with a*(a+1)/2 before
 converting to mpf

---
 mpsci/distributions/benktander1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 5025c3a..d977482 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -13,13 +13,15 @@ __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'invcdf', 'invsf',
 
 
 def _validate_ab(a, b):
+    a = mp.mpf(a)
+    b = mp.mpf(b)
     if a <= 0:
         raise ValueError("'a' must be positive.")
     if b <= 0:
         raise ValueError("'b' must be positive.")
     if b > a*(a + 1)/2:
         raise ValueError("'b' must not be greater than a*(a+1)/2.")
-    return mp.mpf(a), mp.mpf(b)
+    return a, b
 
 
 @mp.extradps(5)
-- 
2.43.0


From 79d5143ced4ad2caed7444b4efcb7fe5fbd38849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 79/79] fix: studentt.invcdf: do not drop the sign when the
 bracket collapses to the root

---
 mpsci/distributions/studentt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/studentt.py b/mpsci/distributions/studentt.py
index a1fe127..cd4d50d 100644
--- a/mpsci/distributions/studentt.py
+++ b/mpsci/distributions/studentt.py
@@ -105,13 +105,14 @@ def invcdf(p, df):
         p0 = p
 
     x0, x1 = _find_bracket(lambda x: cdf(x, df), p0, mp.ninf, mp.inf)
-    if x0 == x1:
-        return x0
 
     def _func(x):
         return cdf(x, df) - p0
 
-    x = mp.findroot(_func, (x0, x1), solver='anderson')
+    if x0 == x1:
+        x = x0
+    else:
+        x = mp.findroot(_func, (x0, x1), solver='anderson')
     if p > 0.5:
         x = -x
 
-- 
2.43.0

