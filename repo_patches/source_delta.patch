From 18ed9795ec70088f88792a6d0d656c32c43f9b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 01/34] fix: ZTransform normalizes copies of the s-domain
 coefficients

The in-place division modified ndarrays owned by the caller, and raised
for integer coefficients.
---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From ce4588a633226e37947776eb48d40f930d95966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/34] fix: FirFilter promotes integer coefficients

Integer forward coefficients made the state and the reference signal
integers, silently truncating a real incident signal.
---
 diamondback/filters/fir_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..5338304 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -207,6 +207,7 @@ class FirFilter(object):
             b = numpy.concatenate((b, numpy.zeros(len(s) - len(b))))
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
+        b = b * 1.0
         super().__init__()
         self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
 
-- 
2.43.0


From 6a6cf57c3ac57eaa27ef0e696d91340c165eda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/34] fix: IirFilter extends a recursive coefficient array to
 a longer state

A state longer than the coefficients extended b and not a, and filter
raised for mismatched shapes.
---
 diamondback/filters/iir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..a3d2473 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,6 +202,8 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
+        if len(a) < len(self.b):
+            a = numpy.concatenate((a, numpy.zeros(len(self.b) - len(a))))
         self._a = numpy.array(a)
 
     @staticmethod
-- 
2.43.0


From 16690dc1da1cfa54e463a5486344abf9f89b2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/34] fix: DiversityModel instances may be serialized

An instance retained a lambda, which cannot be pickled, and
Serial.encode raised.
---
 diamondback/models/diversity_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..79c04ab 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -108,8 +108,8 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
         self._diversity = 0.0
+        self._style = style
         self._s = numpy.zeros((order + 1, 0))
 
     def clear(self) -> None:
@@ -155,7 +155,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From 864114f6568f245bb458418216ce0a38beb6796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/34] fix: DiversityModel.clear retains the order of an
 instance

A cleared state was sized by dimension rather than by order.
---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 79c04ab..c8b1a66 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From a4d9321e79740aedb66dcf7d9cabffdbc08bf7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/34] fix: DiversityModel does not reduce diversity in an
 initial replacement

The diversity of an initially filled state was taken to be zero, and a
member was replaced even if the minimum distance was reduced.
---
 diamondback/models/diversity_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index c8b1a66..e8ee7b9 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -149,6 +149,15 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                if not self._diversity:
+                    self._diversity = min(
+                        (
+                            DiversityModel.DISTANCE[self._style](self.s[uu, :], self.s[vv, :])
+                            for uu in range(0, cc - 1)
+                            for vv in range(uu + 1, cc)
+                        ),
+                        default=numpy.inf,
+                    )
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
                     u, s = numpy.inf, numpy.array(self.s)
-- 
2.43.0


From e60102130f464793532f6310f23307a07a4f2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 07/34] fix: WaveletTransform does not truncate an integer
 incident signal

---
 diamondback/transforms/wavelet_transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..32a7e6f 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -534,6 +534,7 @@ class WaveletTransform(object):
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        v = v * 1.0
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-- 
2.43.0


From 5ca7fd253f5f53bae9940dcee8b0f02a60919f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 08/34] fix: ComplexTransform accepts a complex signal of a
 single row

A shape of (1, N) is validated as legal, and raised in conversion.
---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..22387c3 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = numpy.reshape(x, cols)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From 817667e221683a3ac3e82691cef8a27491e36461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/34] fix: Complex filters accept complex signals of zero
 imaginary part

A complex signal in which each imaginary part is zero was directed to
hilbert, which raises for a complex type.
---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..b6bca59 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From ef236a055c42c9d45fa877bdc7c1eb582603a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/34] fix: ComplexFrequencyFilter initializes a coefficient
 to a frequency

An initial frequency was validated and ignored on construction.
---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index b6bca59..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From 20b3371f16672d7ba5c5e30a2dbeb307f10fe353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 11/34] fix: GoertzelFilter frequency assignment modifies
 coefficients

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From 71cb6f71e82ccafb2c0c3cd610c1df800d366b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/34] fix: FourierTransform inverse retains a nonzero edge of
 a window

If either edge of a window was zero, both edges were replaced, and the
sample at a nonzero edge was not restored.
---
 diamondback/transforms/fourier_transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..bfd1164 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,8 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
         if inverse:
-            if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
-                v[0], v[-1] = v[1], v[-2]
+            if numpy.isclose(v[0], 0.0):
+                v[0] = v[1]
+            if numpy.isclose(v[-1], 0.0):
+                v[-1] = v[-2]
             y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
-- 
2.43.0


From e89819316b2e85f9414ede57cdcedb9f56171c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 13/34] fix: FourierTransform is reversible for odd lengths

Halves of a spectrum of odd length were exchanged identically in forward
and inverse transforms, which is not self inverse, and frequency labels
were not frequencies of the transform.
---
 diamondback/transforms/fourier_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index bfd1164..22bdc78 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -91,12 +91,12 @@ class FourierTransform(object):
                 v[0] = v[1]
             if numpy.isclose(v[-1], 0.0):
                 v[-1] = v[-2]
-            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
+            y = numpy.fft.ifftshift(u)
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                numpy.fft.fftshift(numpy.fft.fftfreq(len(u), 0.5)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.fft.fftshift(y)
         return y, f
-- 
2.43.0


From 02585681b5938a721a26c5070bc80000b59e8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 14/34] fix: PsdTransform frequency labels for odd window
 lengths

---
 diamondback/transforms/psd_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..2834e7b 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -102,6 +102,6 @@ class PsdTransform(object):
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
-        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
+        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), (
+            2.0 * numpy.arange(0, len(b) // 2) / len(b)
         )
-- 
2.43.0


From 6ab5ca0325bacaa923d87f1cec2923b27cee82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 15/34] fix: PolyphaseRateFilter consumes an incident signal
 completely

The length of a reference signal was rounded per call, and incident
samples following the last reference sample were discarded, biasing the
rate and corrupting the state of a signal filtered in segments.
---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..6de821d 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,7 +149,7 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        y = numpy.zeros((int(numpy.ceil(len(x) * self.rate)) + 1) if self.rate else 0)
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
         ii, jj = 0, 0
-- 
2.43.0


From 5f71a20c33909e3f31e06a0cc676efb21dda68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 16/34] fix: PidFilter integral is limited as documented

An integral which would exceed a limit was held at a previous value
rather than limited, and was held indefinitely at a value in excess of
a limit which was reduced.
---
 diamondback/filters/pid_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..ce31754 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -82,8 +82,9 @@ class PidFilter(FirFilter):
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
-            if abs(self.s[1] + x[ii]) < self.limit:
-                self.s[1] += x[ii]
+            self.s[1] += x[ii]
+            if abs(self.s[1]) > self.limit:
+                self.s[1] *= self.limit / abs(self.s[1])
             self.s[0] = x[ii]
             y[ii] = self.b.dot(self.s)
         return y
-- 
2.43.0


From 7f5d265819099f40eeee01eb863f592545fa232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 17/34] fix: GaussianModel estimates a maximum likelihood
 covariance

A covariance was normalized by dimension rather than by the quantity of
observations, and depended upon the quantity of observations.
---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From da587a63f7d4d2616a6a3df5af5169f7845b6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 18/34] fix: Gaussian models retain a previous fit if a fit
 raises

An instance was partially replaced, and predict silently ranked a subset
of classes.
---
 diamondback/models/gaussian_mixture_model.py | 6 +++---
 diamondback/models/gaussian_model.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..6a4da37 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -100,8 +100,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        models = []
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
@@ -111,7 +110,8 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            models.append(model)
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 8324b8d..9703c45 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -77,14 +77,14 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        model = []
         r = self.regularize * numpy.identity(x.shape[1])
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            model.append(dict(covariancei=i, mean=u))
+        self._model, self._shape = model, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
-- 
2.43.0


From 0a491ede260657758eb74375a5617f6b8165394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 19/34] fix: Gaussian models predict labels

Predictions were ordinals of sorted labels, which are labels only if
labels are contiguous from zero.
---
 diamondback/models/gaussian_mixture_model.py | 9 +++++----
 diamondback/models/gaussian_model.py         | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 6a4da37..cafb32d 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -78,6 +78,7 @@ class GaussianMixtureModel(object):
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
         self._index = index
+        self._label = numpy.array([], int)
         self._model: list[sklearn.mixture.GaussianMixture] = []
         self._order = order
         self._regularize = regularize
@@ -100,8 +101,8 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        models = []
-        for ii in sorted(set(y)):
+        models, label = [], sorted(set(y))
+        for ii in label:
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
                 covariance_type="full",
@@ -111,7 +112,7 @@ class GaussianMixtureModel(object):
             )
             model.fit(z)
             models.append(model)
-        self._model, self._shape = models, x[0].shape
+        self._label, self._model, self._shape = numpy.array(label), models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
@@ -149,4 +150,4 @@ class GaussianMixtureModel(object):
                         model.weights_[kk],
                     )
                     v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
-        return numpy.fliplr(numpy.argsort(v, axis=1))
+        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 9703c45..83cb1af 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
-            model.append(dict(covariancei=i, mean=u))
+            model.append(dict(covariancei=i, label=ii, mean=u))
         self._model, self._shape = model, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
@@ -116,4 +116,4 @@ class GaussianModel(object):
                 model = self._model[ii]
                 i, u = model["covariancei"], model["mean"]
                 v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
-        return numpy.argsort(v, axis=1)
+        return numpy.array([model["label"] for model in self._model])[numpy.argsort(v, axis=1)]
-- 
2.43.0


From 4eaf0a5026b33566c2669a9a994ead4092c91f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 20/34] fix: FirFilter and IirFilter responses correspond to
 frequency labels

A response or delay of odd length was evaluated at frequencies other than
the frequencies returned.
---
 diamondback/filters/fir_filter.py | 14 ++++----------
 diamondback/filters/iir_filter.py | 14 ++++----------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 5338304..97ff8a6 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -231,11 +231,8 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = group_delay((self.b, [1.0]), math.pi * f)[1] * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -295,11 +292,8 @@ class FirFilter(object):
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-        y, f = (
-            freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-        )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+        y = freqz(self.b, [1.0, 0.0], math.pi * f)[1] ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a3d2473..5af9aef 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -275,11 +275,8 @@ class IirFilter(FirFilter):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), math.pi * f)[1] * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -348,11 +345,8 @@ class IirFilter(FirFilter):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            y, f = (
-                freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
-            )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            f = numpy.linspace(-1.0, 1.0 - 2.0 / length, length)
+            y = freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), math.pi * f)[1] ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 5b81010981804ad4a046a9b0121e4b9adf586e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 21/34] fix: WaveletTransform Daubechies order 11 coefficient

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 32a7e6f..552e5f0 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From 0278bdde4cc98d8dccd2a957af9641fe615dd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 22/34] fix: WaveletTransform Coiflet order 5 coefficients

---
 diamondback/transforms/wavelet_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 552e5f0..b2f6390 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.07273261951253,
+                    0.33789766245748,
+                    0.85257202021160,
+                    0.38486484686486,
+                    -0.07273261951253,
+                    -0.01565572813579,
                 ]
             ),
             11: numpy.array(
-- 
2.43.0


From 4a6f59588cbff4bdeca7468dedfa5bc90d5a9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 23/34] fix: PolyphaseRateFilter instances may be deserialized
 in a new process

---
 diamondback/filters/polyphase_rate_filter.py | 24 ++++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 6de821d..d5ef1d7 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -88,7 +88,7 @@ class PolyphaseRateFilter(object):
 
     @property
     def b(self):
-        return PolyphaseRateFilter.B
+        return PolyphaseRateFilter._evaluate()
 
     @property
     def rate(self):
@@ -121,6 +121,22 @@ class PolyphaseRateFilter(object):
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         super().__init__()
+        b = PolyphaseRateFilter._evaluate()
+        self._index = 0
+        self._rate = rate
+        self._s = numpy.zeros(b.shape[1])
+
+    @staticmethod
+    def _evaluate() -> numpy.ndarray:
+        """Evaluates coefficients, which are shared by instances, on demand.
+
+        An instance may be deserialized before any instance is initialized.
+
+        Returns
+        -------
+        b: numpy.ndarray - forward coefficient
+        """
+
         b = PolyphaseRateFilter.B
         rr, cc = b.shape
         if not b.any():
@@ -129,9 +145,7 @@ class PolyphaseRateFilter(object):
             for ii in range(0, rr):
                 b[ii, :] /= sum(b[ii, :])
             PolyphaseRateFilter.B = b
-        self._index = 0
-        self._rate = rate
-        self._s = numpy.zeros(cc)
+        return b
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
@@ -150,7 +164,7 @@ class PolyphaseRateFilter(object):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros((int(numpy.ceil(len(x) * self.rate)) + 1) if self.rate else 0)
-        b = PolyphaseRateFilter.B
+        b = PolyphaseRateFilter._evaluate()
         rr = b.shape[0]
         ii, jj = 0, 0
         while (ii < len(x)) and (jj < len(y)):
-- 
2.43.0


From 4ebb09e1c50b301621c8ad4b9ce474338d5aebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 24/34] fix: Log writes the location at which the exception
 itself was raised

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..48e458a 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -151,8 +151,8 @@ class Log(object):
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
+                    info = entry.__traceback__
                     entry = f"Exception = {type(entry).__name__} {entry}"
-                    info = sys.exc_info()[-1]
                     while info:
                         entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                         info = info.tb_next
-- 
2.43.0


From 802057981eaf55c06b0450cd15b36db8d0b3f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 25/34] fix: assigned coefficients and states are copies of
 lists or arrays

---
 diamondback/filters/fir_filter.py            | 4 ++--
 diamondback/filters/iir_filter.py            | 2 +-
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 97ff8a6..2ff966b 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        self._b = numpy.array(b) * 1.0
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s) * 1.0
 
     def __init__(
         self,
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 5af9aef..1f14645 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = numpy.array(a) * 1.0
 
     def __init__(
         self,
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index d5ef1d7..e3279a6 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s) * 1.0
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index e8ee7b9..ee584c1 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s) * 1.0
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From f63884da81796d000ab26e97604b0e27cbf375ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 26/34] fix: PolynomialRateFilter of rate zero produces an
 empty signal for every order

---
 diamondback/filters/polynomial_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 98ee119..c653f4e 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -122,7 +122,7 @@ class PolynomialRateFilter(object):
                     [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]],
                 )
             )
-            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate
+            u, v = numpy.linspace(-1.0, 2.0, 4), (1.0 / self.rate) if self.rate else numpy.inf
             ii, jj = 0, 0
             index = 0.0
             while ii < cc:
-- 
2.43.0


From bbbe80b808c7cf2fbff9727da3ce68711ab55ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 27/34] fix: RankFilter does not truncate retained samples in a
 call of integers

The type of an output was the type of an incident signal, and a window
may retain samples of previous calls, or of a reset, of another type.
---
 diamondback/filters/rank_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..5bd68c1 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,7 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        y = numpy.zeros(len(x), type(self.s[0]))
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From b2195e33c36aca306536c48fb8e41d6d98ff9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 28/34] fix: FirFilter design converges for high orders

The iteration of a cutoff frequency is of a fixed rate, and oscillated
about a solution for orders of about 256 and more, without satisfying
the specified frequency.
---
 diamondback/filters/fir_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 2ff966b..de8b75f 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -172,6 +172,7 @@ class FirFilter(object):
             window = (style.lower(), 7.0) if style == "Kaiser" else style.lower()
             eps, error = float(numpy.finfo(float).eps), numpy.inf
             index, rate, scale = 500, 3.0e-2, 1.0
+            prior = 0.0
             for _ in range(0, index):
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
@@ -192,6 +193,9 @@ class FirFilter(object):
                         b, error = v, abs(e)
                         if error < (10e3 * eps):
                             break
+                    if (e * prior < 0.0) and (abs(e) > 0.5 * abs(prior)):
+                        rate *= 0.5
+                    prior = e
                     scale = numpy.maximum(scale + rate * e, eps)
             if complement:
                 b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
-- 
2.43.0


From 0237296d4a5d6f20df2c0f4504c41be77b56d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 29/34] fix: GoertzelFilter scales complex signals of single
 precision as complex signals

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index cf04372..9155103 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -114,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From 73b93ac9d1fe32972b6ad5d48b3597bb3ee635d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 30/34] fix: ComplexExponentialFilter accumulates phase in
 double precision

---
 diamondback/filters/complex_exponential_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..c7bc7ff 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -81,6 +81,7 @@ class ComplexExponentialFilter(object):
             x = numpy.array(list(x))
         if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
+        x = x.real.astype(float)
         y = numpy.zeros(len(x), complex)
         phase = self.phase
         for ii in range(0, len(x)):
-- 
2.43.0


From 7c44cc770f8f4b4963ec4dd9ea9bebc2aa37af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 31/34] fix: FourierTransform and PsdTransform weight integers
 without overflow

---
 diamondback/transforms/fourier_transform.py | 1 +
 diamondback/transforms/psd_transform.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 22bdc78..c2acffc 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -86,6 +86,7 @@ class FourierTransform(object):
             raise ValueError(f"B = {b}")
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
+        u = u * 1.0
         if inverse:
             if numpy.isclose(v[0], 0.0):
                 v[0] = v[1]
diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 2834e7b..3514d4c 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -98,6 +98,7 @@ class PsdTransform(object):
             raise ValueError(f"B = {b}")
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
+        b = b * 1.0
         y = [
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
-- 
2.43.0


From 5088c4223d3390d269b81e13f403145bfad6a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:30 +0000
Subject: [PATCH 32/34] fix: ZTransform impulse invariance of repeated poles

---
 diamondback/transforms/z_transform.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 70a1917..9e80958 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -117,11 +117,11 @@ class ZTransform(object):
             a, b = numpy.ones(1) + 0j, 0j  # type: ignore
             for ii in range(0, len(r)):
                 a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(p[ii] / t)]))
-                q = numpy.ones(1)
-                for jj in range(0, len(r)):
-                    if jj != ii:
-                        q = numpy.convolve(q, numpy.array([1.0, -numpy.exp(p[jj] / t)]))
-                b += r[ii] * q
+            k = numpy.arange(0, len(r)) / t
+            for ii in range(0, len(r)):
+                # Repeated poles are expressed in order of increasing degree.
+                jj = numpy.count_nonzero(p[:ii] == p[ii])
+                b += numpy.convolve(a, r[ii] * k**jj / math.factorial(jj) * numpy.exp(p[ii] * k))[: len(r)]
             if len(b) < len(a):
                 b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
             a, b = a.real, b.real
-- 
2.43.0


From e171fe9c725270e8234802e2b4a9b29b44db10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:52 +0000
Subject: [PATCH 33/34] fix: IirFilter design converges for higher counts

The iteration of a cutoff frequency is of a fixed rate, and oscillated
about a solution for Chebyshev designs of a count of 4 or more, without
satisfying the specified frequency.
---
 diamondback/filters/iir_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 1f14645..45c0b02 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -171,6 +171,7 @@ class IirFilter(FirFilter):
             eps, error = float(numpy.finfo(float).eps), numpy.inf
             index, rate, scale = 500, 3.0e-2 * (1.0 - 0.5 * ((order > 8) or ((order > 6) and (count > 1)))), 1.0
             a, b = numpy.array([]), numpy.array([])
+            prior = 0.0
             for _ in range(0, index):
                 u, v = IirFilter._evaluate(style, scale * frequency, order)
                 x = numpy.exp(1j * math.pi * frequency)
@@ -181,6 +182,9 @@ class IirFilter(FirFilter):
                     a, b, error = u, v, abs(e)
                     if error < (10e3 * eps):
                         break
+                if (e * prior < 0.0) and (abs(e) > 0.5 * abs(prior)):
+                    rate *= 0.5
+                prior = e
                 scale = max(scale + rate * e, eps)
             if complement:
                 a *= numpy.array([((-1.0) ** x) for x in range(0, len(a))])
-- 
2.43.0


From cffab83f3f5e1f2a6da2d54a08e58f926d1acc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:28 +0000
Subject: [PATCH 34/34] fix: GaussianMixtureModel ranks observations far from
 every class

Scores of distant observations underflowed to zero, and labels were ordered
as if equally likely.
---
 diamondback/models/gaussian_mixture_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index cafb32d..927909e 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -139,7 +139,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"X = {x[0].shape} Expected X = {self._shape}")
         if (not len(self._model)) or (not hasattr(self._model[0], "precisions_")):
             raise RuntimeError(f"Model = {self._model} Not Trained")
-        v = numpy.zeros((x.shape[0], len(self._model)))
+        v = numpy.full((x.shape[0], len(self._model)), -numpy.inf)
         for jj in range(0, len(v)):
             for ii in range(0, len(self._model)):
                 model = self._model[ii]
@@ -149,5 +149,7 @@ class GaussianMixtureModel(object):
                         model.means_[kk],
                         model.weights_[kk],
                     )
-                    v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
+                    v[jj, ii] = numpy.logaddexp(
+                        v[jj, ii], numpy.log(w) - 0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
+                    )
         return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
-- 
2.43.0

