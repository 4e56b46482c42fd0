From 83d0b0ca33fa94ad6b2bca5502dab28a5380c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 01/52] fix: FirFilter and IirFilter do not truncate a signal
 to an integer coefficient type

---
 diamondback/filters/fir_filter.py | 5 +++--
 diamondback/filters/iir_filter.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..c69a488 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -208,7 +208,8 @@ class FirFilter(object):
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
         super().__init__()
-        self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
+        self._b = numpy.array(b, numpy.result_type(b, 1.0))
+        self._s = numpy.array(s, type(self._b[0]))
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
         """Estimates group delay and produces a reference signal.
@@ -255,7 +256,7 @@ class FirFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[1:] = self.s[:-1]
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..f28a745 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -301,7 +301,7 @@ class IirFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(self.b[0]))
+        y = numpy.zeros(len(x), numpy.result_type(self.a, self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
                 self.s[0] += self.a.dot(self.s)
-- 
2.43.0


From de7f6a38d23cda201ae4fa32f08967fca860a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 02/52] fix: FirFilter, IirFilter, and RankFilter do not
 discard the imaginary part of a complex signal

---
 diamondback/filters/fir_filter.py  | 15 ++++++++++++++-
 diamondback/filters/iir_filter.py  |  4 +++-
 diamondback/filters/rank_filter.py |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index c69a488..62cc7b0 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -209,7 +209,7 @@ class FirFilter(object):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
         super().__init__()
         self._b = numpy.array(b, numpy.result_type(b, 1.0))
-        self._s = numpy.array(s, type(self._b[0]))
+        self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
         """Estimates group delay and produces a reference signal.
@@ -256,6 +256,7 @@ class FirFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
@@ -264,6 +265,17 @@ class FirFilter(object):
             y[ii] = self.b.dot(self.s)
         return y
 
+    def _promote(self, x: complex | numpy.ndarray) -> None:
+        """Promotes a state to complex as necessary to represent a signal.
+
+        Parameters
+        ----------
+        x: complex | numpy.ndarray - incident signal
+        """
+
+        if numpy.iscomplexobj(x) and not numpy.iscomplexobj(self.s):
+            self.s = self.s.astype(complex)
+
     def reset(self, x: complex | float) -> None:
         """Modifies a state to minimize edge effects by assuming persistent
         operation at a specified incident signal condition.
@@ -275,6 +287,7 @@ class FirFilter(object):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         self.s[:] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index f28a745..ed65edb 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -197,7 +197,7 @@ class IirFilter(FirFilter):
             a = numpy.concatenate((a, numpy.zeros(len(b) - len(a))))
         if len(b) < len(a):
             b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
-        if (isinstance(a[0], complex)) or (isinstance(b[0], complex)):
+        if numpy.iscomplexobj(a) or numpy.iscomplexobj(b):
             a, b = numpy.array(a, complex), numpy.array(b, complex)
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
@@ -301,6 +301,7 @@ class IirFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         y = numpy.zeros(len(x), numpy.result_type(self.a, self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
@@ -322,6 +323,7 @@ class IirFilter(FirFilter):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self._promote(x)
         if len(self.s) > 1:
             self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..d071933 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,8 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        self._promote(x)
+        y = numpy.zeros(len(x), self.s.dtype)
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From 2d08d4b02ed37212c8a0675506aad20eb84e27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/52] fix: coefficient and state assignment accepts a list
 and does not alias a caller array

---
 diamondback/filters/fir_filter.py            | 4 ++--
 diamondback/filters/iir_filter.py            | 2 +-
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 62cc7b0..3f19a8c 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        self._b = numpy.array(b, numpy.result_type(numpy.asarray(b), 1.0))
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), 1.0))
 
     def __init__(
         self,
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index ed65edb..7138226 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = numpy.array(a)
 
     def __init__(
         self,
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..a5fda3d 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, float)
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..45ded59 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, float)
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From e106f4c1bdef8b2ff945971a233f51637a96feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/52] fix: IirFilter accepts an explicit state longer than
 its coefficients

---
 diamondback/filters/iir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 7138226..4486304 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,7 +202,7 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
-        self._a = numpy.array(a)
+        self._a = numpy.concatenate((a, numpy.zeros(len(self.b) - len(a))))
 
     @staticmethod
     def _evaluate(style: str, frequency: float, order: int) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From a9737714f1424195a376d5b91d3d3837ecdfd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 05/52] fix: IirFilter reset realizes persistent operation for
 any gain

---
 diamondback/filters/iir_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 4486304..9bffc2c 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -21,7 +21,7 @@
 
     .. math::
 
-        s_{i,n} = \\frac{1.0 - b_{0,n}}{\\sum_{i=1}^{N} a_{i,n} b_{0,n} + b_{i,n}}\\ x_{n}\\qquad\\quad s_{0,n} = x_{n}
+        s_{i,n} = \\frac{1}{1 - \\sum_{i=1}^{N} a_{i,n}}\\ x_{n}\\qquad\\quad s_{0,n} = x_{n}
 
     A frequency response is expressed as a function of a recursive
     coefficient array and a forward coefficient array.
@@ -325,7 +325,11 @@ class IirFilter(FirFilter):
             raise ValueError(f"X = {x}")
         self._promote(x)
         if len(self.s) > 1:
-            self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
+            v = 1.0 - self.a[1:].sum()
+            if v:
+                self.s[1:] = x / v
+            else:
+                self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
         self.s[0] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From c6cee817c2c3ae78769ef0e1860651562b5a1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 06/52] fix: GoertzelFilter frequency assignment updates
 coefficients

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From 2bb7d49a9506fdd42c126a0f0d6a8c16fda9703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 07/52] fix: GoertzelFilter does not double the gain of a
 single precision complex signal

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index cf04372..9155103 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -114,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From 4b54857835467c3b86d96b6ee716959d662bbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 08/52] fix: ComplexFrequencyFilter initial coefficient
 realizes the specified frequency

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..254e5d6 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From 5b1846e2f7476151d9a1d0b37dba6af68dc57030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/52] fix: ComplexBandpassFilter and ComplexFrequencyFilter
 accept a complex signal with zero imaginary part

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 254e5d6..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From 54c9cff25bed26a85b3b196aa3605af66d65c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 10/52] fix: ComplexExponentialFilter accumulates phase in
 double precision

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..038cc5b 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -85,7 +85,7 @@ class ComplexExponentialFilter(object):
         phase = self.phase
         for ii in range(0, len(x)):
             y[ii] = numpy.exp(1j * math.pi * phase)
-            phase += x[ii]
+            phase += float(x[ii].real)
         phase = numpy.fmod(phase, 2.0)
         if abs(phase) > 1.0:
             phase -= numpy.sign(phase) * 2.0
-- 
2.43.0


From d292e12d8d3a809a5646d745ab6bc47fd4d16b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/52] fix: FourierTransform aligns frequency for an odd
 length

---
 diamondback/transforms/fourier_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..c9fcc2d 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -94,7 +94,7 @@ class FourierTransform(object):
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                numpy.arange(-(len(u) // 2), (len(u) + 1) // 2) * 2.0 / len(u),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.fft.fftshift(y)
         return y, f
-- 
2.43.0


From 9dcd340463fe73940bdb760ab2bab902e8ec94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 12/52] fix: FourierTransform inverse replaces only a vanishing
 window endpoint

---
 diamondback/transforms/fourier_transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index c9fcc2d..a4e532b 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,8 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
         if inverse:
-            if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
-                v[0], v[-1] = v[1], v[-2]
+            if numpy.isclose(v[0], 0.0):
+                v[0] = v[1]
+            if numpy.isclose(v[-1], 0.0):
+                v[-1] = v[-2]
             y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
-- 
2.43.0


From 53e92086bc32d707ba053c55a5f5102fefde9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 13/52] fix: FirFilter and IirFilter response and delay align
 frequency for an odd length

---
 diamondback/filters/fir_filter.py | 8 ++++----
 diamondback/filters/iir_filter.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 3f19a8c..69044c2 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -233,9 +233,9 @@ class FirFilter(object):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.arange(-(length // 2), (length + 1) // 2) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -310,9 +310,9 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
             freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+            numpy.arange(-(length // 2), (length + 1) // 2) * 2.0 / length,
         )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 9bffc2c..bd27fc6 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -275,9 +275,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.arange(-(length // 2), (length + 1) // 2) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -354,9 +354,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.arange(-(length // 2), (length + 1) // 2) * 2.0 / length,
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 885e0e40f4c5b894bbb1606bd841e26d821da4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 14/52] fix: PsdTransform aligns frequency for an odd length

---
 diamondback/transforms/psd_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..e7abbd7 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -102,6 +102,6 @@ class PsdTransform(object):
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
-        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
+        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), (
+            numpy.arange(len(b) // 2) * 2.0 / len(b)
         )
-- 
2.43.0


From 2c6a7a181d64a2008f2c9929b731fd3536c20332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 15/52] fix: PsdTransform rejects a negative index

---
 diamondback/transforms/psd_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index e7abbd7..26dcd8b 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -98,6 +98,8 @@ class PsdTransform(object):
             raise ValueError(f"B = {b}")
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
+        if index <= 0:
+            raise ValueError(f"Index = {index} Expected Index in (0, inf)")
         y = [
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
-- 
2.43.0


From b8be9a19f1890d4addad7a53bf8bf6c3c5a51d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/52] fix: ComplexTransform accepts a complex signal with one
 row

---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..ca6010e 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = x.reshape(-1)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From afc97ddbf4cfad5c941e72c86fc4fe094dfb5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 17/52] fix: ZTransform does not modify a caller array and
 accepts integer coefficients

---
 diamondback/transforms/z_transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..21d4550 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,7 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        u, v = u / u[-1], v / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From fc6de8d4b24f15359c4808b4ad7956b9315f315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 18/52] fix: WaveletTransform does not truncate an integer
 signal

---
 diamondback/transforms/wavelet_transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..b24207a 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -534,6 +534,7 @@ class WaveletTransform(object):
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        v = v.astype(numpy.result_type(v, 1.0))
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-- 
2.43.0


From f4cea18b0aea4867dfe3a514ffb5b14edadc1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 19/52] fix: WaveletTransform does not discard the imaginary
 part of a complex signal

---
 diamondback/transforms/wavelet_transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index b24207a..06b644a 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -569,18 +569,18 @@ class WaveletTransform(object):
                 jj = max(cc // 2, 1)
                 y[:ii, 0:jj] = self.transform(y[:ii, 0:jj], count - 1, inverse)
             if rr > 1:
-                u = numpy.zeros(rr)
+                u = numpy.zeros(rr, y.dtype)
                 for jj in range(0, cc):
-                    w = numpy.zeros(rr)
+                    w = numpy.zeros(rr, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[kk * (rr // 2) : (kk + 1) * (rr // 2), jj]
                         fir_filter[kk].s[:] = 0.0
                         w += 2.0 * fir_filter[kk].filter(u)
                     y[:rr, jj] = w
             if cc > 1:
-                u = numpy.zeros(cc)
+                u = numpy.zeros(cc, y.dtype)
                 for ii in range(0, rr):
-                    w = numpy.zeros(cc)
+                    w = numpy.zeros(cc, y.dtype)
                     for kk in range(0, 2):
                         u[::2] = y[ii, kk * (cc // 2) : (kk + 1) * (cc // 2)]
                         fir_filter[kk].s[:] = 0.0
-- 
2.43.0


From fb25a0e336d6b334975500affeb736e187f0e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 20/52] fix: WaveletTransform Coiflet 5 coefficients satisfy
 perfect reconstruction

---
 diamondback/transforms/wavelet_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 06b644a..1f088c4 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.07273261951253,
+                    0.33789766245748,
+                    0.85257202021160,
+                    0.38486484686486,
+                    -0.07273261951253,
+                    -0.01565572813579,
                 ]
             ),
             11: numpy.array(
-- 
2.43.0


From 7ab0e923129bf24b8ca6e56d48aa95b5ffd3c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 21/52] fix: WaveletTransform Daubechies 11 coefficients
 satisfy perfect reconstruction

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 1f088c4..595d80b 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From c828f65345cbb2feb84b09280a6fd1147c0ada8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 22/52] fix: PolyphaseRateFilter consumes every incident sample
 to realize a rate without bias

---
 diamondback/filters/polyphase_rate_filter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index a5fda3d..b9c8839 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,23 +149,22 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        y = []
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
-        ii, jj = 0, 0
-        while (ii < len(x)) and (jj < len(y)):
+        ii = 0
+        while (ii < len(x)) and (self.rate > 0.0):
             if self._index < rr:
                 kk = min(int(numpy.round(self._index)), rr - 1)
                 self._index += rr / self.rate
                 self.s[0] = x[ii]
-                y[jj] = b[kk, :].dot(self.s)
-                jj += 1
+                y.append(b[kk, :].dot(self.s))
             while (ii < len(x)) and (self._index >= rr):
                 self.s[0] = x[ii]
                 self.s[1:] = self.s[:-1]
                 self._index -= rr
                 ii += 1
-        return y[: min(jj, len(y))]
+        return numpy.array(y, float)
 
     def reset(self, x: float) -> None:
         """Modifies a state to minimize edge effects by assuming persistent
-- 
2.43.0


From 5cb27dff5f58456345a43b7cf4501cc903e3306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 23/52] fix: PolyphaseRateFilter restored in a new process
 defines its filter bank

---
 diamondback/filters/polyphase_rate_filter.py | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index b9c8839..e5ba557 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -121,6 +121,26 @@ class PolyphaseRateFilter(object):
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         super().__init__()
+        self._initialize()
+        self._index = 0
+        self._rate = rate
+        self._s = numpy.zeros(PolyphaseRateFilter.B.shape[1])
+
+    def __setstate__(self, state: dict) -> None:
+        """Restores an instance.
+
+        Parameters
+        ----------
+        state: dict
+        """
+
+        self._initialize()
+        self.__dict__.update(state)
+
+    @staticmethod
+    def _initialize() -> None:
+        """Initializes a filter bank."""
+
         b = PolyphaseRateFilter.B
         rr, cc = b.shape
         if not b.any():
@@ -129,9 +149,6 @@ class PolyphaseRateFilter(object):
             for ii in range(0, rr):
                 b[ii, :] /= sum(b[ii, :])
             PolyphaseRateFilter.B = b
-        self._index = 0
-        self._rate = rate
-        self._s = numpy.zeros(cc)
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
-- 
2.43.0


From 15c111185db1009ab6424e7a6131263a690d45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 24/52] fix: DiversityModel clear preserves order

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 45ded59..00cd984 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From a2cc6ca17d21d24f72a998b7c99db5a89d35100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 25/52] fix: DiversityModel is serializable

---
 diamondback/models/diversity_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 00cd984..cb43974 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -108,9 +108,9 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
         self._diversity = 0.0
         self._s = numpy.zeros((order + 1, 0))
+        self._style = style
 
     def clear(self) -> None:
         """Clears an instance."""
@@ -138,7 +138,7 @@ class DiversityModel(object):
             self.s = numpy.zeros((self.s.shape[0], x.shape[1])) + numpy.finfo(float).max
         if x.shape[1] != self.s.shape[1]:
             raise ValueError(f"X = {x.shape} S = {self.s.shape}")
-        cc = 0
+        cc, distance = 0, DiversityModel.DISTANCE[self._style]
         for ii in range(0, self.s.shape[0]):
             if numpy.isclose(self.s[ii, 0], numpy.finfo(float).max):
                 break
@@ -155,7 +155,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = distance(s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From ae0199b91ba5c2f0b198c593d885cc966014fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 26/52] fix: DiversityModel initial replacement does not reduce
 diversity

---
 diamondback/models/diversity_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index cb43974..11e3bfd 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -149,6 +149,10 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                if (not self._diversity) and (cc > 1):
+                    self._diversity = min(
+                        distance(self.s[uu, :], self.s[vv, :]) for uu in range(0, cc - 1) for vv in range(uu + 1, cc)
+                    )
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
                     u, s = numpy.inf, numpy.array(self.s)
-- 
2.43.0


From c03c8432cb825cbc27dad27ff250a68b3e242391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 27/52] fix: GaussianModel covariance is normalized by
 observation count

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From d555a60c47107dd4803218c92b96c54387895744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 28/52] fix: GaussianModel and GaussianMixtureModel predict
 labels

---
 diamondback/models/gaussian_mixture_model.py | 4 +++-
 diamondback/models/gaussian_model.py         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..718993d 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -78,6 +78,7 @@ class GaussianMixtureModel(object):
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
         self._index = index
+        self._label = numpy.zeros(0, int)
         self._model: list[sklearn.mixture.GaussianMixture] = []
         self._order = order
         self._regularize = regularize
@@ -100,6 +101,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
+        self._label = numpy.unique(y)
         self._model = []
         self._shape = x[0].shape
         for ii in sorted(set(y)):
@@ -149,4 +151,4 @@ class GaussianMixtureModel(object):
                         model.weights_[kk],
                     )
                     v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
-        return numpy.fliplr(numpy.argsort(v, axis=1))
+        return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 8324b8d..bfbbd22 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -56,6 +56,7 @@ class GaussianModel(object):
 
         if regularize < 0.0:
             raise ValueError(f"Regularize = {regularize} Expected Regularize in [0.0, inf)")
+        self._label = numpy.zeros(0, int)
         self._model: list[dict[Any, Any]] = []
         self._regularize = regularize
         self._shape = ()
@@ -77,6 +78,7 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
+        self._label = numpy.unique(y)
         self._model = []
         self._shape = x[0].shape
         r = self.regularize * numpy.identity(x.shape[1])
@@ -116,4 +118,4 @@ class GaussianModel(object):
                 model = self._model[ii]
                 i, u = model["covariancei"], model["mean"]
                 v[jj, ii] = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
-        return numpy.argsort(v, axis=1)
+        return self._label[numpy.argsort(v, axis=1)]
-- 
2.43.0


From 57eebfae4e54ab03449d2e67bd7b67ea353b784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 29/52] fix: GaussianMixtureModel ranks observations distant
 from every class

---
 diamondback/models/gaussian_mixture_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 718993d..29bebc4 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -140,7 +140,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"X = {x[0].shape} Expected X = {self._shape}")
         if (not len(self._model)) or (not hasattr(self._model[0], "precisions_")):
             raise RuntimeError(f"Model = {self._model} Not Trained")
-        v = numpy.zeros((x.shape[0], len(self._model)))
+        v = numpy.full((x.shape[0], len(self._model)), -numpy.inf)
         for jj in range(0, len(v)):
             for ii in range(0, len(self._model)):
                 model = self._model[ii]
@@ -150,5 +150,7 @@ class GaussianMixtureModel(object):
                         model.means_[kk],
                         model.weights_[kk],
                     )
-                    v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
+                    if w > 0.0:
+                        d = max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
+                        v[jj, ii] = numpy.logaddexp(v[jj, ii], numpy.log(w) - 0.5 * d)
         return self._label[numpy.fliplr(numpy.argsort(v, axis=1))]
-- 
2.43.0


From 902729c86176a9b7493ba1e9e6444c317e08b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 30/52] fix: PidFilter integral is limited

---
 diamondback/filters/pid_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..4bb65ad 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -82,8 +82,7 @@ class PidFilter(FirFilter):
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
-            if abs(self.s[1] + x[ii]) < self.limit:
-                self.s[1] += x[ii]
+            self.s[1] = max(min(self.s[1] + x[ii], self.limit), -self.limit)
             self.s[0] = x[ii]
             y[ii] = self.b.dot(self.s)
         return y
-- 
2.43.0


From 2b70c627ff24f04ac3bac5a848c232a14296fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 31/52] fix: Log stream retains an existing stream if an
 assignment fails

---
 diamondback/commons/log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..3cd3cb7 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -123,13 +123,14 @@ class Log(object):
         with Log._rlock:
             if (not stream) or (not hasattr(stream, "write")):
                 raise ValueError(f"Stream = {stream} Expected Write")
-            with contextlib.suppress(ValueError):
-                logger.remove(Log._identity)
-            Log._identity = logger.add(
+            identity = logger.add(
                 stream,
                 level=0,
                 format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
             )
+            with contextlib.suppress(ValueError):
+                logger.remove(Log._identity)
+            Log._identity = identity
 
     @classmethod
     def write(cls, level: str, entry: str | Exception) -> None:
-- 
2.43.0


From 637e0496725ea4ee17b76aef1bc3eb548cfda8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 32/52] fix: PolynomialRateFilter accepts a rate of zero for
 every order

---
 diamondback/filters/polynomial_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 98ee119..baa5a6e 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -122,7 +122,7 @@ class PolynomialRateFilter(object):
                     [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]],
                 )
             )
-            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate
+            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate if self.rate else numpy.inf
             ii, jj = 0, 0
             index = 0.0
             while ii < cc:
-- 
2.43.0


From f66118f1c980744c9ea54304c02b6cab023180d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/52] fix: Log.write reports the traceback of the exception
 which is written

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 3cd3cb7..cda2db6 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -152,8 +152,8 @@ class Log(object):
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
+                    info = entry.__traceback__
                     entry = f"Exception = {type(entry).__name__} {entry}"
-                    info = sys.exc_info()[-1]
                     while info:
                         entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                         info = info.tb_next
-- 
2.43.0


From 0a8de5ec2acf5c0e218d8c2d1884ac67b4398413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 34/52] fix: filters reject a multidimensional signal before
 state is modified

A signal of more than one dimension was rejected by NumPy in the midst of filter, after a state, coefficient, or phase had been modified.
---
 diamondback/filters/complex_bandpass_filter.py    | 2 +-
 diamondback/filters/complex_exponential_filter.py | 2 +-
 diamondback/filters/complex_frequency_filter.py   | 2 +-
 diamondback/filters/fir_filter.py                 | 2 +-
 diamondback/filters/goertzel_filter.py            | 2 +-
 diamondback/filters/iir_filter.py                 | 2 +-
 diamondback/filters/pid_filter.py                 | 2 +-
 diamondback/filters/polyphase_rate_filter.py      | 2 +-
 diamondback/filters/rank_filter.py                | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index 6154017..684c0dc 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -115,7 +115,7 @@ class ComplexBandpassFilter(FirFilter):
 
         if not isinstance(d, numpy.ndarray):
             d = numpy.array(list(d))
-        if not len(d):
+        if (len(d.shape) != 1) or (not len(d)):
             raise ValueError(f"D = {d}")
         if not numpy.iscomplexobj(d):
             d = hilbert(d)
diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 038cc5b..af44104 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -79,7 +79,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = self.phase
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 96ed95a..3f96060 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -118,7 +118,7 @@ class ComplexFrequencyFilter(FirFilter):
 
         if not isinstance(d, numpy.ndarray):
             d = numpy.array(list(d))
-        if not len(d):
+        if (len(d.shape) != 1) or (not len(d)):
             raise ValueError(f"D = {d}")
         if not numpy.iscomplexobj(d):
             d = hilbert(d)
diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 69044c2..1e37104 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -254,7 +254,7 @@ class FirFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         self._promote(x)
         y = numpy.zeros(len(x), numpy.result_type(self.b, self.s))
diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index 9155103..2df6f8f 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -111,7 +111,7 @@ class GoertzelFilter(IirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
         u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index bd27fc6..1211819 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -299,7 +299,7 @@ class IirFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         self._promote(x)
         y = numpy.zeros(len(x), numpy.result_type(self.a, self.b, self.s))
diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index 4bb65ad..e9d3ffa 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -77,7 +77,7 @@ class PidFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index e5ba557..ee250ba 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -164,7 +164,7 @@ class PolyphaseRateFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         y = []
         b = PolyphaseRateFilter.B
diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index d071933..969d25a 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -80,7 +80,7 @@ class RankFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         self._promote(x)
         y = numpy.zeros(len(x), self.s.dtype)
-- 
2.43.0


From f4750924fd1d7b83634165eb13c3758ff0466e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 35/52] fix: GaussianModel and GaussianMixtureModel retain a
 model if a fit fails

A fit which failed for one class, as a class with fewer observations than mixtures or with a singular covariance, left the labels and some of the models of the failed fit in place of the former model.
---
 diamondback/models/gaussian_mixture_model.py |  9 +++++----
 diamondback/models/gaussian_model.py         | 10 +++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 29bebc4..7ab1b93 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -101,9 +101,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._label = numpy.unique(y)
-        self._model = []
-        self._shape = x[0].shape
+        v = []
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
@@ -113,7 +111,10 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            v.append(model)
+        self._label = numpy.unique(y)
+        self._model = v
+        self._shape = x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index bfbbd22..7b21c57 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -78,15 +78,15 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._label = numpy.unique(y)
-        self._model = []
-        self._shape = x[0].shape
-        r = self.regularize * numpy.identity(x.shape[1])
+        r, v = self.regularize * numpy.identity(x.shape[1]), []
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            v.append(dict(covariancei=i, mean=u))
+        self._label = numpy.unique(y)
+        self._model = v
+        self._shape = x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
-- 
2.43.0


From 0fba56f8e7f85f9eab8abd0e0ea92a70dcf79c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 36/52] fix: FourierTransform and PsdTransform do not overflow
 an integer window and signal

The product of an integer window and an integer signal was formed in their integer type.
---
 diamondback/transforms/fourier_transform.py | 2 +-
 diamondback/transforms/psd_transform.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index a4e532b..94644b5 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -85,7 +85,7 @@ class FourierTransform(object):
         if (len(b) > len(x)) or (numpy.isclose(b, 0.0).all()):
             raise ValueError(f"B = {b}")
         u = numpy.array(x[: len(b)])
-        v = numpy.array(b)
+        v = numpy.array(b, numpy.result_type(b, 1.0))
         if inverse:
             if numpy.isclose(v[0], 0.0):
                 v[0] = v[1]
diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 26dcd8b..f0a9c76 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -100,6 +100,7 @@ class PsdTransform(object):
             raise ValueError(f"X = {x}")
         if index <= 0:
             raise ValueError(f"Index = {index} Expected Index in (0, inf)")
+        b = numpy.array(b, numpy.result_type(b, 1.0))
         y = [
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
-- 
2.43.0


From ac5e9816c7f444739aaff55d403dca5f3a628353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 37/52] fix: ZTransform separates distinct poles of small
 magnitude in impulse invariance

---
 diamondback/transforms/z_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 21d4550..e2abef8 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -112,7 +112,7 @@ class ZTransform(object):
                 z = numpy.concatenate((z, numpy.zeros(len(p) - len(z))))
             a, b = numpy.poly(p).real, numpy.poly(z).real
         else:
-            r, p, _ = residue(v, u)
+            r, p, _ = residue(v, u, tol=1.0e-3 * min(abs(numpy.roots(u)), default=1.0))
             a, b = numpy.ones(1) + 0j, 0j  # type: ignore
             for ii in range(0, len(r)):
                 a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(p[ii] / t)]))
-- 
2.43.0


From 5e4c9574010c71d96b09ed9caa3de51acda02819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 38/52] fix: DiversityModel geometric distance does not
 underflow or overflow in a wide observation

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 11e3bfd..1448387 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -80,7 +80,7 @@ class DiversityModel(object):
     DISTANCE: ClassVar[dict[str, Callable]] = dict(
         Chebyshev=lambda x, y: max(abs(x - y)),
         Euclidean=lambda x, y: sum((x - y) ** 2) ** 0.5,
-        Geometric=lambda x, y: numpy.prod(abs(x - y)) ** (1.0 / len(x)),
+        Geometric=lambda x, y: numpy.prod(abs(x - y) ** (1.0 / len(x))),
         Manhattan=lambda x, y: sum(abs(x - y)),
     )
     STYLE: ClassVar[tuple[str, ...]] = tuple(DISTANCE.keys())
-- 
2.43.0


From a9cd5ac07d59f821c922f4a7256843348947bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:22 +0000
Subject: [PATCH 39/52] fix: IirFilter retains the imaginary part of assigned
 recursive coefficients

---
 diamondback/filters/iir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 1211819..d9a79ab 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -302,6 +302,7 @@ class IirFilter(FirFilter):
         if (len(x.shape) != 1) or (not len(x)):
             raise ValueError(f"X = {x}")
         self._promote(x)
+        self._promote(self.a)
         y = numpy.zeros(len(x), numpy.result_type(self.a, self.b, self.s))
         for ii in range(0, len(x)):
             if len(self.s) > 1:
@@ -324,6 +325,7 @@ class IirFilter(FirFilter):
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
         self._promote(x)
+        self._promote(self.a)
         if len(self.s) > 1:
             v = 1.0 - self.a[1:].sum()
             if v:
-- 
2.43.0


From 4bf2d6ac98bfa8bbb645a33bb11030cedc6f9191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:54 +0000
Subject: [PATCH 40/52] fix: IirFilter rejects an assignment of recursive
 coefficients with a nonzero a[0]

---
 diamondback/filters/iir_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index d9a79ab..ce75110 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,10 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = numpy.array(a)
+        a = numpy.array(a)
+        if (not len(a)) or (a[0]):
+            raise ValueError(f"A = {a}")
+        self._a = a
 
     def __init__(
         self,
-- 
2.43.0


From 8555efda467cf7f31ba75b953b12a467fe410664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:11 +0000
Subject: [PATCH 41/52] fix: IirFilter retains real precision after an
 assignment of integer recursive coefficients

---
 diamondback/filters/iir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index ce75110..2394f79 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        a = numpy.array(a)
+        a = numpy.array(a, numpy.result_type(numpy.asarray(a), 1.0))
         if (not len(a)) or (a[0]):
             raise ValueError(f"A = {a}")
         self._a = a
-- 
2.43.0


From e501e1d07d420fb7718e747dad4567bdde9dd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:14 +0000
Subject: [PATCH 42/52] fix: complex filters adapt from assigned real
 coefficients and state

---
 diamondback/filters/complex_bandpass_filter.py  | 1 +
 diamondback/filters/complex_frequency_filter.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index 684c0dc..1c806c9 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -119,6 +119,7 @@ class ComplexBandpassFilter(FirFilter):
             raise ValueError(f"D = {d}")
         if not numpy.iscomplexobj(d):
             d = hilbert(d)
+        self.b = self.b.astype(complex)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
             numpy.zeros(len(x), complex),
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 3f96060..5b57703 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -68,6 +68,7 @@ class ComplexFrequencyFilter(FirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
+        self.b = self.b.astype(complex)
         self.b[0] = numpy.exp(1j * math.pi * frequency)
         self._frequency = frequency
 
@@ -125,6 +126,7 @@ class ComplexFrequencyFilter(FirFilter):
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
         x = d / x
+        self.b, self.s = self.b.astype(complex), self.s.astype(complex)
         y, e, b = (
             numpy.zeros(len(x)),
             numpy.zeros(len(x), complex),
@@ -149,6 +151,7 @@ class ComplexFrequencyFilter(FirFilter):
 
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
+        self.s = self.s.astype(complex)
         if numpy.isclose(x, 0.0):
             self.s[0] = 1.0
         else:
-- 
2.43.0


From 1a71b1a171238eb96cfd9f336f74b6a49b37be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:41 +0000
Subject: [PATCH 43/52] fix: FourierTransform inverse recognizes a vanishing
 window endpoint relative to its window

---
 diamondback/transforms/fourier_transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 94644b5..f110435 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,9 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b, numpy.result_type(b, 1.0))
         if inverse:
-            if numpy.isclose(v[0], 0.0):
+            eps = 1.0e-8 * max(abs(v))
+            if abs(v[0]) <= eps:
                 v[0] = v[1]
-            if numpy.isclose(v[-1], 0.0):
+            if abs(v[-1]) <= eps:
                 v[-1] = v[-2]
             y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
-- 
2.43.0


From a168a37fc7d1b0c513ca9df8d9729a2bb9aa6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:47 +0000
Subject: [PATCH 44/52] fix: Log accepts a stream whose truth value is false

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index cda2db6..c830b78 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -121,7 +121,7 @@ class Log(object):
         """
 
         with Log._rlock:
-            if (not stream) or (not hasattr(stream, "write")):
+            if not hasattr(stream, "write"):
                 raise ValueError(f"Stream = {stream} Expected Write")
             identity = logger.add(
                 stream,
-- 
2.43.0


From 8fa61e344023c22f014a3f40eb0aa918db3c7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:30 +0000
Subject: [PATCH 45/52] fix: FirFilter and IirFilter retain double precision
 with single precision coefficients and state

---
 diamondback/filters/fir_filter.py | 6 +++---
 diamondback/filters/iir_filter.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 1e37104..02333fe 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,7 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = numpy.array(b, numpy.result_type(numpy.asarray(b), 1.0))
+        self._b = numpy.array(b, numpy.result_type(numpy.asarray(b), float))
 
     @property
     def s(self):
@@ -119,7 +119,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), 1.0))
+        self._s = numpy.array(s, numpy.result_type(numpy.asarray(s), float))
 
     def __init__(
         self,
@@ -208,7 +208,7 @@ class FirFilter(object):
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
         super().__init__()
-        self._b = numpy.array(b, numpy.result_type(b, 1.0))
+        self._b = numpy.array(b, numpy.result_type(b, float))
         self._s = numpy.array(s, complex if numpy.iscomplexobj(s) else type(self._b[0]))
 
     def delay(self, length: int = 8192, count: int = 1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 2394f79..d9c300f 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        a = numpy.array(a, numpy.result_type(numpy.asarray(a), 1.0))
+        a = numpy.array(a, numpy.result_type(numpy.asarray(a), float))
         if (not len(a)) or (a[0]):
             raise ValueError(f"A = {a}")
         self._a = a
-- 
2.43.0


From 2288a2f5043d02dbdaa174251390bb85facc2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:37 +0000
Subject: [PATCH 46/52] fix: GoertzelFilter retains double precision with a
 single precision window

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index 2df6f8f..07caa30 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -95,7 +95,7 @@ class GoertzelFilter(IirFilter):
         super().__init__(a=u, b=v)
         self._index = 0
         self._frequency = frequency
-        self._w = numpy.array(b)
+        self._w = numpy.array(b, numpy.result_type(b, float))
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
-- 
2.43.0


From 1b0da8dcc22286ce539469b5ea312e56fd55c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:06 +0000
Subject: [PATCH 47/52] fix: FourierTransform and PsdTransform retain double
 precision with a single precision window

---
 diamondback/transforms/fourier_transform.py | 2 +-
 diamondback/transforms/psd_transform.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index f110435..943f6be 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -85,7 +85,7 @@ class FourierTransform(object):
         if (len(b) > len(x)) or (numpy.isclose(b, 0.0).all()):
             raise ValueError(f"B = {b}")
         u = numpy.array(x[: len(b)])
-        v = numpy.array(b, numpy.result_type(b, 1.0))
+        v = numpy.array(b, numpy.result_type(b, float))
         if inverse:
             eps = 1.0e-8 * max(abs(v))
             if abs(v[0]) <= eps:
diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index f0a9c76..d7b1e94 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -100,7 +100,7 @@ class PsdTransform(object):
             raise ValueError(f"X = {x}")
         if index <= 0:
             raise ValueError(f"Index = {index} Expected Index in (0, inf)")
-        b = numpy.array(b, numpy.result_type(b, 1.0))
+        b = numpy.array(b, numpy.result_type(b, float))
         y = [
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
-- 
2.43.0


From a644d6be781bc63f8b561252ea7d3ded75c2277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:39 +0000
Subject: [PATCH 48/52] fix: PolyphaseRateFilter and PolynomialRateFilter
 compute with rates of any numeric type in double precision

---
 diamondback/filters/polynomial_rate_filter.py | 2 ++
 diamondback/filters/polyphase_rate_filter.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index baa5a6e..3f4ba6a 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -71,6 +71,7 @@ class PolynomialRateFilter(object):
     def rate(self, rate: float):
         if rate < 0.0:
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, inf)")
+        rate = float(rate)
         self._rate = rate
 
     def __init__(self, rate: float, order: int = 1) -> None:
@@ -84,6 +85,7 @@ class PolynomialRateFilter(object):
 
         if rate < 0.0:
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, inf)")
+        rate = float(rate)
         if order <= 0:
             raise ValueError(f"Order = {order} Expected Order in (0, inf)")
         super().__init__()
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index ee250ba..ea5b990 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -98,6 +98,7 @@ class PolyphaseRateFilter(object):
     def rate(self, rate: float):
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
+        rate = float(rate)
         if not numpy.isclose(self.rate, rate):
             self._index = 0.0
         self._rate = rate
@@ -120,6 +121,7 @@ class PolyphaseRateFilter(object):
 
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
+        rate = float(rate)
         super().__init__()
         self._initialize()
         self._index = 0
-- 
2.43.0


From 331b4b5a84feb1b9950a3a50c957a541249a44d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:47 +0000
Subject: [PATCH 49/52] fix: PidFilter clamps at limits of unsigned type

---
 diamondback/filters/pid_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index e9d3ffa..6e3a98b 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -46,6 +46,7 @@ class PidFilter(FirFilter):
     def limit(self, limit: float):
         if limit < 0.0:
             raise ValueError(f"Limit = {limit} Expected Limit in (0.0, inf)")
+        limit = float(limit)
         self._limit = limit
 
     def __init__(self, b: list | numpy.ndarray) -> None:
-- 
2.43.0


From 64355ec3ade7c2afd7a85ebbf3131b6360ae304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:55 +0000
Subject: [PATCH 50/52] fix: frequencies and phases of single precision retain
 double precision results

---
 diamondback/filters/complex_exponential_filter.py | 2 ++
 diamondback/filters/complex_frequency_filter.py   | 2 ++
 diamondback/filters/goertzel_filter.py            | 2 ++
 diamondback/transforms/z_transform.py             | 1 +
 4 files changed, 7 insertions(+)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index af44104..69561ac 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -50,6 +50,7 @@ class ComplexExponentialFilter(object):
     def phase(self, phase: float):
         if (phase < -1.0) or (phase > 1.0):
             raise ValueError(f"Phase = {phase} Expected Phase in [-1.0, 1.0]")
+        phase = float(phase)
         self._phase = phase
 
     def __init__(self, phase: float = 0.0) -> None:
@@ -62,6 +63,7 @@ class ComplexExponentialFilter(object):
 
         if (phase < -1.0) or (phase > 1.0):
             raise ValueError(f"Phase = {phase} Expected Phase in [-1.0, 1.0]")
+        phase = float(phase)
         super().__init__()
         self._phase = phase
 
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 5b57703..4822dea 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -68,6 +68,7 @@ class ComplexFrequencyFilter(FirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
+        frequency = float(frequency)
         self.b = self.b.astype(complex)
         self.b[0] = numpy.exp(1j * math.pi * frequency)
         self._frequency = frequency
@@ -93,6 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
 
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
+        frequency = float(frequency)
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
         super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index 07caa30..95124a7 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,7 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        frequency = float(frequency)
         self.a[1] = 2.0 * math.cos(math.pi * frequency)
         self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
@@ -90,6 +91,7 @@ class GoertzelFilter(IirFilter):
             raise ValueError(f"B = {b}")
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        frequency = float(frequency)
         u = numpy.array([0.0, 2.0 * math.cos(math.pi * frequency), -1.0])
         v = numpy.array([1.0, -numpy.exp(-1j * math.pi * frequency), 0.0])
         super().__init__(a=u, b=v)
diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index e2abef8..e65ad71 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -97,6 +97,7 @@ class ZTransform(object):
             raise ValueError(f"V = {v}")
         if frequency <= 0.0:
             raise ValueError(f"Frequency = {frequency} Expected Frequency in (0.0, inf)")
+        frequency = float(frequency)
         while not u[0]:
             u = numpy.delete(u, 0)
         while not v[0]:
-- 
2.43.0


From 552141a2275b6bceb628c5cd9b82de67db4b534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:03 +0000
Subject: [PATCH 51/52] fix: ComplexExponentialFilter rejects the least value
 of an integer type

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 69561ac..2021640 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -81,7 +81,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)) or (abs(1.0 * x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = self.phase
-- 
2.43.0


From d3d3835cbfeeb3c208b246ff0a58da4ced121536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:13 +0000
Subject: [PATCH 52/52] fix: FirFilter and IirFilter evaluate response and
 delay for lengths of unsigned type

---
 diamondback/filters/fir_filter.py | 2 ++
 diamondback/filters/iir_filter.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 02333fe..e42709c 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -227,6 +227,7 @@ class FirFilter(object):
 
         if length <= 0:
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
+        length = int(length)
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
@@ -306,6 +307,7 @@ class FirFilter(object):
 
         if length <= 0:
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
+        length = int(length)
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index d9c300f..380c546 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -272,6 +272,7 @@ class IirFilter(FirFilter):
 
         if length <= 0:
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
+        length = int(length)
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
@@ -353,6 +354,7 @@ class IirFilter(FirFilter):
 
         if length <= 0:
             raise ValueError(f"Length = {length} Expected Length in (0, inf)")
+        length = int(length)
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         with warnings.catch_warnings():
-- 
2.43.0

