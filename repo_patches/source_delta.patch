From 5c91bf7df21758a00a9ba3fb5353f8d6765c404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 01/24] fix: DiversityModel keeps a style name rather than a
 lambda, so instances can be serialized

---
 diamondback/models/diversity_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..ca2f192 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -108,9 +108,9 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
         self._diversity = 0.0
         self._s = numpy.zeros((order + 1, 0))
+        self._style = style
 
     def clear(self) -> None:
         """Clears an instance."""
@@ -155,7 +155,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From b7481a39147d1fc02a2564155bfd51d434ef4aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 02/24] fix: DiversityModel.clear preserves the specified order

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index ca2f192..d99d384 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From 822315faf1c104c5505d9fd239bb257fea3e864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 03/24] fix: complex adaptive filters select the Hilbert
 transform by type, not by sample values

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..b6bca59 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From 5920b3dddfa1ec2127a1df0d01f8548a5777c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 04/24] fix: ComplexFrequencyFilter initial coefficient
 realizes the specified frequency

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index b6bca59..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From c399d746b8694d93bfbf25a22bfb695cf11a831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 05/24] fix: PolyphaseRateFilter consumes every sample, so that
 splitting a signal neither loses samples nor biases rate

---
 diamondback/filters/polyphase_rate_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..53abe90 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,11 +149,13 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + 1)
+        if not self.rate:
+            return y[:0]
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
         ii, jj = 0, 0
-        while (ii < len(x)) and (jj < len(y)):
+        while ii < len(x):
             if self._index < rr:
                 kk = min(int(numpy.round(self._index)), rr - 1)
                 self._index += rr / self.rate
@@ -165,7 +167,7 @@ class PolyphaseRateFilter(object):
                 self.s[1:] = self.s[:-1]
                 self._index -= rr
                 ii += 1
-        return y[: min(jj, len(y))]
+        return y[:jj]
 
     def reset(self, x: float) -> None:
         """Modifies a state to minimize edge effects by assuming persistent
-- 
2.43.0


From 3a4fca06655ba7d8539960c8de7d32087d8458a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 06/24] fix: PolyphaseRateFilter bank is evaluated on demand,
 so a decoded instance works in a fresh process

---
 diamondback/filters/polyphase_rate_filter.py | 25 +++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 53abe90..11e97dc 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -88,7 +88,7 @@ class PolyphaseRateFilter(object):
 
     @property
     def b(self):
-        return PolyphaseRateFilter.B
+        return PolyphaseRateFilter._evaluate()
 
     @property
     def rate(self):
@@ -121,17 +121,30 @@ class PolyphaseRateFilter(object):
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         super().__init__()
+        self._index = 0
+        self._rate = rate
+        self._s = numpy.zeros(PolyphaseRateFilter._evaluate().shape[1])
+
+    @staticmethod
+    def _evaluate() -> numpy.ndarray:
+        """Evaluates coefficients.  A polyphase filter bank is shared by all
+        instances, and is evaluated once in a process, including a process
+        in which an instance is decoded rather than constructed.
+
+        Returns
+        -------
+        b: numpy.ndarray - forward coefficient
+        """
+
         b = PolyphaseRateFilter.B
-        rr, cc = b.shape
         if not b.any():
+            rr, cc = b.shape
             firfilter = FirFilter(style="Hann", frequency=0.85 / rr, order=cc * rr - 1)
             b = numpy.reshape(firfilter.b, (rr, cc), "F")
             for ii in range(0, rr):
                 b[ii, :] /= sum(b[ii, :])
             PolyphaseRateFilter.B = b
-        self._index = 0
-        self._rate = rate
-        self._s = numpy.zeros(cc)
+        return b
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
@@ -152,7 +165,7 @@ class PolyphaseRateFilter(object):
         y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + 1)
         if not self.rate:
             return y[:0]
-        b = PolyphaseRateFilter.B
+        b = self.b
         rr = b.shape[0]
         ii, jj = 0, 0
         while ii < len(x):
-- 
2.43.0


From 1d3e64ec7e932425996cc9afe10be37dbed271b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 07/24] fix: GoertzelFilter frequency assignment updates
 coefficients

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From f2b900fd444bb99a0ad7cc940a9ba311b4a30db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 08/24] fix: Log.stream keeps the present stream when a new
 stream cannot be added

---
 diamondback/commons/log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..2015f89 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -123,13 +123,14 @@ class Log(object):
         with Log._rlock:
             if (not stream) or (not hasattr(stream, "write")):
                 raise ValueError(f"Stream = {stream} Expected Write")
-            with contextlib.suppress(ValueError):
-                logger.remove(Log._identity)
-            Log._identity = logger.add(
+            identity = logger.add(
                 stream,
                 level=0,
                 format="<blue>{time:YYYY-MM-DDTHH:mm:ss.SSZ}</blue> <level>{level}</level> {message}",
             )
+            Log._identity, identity = identity, Log._identity
+            with contextlib.suppress(ValueError):
+                logger.remove(identity)
 
     @classmethod
     def write(cls, level: str, entry: str | Exception) -> None:
-- 
2.43.0


From d68f254c231b8dec171d52a248f1113727b2b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 09/24] fix: Gaussian models keep the previous model when fit
 fails

---
 diamondback/models/gaussian_mixture_model.py | 6 +++---
 diamondback/models/gaussian_model.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..6a4da37 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -100,8 +100,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        models = []
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
@@ -111,7 +110,8 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            models.append(model)
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..405f826 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -77,14 +77,14 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        model = []
         r = self.regularize * numpy.identity(x.shape[1])
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            model.append(dict(covariancei=i, mean=u))
+        self._model, self._shape = model, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
-- 
2.43.0


From a07ac5a29adfbfb32963a890177a4f0e8408e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 10/24] fix: ZTransform does not modify arguments in place

---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From a5e5ac4717827b4d4062519f3384370fcfc21054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 11/24] fix: integer filter coefficients no longer truncate
 signals

---
 diamondback/filters/fir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..7ac9f9f 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -207,6 +207,8 @@ class FirFilter(object):
             b = numpy.concatenate((b, numpy.zeros(len(s) - len(b))))
         if len(s) < len(b):
             s = numpy.concatenate((s, numpy.zeros(len(b) - len(s))))
+        if b.dtype.kind in "biu":
+            b = b.astype(float)
         super().__init__()
         self._b, self._s = numpy.array(b), numpy.array(s, type(b[0]))
 
-- 
2.43.0


From 94abb6c8528c4b8b7ed69ff81b5accb474d6511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 12/24] fix: PidFilter integral is limited when limit is
 reduced

---
 diamondback/filters/pid_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index bb2f596..81c98ab 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -84,6 +84,8 @@ class PidFilter(FirFilter):
             self.s[2] = x[ii] - self.s[0]
             if abs(self.s[1] + x[ii]) < self.limit:
                 self.s[1] += x[ii]
+            elif abs(self.s[1]) > self.limit:
+                self.s[1] *= self.limit / abs(self.s[1])
             self.s[0] = x[ii]
             y[ii] = self.b.dot(self.s)
         return y
-- 
2.43.0


From 439655f8080a36e248885a0493e0501813017efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 13/24] fix: Serial.decode rejects a damaged encoding rather
 than decoding a prefix

---
 diamondback/commons/serial.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/commons/serial.py b/diamondback/commons/serial.py
index 6eff924..7c4338d 100644
--- a/diamondback/commons/serial.py
+++ b/diamondback/commons/serial.py
@@ -105,12 +105,12 @@ class Serial(object):
         if not encoding:
             raise ValueError(f"Encoding = {encoding}")
         u = base64.b85decode(bytes(x, encoding))
-        try:
-            with io.BytesIO(gzip.decompress(u)) as fio:
-                y = pickle.load(fio)  # noqa
-        except Exception:
-            with io.BytesIO(u) as fio:
-                y = pickle.load(fio)  # noqa
+        if u[:2] == b"\x1f\x8b":
+            u = gzip.decompress(u)
+        with io.BytesIO(u) as fio:
+            y = pickle.load(fio)  # noqa
+            if fio.read(1):
+                raise ValueError(f"X = {x} Expected Serialized")
         return y
 
     @staticmethod
-- 
2.43.0


From bc3668d77b8dfdc633d0a08ed887525c270e0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 14/24] fix: DiversityModel does not exchange a full state for
 a less diverse one

---
 diamondback/models/diversity_model.py | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index d99d384..df14674 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -112,6 +112,26 @@ class DiversityModel(object):
         self._s = numpy.zeros((order + 1, 0))
         self._style = style
 
+    def _evaluate(self, s: numpy.ndarray) -> float:
+        """Evaluates diversity, a minimum distance between any members.
+
+        Parameters
+        ----------
+        s: numpy.ndarray - state
+
+        Returns
+        -------
+        y: float - diversity
+        """
+
+        y = numpy.inf
+        for uu in range(0, s.shape[0] - 1):
+            for vv in range(uu + 1, s.shape[0]):
+                d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
+                if d < y:
+                    y = d
+        return y
+
     def clear(self) -> None:
         """Clears an instance."""
 
@@ -149,15 +169,13 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                if not self._diversity:
+                    self._diversity = self._evaluate(self.s)
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
-                    u, s = numpy.inf, numpy.array(self.s)
+                    s = numpy.array(self.s)
                     s[kk, :] = x[ii, :]
-                    for uu in range(0, cc - 1):
-                        for vv in range(uu + 1, cc):
-                            d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
-                            if d < u:
-                                u = d
+                    u = self._evaluate(s)
                     if u > v:
                         v, jj = u, kk
                 if v > self._diversity:
-- 
2.43.0


From f37fcf0fbe918359b318b2d774ff29d36e07827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 15/24] fix: Log.write rejects an invalid level before it takes
 over the default output

---
 diamondback/commons/log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 2015f89..ea3d6aa 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -144,12 +144,12 @@ class Log(object):
         """
 
         with Log._rlock:
-            if not Log._identity:
-                Log.stream(sys.stdout)
             try:
                 v = logger.level(level.upper())
             except Exception as ex:
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
+            if not Log._identity:
+                Log.stream(sys.stdout)
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
                     entry = f"Exception = {type(entry).__name__} {entry}"
-- 
2.43.0


From 5719620451544c933fd055076e42131425ef9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 16/24] fix: Log.write shows the frames of the exception given,
 not of the one being handled

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index ea3d6aa..ead21b2 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -152,8 +152,8 @@ class Log(object):
                 Log.stream(sys.stdout)
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
+                    info = entry.__traceback__
                     entry = f"Exception = {type(entry).__name__} {entry}"
-                    info = sys.exc_info()[-1]
                     while info:
                         entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                         info = info.tb_next
-- 
2.43.0


From 8de56a3f97e4ac06c0893349dddaba91827514f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 17/24] fix: RestClient keeps its proxy setting when the
 environment names a proxy

---
 diamondback/commons/rest_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/commons/rest_client.py b/diamondback/commons/rest_client.py
index 75f5bc6..0c32c53 100644
--- a/diamondback/commons/rest_client.py
+++ b/diamondback/commons/rest_client.py
@@ -51,7 +51,7 @@ class RestClient(object):
     @property
     def live(self):
         try:
-            requests.request(method="head", url=self.url, proxies=self.proxy, timeout=self.timeout)
+            requests.request(method="head", url=self.url, proxies=dict(self.proxy or {}), timeout=self.timeout)
             value = True
         except Exception:
             value = False
@@ -139,7 +139,7 @@ class RestClient(object):
             headers=header,
             auth=auth,
             json=json,
-            proxies=self.proxy,
+            proxies=dict(self.proxy or {}),
             timeout=self.timeout,
         ) as value:
             value.raise_for_status()
-- 
2.43.0


From 863511477f97b5e21669699667467792a033f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 18/24] fix: filters refuse a signal which is not a vector
 before their state changes

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 diamondback/filters/fir_filter.py               | 2 +-
 diamondback/filters/goertzel_filter.py          | 2 +-
 diamondback/filters/iir_filter.py               | 2 +-
 diamondback/filters/pid_filter.py               | 2 +-
 diamondback/filters/polyphase_rate_filter.py    | 2 +-
 diamondback/filters/rank_filter.py              | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index 6154017..60cab9a 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -115,7 +115,7 @@ class ComplexBandpassFilter(FirFilter):
 
         if not isinstance(d, numpy.ndarray):
             d = numpy.array(list(d))
-        if not len(d):
+        if len(d.shape) != 1 or not len(d):
             raise ValueError(f"D = {d}")
         if not numpy.iscomplexobj(d):
             d = hilbert(d)
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 96ed95a..fc80541 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -118,7 +118,7 @@ class ComplexFrequencyFilter(FirFilter):
 
         if not isinstance(d, numpy.ndarray):
             d = numpy.array(list(d))
-        if not len(d):
+        if len(d.shape) != 1 or not len(d):
             raise ValueError(f"D = {d}")
         if not numpy.iscomplexobj(d):
             d = hilbert(d)
diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 7ac9f9f..46b8101 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -255,7 +255,7 @@ class FirFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index cf04372..359fff9 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -111,7 +111,7 @@ class GoertzelFilter(IirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
         u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..d5d05ea 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -299,7 +299,7 @@ class IirFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index 81c98ab..0f76322 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -77,7 +77,7 @@ class PidFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 11e97dc..5c05948 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -160,7 +160,7 @@ class PolyphaseRateFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + 1)
         if not self.rate:
diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..998fb7c 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -80,7 +80,7 @@ class RankFilter(FirFilter):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if not len(x):
+        if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), type(x[0]))
         for ii in range(0, len(x)):
-- 
2.43.0


From e3a559a818f063950fd3ef1cebc5513b4ff7311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 19/24] fix: GoertzelFilter recognizes a complex signal of any
 precision

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index 359fff9..e6da53c 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -114,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From d546c236342567c1803382f6546688e3ebd7be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 20/24] fix: RankFilter does not truncate samples when a piece
 of the signal holds integers

---
 diamondback/filters/rank_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index 998fb7c..9353f43 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,7 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if len(x.shape) != 1 or not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        y = numpy.zeros(len(x), type(self.s[0]))
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From 0f90e08c0c6f2847b57fdb5803a0954f9404a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 21/24] fix: ComplexExponentialFilter refuses a signal which is
 not a vector

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..0ed7c46 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -79,7 +79,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (len(x.shape) != 1) or (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = self.phase
-- 
2.43.0


From 1746af0d853d2ccf6201531ba09dfadb6e34cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 22/24] fix: assigned coefficients and states are copied, and
 may be lists

---
 diamondback/filters/fir_filter.py            | 5 +++--
 diamondback/filters/iir_filter.py            | 2 +-
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 diamondback/models/diversity_model.py        | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 46b8101..74facdd 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -111,7 +111,8 @@ class FirFilter(object):
 
     @b.setter
     def b(self, b: list | numpy.ndarray):
-        self._b = b
+        b = numpy.array(b)
+        self._b = b.astype(float) if b.dtype.kind in "biu" else b
 
     @property
     def s(self):
@@ -119,7 +120,7 @@ class FirFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, type(self.b[0]))
 
     def __init__(
         self,
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index d5d05ea..8703568 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -114,7 +114,7 @@ class IirFilter(FirFilter):
 
     @a.setter
     def a(self, a: list | numpy.ndarray):
-        self._a = a
+        self._a = numpy.array(a)
 
     def __init__(
         self,
diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 5c05948..07a5154 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, float)
 
     def __init__(self, rate: float) -> None:
         """Initialize.
diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index df14674..64162a5 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = s
+        self._s = numpy.array(s, float)
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0


From 02ee9953cd70fc38f37654c87ba4b9ece12f8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 23/24] fix: clamp the integral of PidFilter at its limit

The integral was held instead of clamped, so that a sample larger than
twice the limit left it stuck at the opposite limit.
---
 diamondback/filters/pid_filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/diamondback/filters/pid_filter.py b/diamondback/filters/pid_filter.py
index 0f76322..27b5ec8 100644
--- a/diamondback/filters/pid_filter.py
+++ b/diamondback/filters/pid_filter.py
@@ -82,10 +82,11 @@ class PidFilter(FirFilter):
         y = numpy.zeros(len(x), type(self.b[0]))
         for ii in range(0, len(x)):
             self.s[2] = x[ii] - self.s[0]
-            if abs(self.s[1] + x[ii]) < self.limit:
-                self.s[1] += x[ii]
-            elif abs(self.s[1]) > self.limit:
-                self.s[1] *= self.limit / abs(self.s[1])
+            v = self.s[1] + x[ii]
+            if abs(v) < self.limit:
+                self.s[1] = v
+            elif abs(v) >= self.limit:
+                self.s[1] = self.limit * numpy.sign(v)
             self.s[0] = x[ii]
             y[ii] = self.b.dot(self.s)
         return y
-- 
2.43.0


From 07cb45a3587ab5058b1470fb8e4515ffdf5ccebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 24/24] fix: evaluate the diversity of an assigned
 DiversityModel state

The diversity of the previous state stayed in force, so that it was
reported for the assigned state and decided its exchanges.
---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 64162a5..7333b5b 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -91,7 +91,7 @@ class DiversityModel(object):
 
     @s.setter
     def s(self, s: list | numpy.ndarray):
-        self._s = numpy.array(s, float)
+        self._diversity, self._s = 0.0, numpy.array(s, float)
 
     def __init__(self, style: str, order: int) -> None:
         """Initialize.
-- 
2.43.0

