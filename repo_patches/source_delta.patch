From e0fe3614d6b306a1c7709f0219640a104a0daa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/31] fix: disper crashed for the deep (h=inf) and shallow
 (h<0) water options

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From 9ada45f772c546b22e23154c7a43e288c8e9c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 02/31] fix: disper returned a constant wave number for very
 long waves (kh < 1e-4)

---
 deltares_wave_toolbox/cores/core_dispersion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..61c7435 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,9 +62,10 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
-        ielem = np.nonzero(w2 < 1.0e-8)
-        w2[ielem] = 1e-8
-        q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
+        # avoid division by zero for w = 0 (in that case k = 0 through sign(w))
+        ielem = np.nonzero(w2 < 1.0e-200)
+        w2[ielem] = 1.0e-200
+        q = w2 / (-np.expm1(-(w2 ** (5 / 4)))) ** (2 / 5)
 
         idxs = [1, 2]
         for j in idxs:
-- 
2.43.0


From 8a2c3274967d49e4816a4f3639b4a4768a23557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/31] fix: axis with decreasing step sizes was accepted as
 uniformly spaced

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..bcfd2f6 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(
+        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
+    )
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From d4ff6b062884fd6e9f449449a9d63a340336188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/31] fix: uniformly spaced axis with large start value was
 rejected as non-uniform

---
 deltares_wave_toolbox/cores/core_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index bcfd2f6..5f7b8d6 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,9 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(
-        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
-    )
+    # tolerance accounts for the rounding of large axis values (e.g. epoch times)
+    tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 17b1d95c5aa479ffed37e781cae7bf279f80d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 05/31] fix: compute_moment ignored the given bound when the
 other one was not given

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..e924c60 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,12 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin and/or fmax are given (the other one is the end of the freq interval)
+        fmin = f[0] if fmin == -1.0 else fmin
+        fmax = f[len(f) - 1] if fmax == -1.0 else fmax
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From cbcb5face26c2e13e1ff5390870367c7067f31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 06/31] fix: compute_moment started the high-frequency tail at
 freq(end) even if fmin is higher

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index e924c60..5298762 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -265,8 +265,9 @@ def compute_moment(
             #    C determined by power and spec(end)
             power = -5  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
+            ftail = max(fminn, freq[len(freq) - 1])
             moment2 = (C / (m + power + 1)) * (
-                fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
+                fmax ** (m + power + 1) - ftail ** (m + power + 1)
             )
             # Add the two moments
             moment = moment1 + moment2
-- 
2.43.0


From 8641a4bfe2ca9fe89f736053daf64eb7671d4a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 07/31] fix: fourth moment with high-frequency tail was NaN

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 5298762..acdf6ca 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -266,9 +266,12 @@ def compute_moment(
             power = -5  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
             ftail = max(fminn, freq[len(freq) - 1])
-            moment2 = (C / (m + power + 1)) * (
-                fmax ** (m + power + 1) - ftail ** (m + power + 1)
-            )
+            if m + power + 1 == 0:
+                moment2 = C * np.log(fmax / ftail)
+            else:
+                moment2 = (C / (m + power + 1)) * (
+                    fmax ** (m + power + 1) - ftail ** (m + power + 1)
+                )
             # Add the two moments
             moment = moment1 + moment2
     return moment
-- 
2.43.0


From b18cbeadee21e3923b3c6ae21294493852adf265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 08/31] fix: integer frequency axes made negative-order moments
 and JONSWAP crash

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index acdf6ca..a513cdc 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -235,7 +235,7 @@ def compute_moment(
         spec = sVarDens
 
     # --- Compute the integrand, that is the product of f^m * S
-    integrand = freq ** (m) * spec
+    integrand = freq ** float(m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
@@ -263,7 +263,7 @@ def compute_moment(
             # 2: Integral over [freq(end),fmax]
             #    Variance density spectrum in this range: C * f^power, with
             #    C determined by power and spec(end)
-            power = -5  # Power of high-frequency tail
+            power = -5.0  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
             ftail = max(fminn, freq[len(freq) - 1])
             if m + power + 1 == 0:
@@ -394,7 +394,7 @@ def create_spectrum_jonswap(
 
             # Variance density
             sVarDens[iff] = (
-                C * f_i ** (-5) * np.exp(-1.25 * nu ** (-4)) * lambda_jonswap
+                C * f_i ** (-5.0) * np.exp(-1.25 * nu ** (-4)) * lambda_jonswap
             )
 
     # --- Compute 'wave height' of the not yet correctly scaled variance
-- 
2.43.0


From 22501d1b6c71359292e92d64b50ec9de81f95954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 09/31] fix: smoothed peak period lay outside the band (even
 negative) for a peak at its edge

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index a513cdc..b7d1122 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -677,11 +677,11 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             a = p[0]
             b = p[1]
             # --- Compute Fps
-            if a < 0.0:
+            if a < 0.0 and f[0] <= -b / (2 * a) <= f[nF - 1]:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-                Fps = f[imax]
+                Fps = f[imax[0]]
             Tps = 1.0 / Fps
 
         elif nmax == 2:
-- 
2.43.0


From 1fc8860fa92834cc3807521d8441b6151185287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 10/31] fix: compute_tps returned a one-element array for
 two-point spectra

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b7d1122..a975b39 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -717,7 +717,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF = 2: two points
         if nmax == 1:
             # nmax = 1
-            Tps = 1 / f[imax]
+            Tps = 1 / f[imax[0]]
         else:
             # nmax = 2
             favg = 0.5 * (f[0] + f[1])
-- 
2.43.0


From 76e042217fc9b73880b18582612cf41a0011699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 11/31] fix: tpd returned NaN for a spectrum with a
 single-frequency peak

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index a975b39..0dcc78c 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -586,6 +586,9 @@ def tpd(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
     itemp = np.where(sVarDens / max_spectum >= 0.8)[0]
     temp = f[itemp]
     fp_limits = [min(temp), max(temp)]
+    if len(temp) == 1:
+        # --- peak consists of a single frequency
+        return 1 / temp[0]
 
     #  --- compute zeroth and first moment for selected frequency interval.
     m0 = compute_moment(f, sVarDens, 0, fp_limits[0], fp_limits[1])
-- 
2.43.0


From 817f40ce990945829b58e93ffa31c20949d8d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 12/31] fix: band averages of integer-valued spectra were
 truncated to integers

---
 deltares_wave_toolbox/cores/core_spectral.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..4556142 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,9 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(
+        len(f_coarse), dtype=np.result_type(sVarDens, np.float32)
+    )
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From 719c20c85f9a30a22432141ab65b8b93377dd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 13/31] fix: generated series could run one time step past the
 requested end time

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 4556142..88dc0bb 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -664,9 +664,11 @@ def spectrum2timeseries(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
 
-    t = np.arange(tInit, tEnd + dt, dt)
+    # --- Generate time axis (the small margin prevents that rounding errors in
+    #     the number of time steps add a time level after tEnd)
+    nTime = int(np.ceil((tEnd - tInit) / dt - 1e-4)) + 1
+    t = tInit + np.arange(0, nTime) * dt
 
-    nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
     tDuration = nTimeEven * dt
 
-- 
2.43.0


From b359829745b50d2c85498df1d9d7f490661a45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 14/31] fix: band filter removed the highest frequency
 component inside the band

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 88dc0bb..6f5212a 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -855,7 +855,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From 71f0e713e4fd2ca8e7174dd55b44a0f257baea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 15/31] fix: coherence lost the phase of the cross-spectrum
 before band averaging

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 6f5212a..5f64378 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -212,13 +212,13 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
-    # --- Compute auto-spectral and cross-spectral (absolute value) densities
+    # --- Compute auto-spectral and (complex) cross-spectral densities
     #     on original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
-    S12 = abs(xFreq1 * np.conj(xFreq2))
+    S12 = xFreq1 * np.conj(xFreq2)
 
     # --- Apply band averaging
     f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)
@@ -236,7 +236,7 @@ def coherence(
     S22_b[ismall] = small_number
 
     # --- Compute coherence
-    coh2 = (S12_b) ** 2 / (S11_b * S22_b)
+    coh2 = abs(S12_b) ** 2 / (S11_b * S22_b)
 
     return f_coh2, coh2
 
-- 
2.43.0


From 9fb997e3247c4150b08005bb1ffe1994f343476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 16/31] fix: get_spectrum failed by default for series of up to
 half a segment length

---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..3df824f 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -437,6 +437,7 @@ class Series(WaveHeights):
 
         if use_dfDesired:
             nperseg = np.round((1 / self.dt) / dfDesired).astype(int)
+            nperseg = min(nperseg, self.nt)  # a segment cannot exceed the series
             noverlap = np.round(nperseg / 2).astype(int)
 
         [f, S] = core_spectral.compute_spectrum_welch_wrapper(
-- 
2.43.0


From dbf0deb0a01725c57713455d2eeb1aa68a392c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 17/31] fix: exceedance plot assigned probability zero to the
 highest wave

---
 deltares_wave_toolbox/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 3df824f..d2de5da 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -161,7 +161,7 @@ class WaveHeights:
         self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
         fig = plt.figure()
         plt.plot(
-            self.hwave, np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave
+            self.hwave, np.arange(1, self.nwave + 1) / self.nwave
         )
 
         plt.yscale("log")
-- 
2.43.0


From 3b77255ce72715a916399d7f269686ece2e79d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 18/31] fix: Series accepted time axes that are not increasing

---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index d2de5da..d2ebbbc 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -322,6 +322,7 @@ class Series(WaveHeights):
         assert np.var(np.diff(time)) < np.mean(
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
+        assert np.all(np.diff(time) > 0), "Input error: time is not increasing"
 
         self.time = time
         self.xTime = xTime
-- 
2.43.0


From c098178ba86235631a582d900cecc7eee3e8b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 19/31] fix: wave statistics of a series without waves raised
 an error instead of returning zero

---
 deltares_wave_toolbox/cores/core_time.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..086f0fe 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -56,6 +56,10 @@ def sort_wave_params(
     hWave = core_engine.convert_to_array_type(hWave)
     tWave = core_engine.convert_to_array_type(tWave)
 
+    # --- If there are no waves, return to calling function
+    if hWave.size == 0 and tWave.size == 0:
+        return np.empty(0), np.empty(0)
+
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
     is1d_array = core_engine.is1darray(hWave)
@@ -260,14 +264,14 @@ def highest_waves_params(
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
-    # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # Perform checks on the input arguments (arrays are empty if there are no waves)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
-    is1d_array = core_engine.is1darray(tWaveSorted)
+    is1d_array = core_engine.is1darray(tWaveSorted) or tWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
@@ -349,8 +353,8 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     """
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
-    # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # Perform checks on the input arguments (array is empty if there are no waves)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-- 
2.43.0


From b94d745039ee8d094fe7393bb7b51973e54b0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 20/31] fix: decomposition accepted weights below zero or above
 one

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 578ad39bb9e2c7c1041a1484d3abc8b547b91f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 21/31] fix: decomposition of too few Series objects treated
 missing gauges as zero signals

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index b42faeb..7292e42 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -275,7 +275,7 @@ def decompose_linear_ZS_series(
 
         if i == 0:
             t = series_object.time
-            xTime = np.zeros((len(t), len(x_loc)))
+            xTime = np.zeros((len(t), len(Series_objects)))
 
         xTime[:, i] = series_object.xTime
 
-- 
2.43.0


From 427ed4a4e8350f84b1f95a6b70682588cb635b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 22/31] fix: derived Spectrum parameters reused values of
 earlier calls with other bands

---
 deltares_wave_toolbox/spectrum.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..881fca5 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,8 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -156,8 +155,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -270,8 +268,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -306,8 +303,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -383,11 +379,9 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +408,9 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +438,9 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From 3628d4ebf4387cd4f95bd780ab5995d1f044f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 23/31] fix: sorting reordered waves of equal height, so
 repeated queries gave other periods

---
 deltares_wave_toolbox/cores/core_time.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 086f0fe..d23375c 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -88,9 +88,9 @@ def sort_wave_params(
 
     # Computational core
     # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    #     (stable, such that waves with equal height always keep their order)
+    iSorted = nWave - 1 - np.argsort(hWave[::-1], kind="stable")
+    iSorted = iSorted[::-1]  # reverses the array, meaning descending order.
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From f524d1e11ca52442d50ed67359074e98065d203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 24/31] fix: disper failed for column vectors, matrices and 0-d
 arrays

---
 deltares_wave_toolbox/cores/core_dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 61c7435..41ac268 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -47,7 +47,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
 
     # check if radial frequency is single value or of type array, if of type single value
     # convert to array to ensure this function can handle single values as well as arrays.
-    w = core_engine.convert_to_array_type(w)
+    w = np.atleast_1d(core_engine.convert_to_array_type(w))
 
     # if not (isinstance(w,np.ndarray)):
     #   w = w*np.ones(1)
@@ -74,8 +74,8 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             a = (1 - q * thq) * thq2
             b = thq + q * thq2
             c = q * thq - w2
-            arg = np.zeros(np.size(q))
-            iq = np.where(a != 0)[0]
+            arg = np.zeros(np.shape(q))
+            iq = np.nonzero(a != 0)
             arg[iq] = (b[iq] ** 2) - 4 * a[iq] * c[iq]
             arg[iq] = (-b[iq] + np.sqrt(arg[iq])) / (2 * a[iq])
             iq = np.nonzero(abs(a * c) < 1.0e-8 * (b**2))
-- 
2.43.0


From 786eaa734d5c4f97ea9dcff0d6915a0feb9f7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 25/31] fix: spectrum2timeseries failed for a density given as
 column vector

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5f64378..e5ec951 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -652,14 +652,14 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, SSize = core_engine.convert_to_vector(sVarDens)
 
-    if fSize[1] > 1 or xFreqSize[1] > 1:
+    if fSize[1] > 1 or SSize[1] > 1:
         raise ValueError(
             "compute_spectrum_freq_series: Input error: input should be 1d arrays"
         )
 
-    if not (fSize[0] == xFreqSize[0]):
+    if not (fSize[0] == SSize[0]):
         raise ValueError(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
-- 
2.43.0


From 5f7781b0d0685917d3a957a44c20cfceb0c7c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 26/31] fix: applybandfilter failed for lists and column
 vectors

---
 deltares_wave_toolbox/cores/core_spectral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index e5ec951..f66d1b9 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -838,6 +838,9 @@ def applybandfilter(
             1D array containing the folded Fourier coefficients.
 
     """
+    f, _ = core_engine.convert_to_vector(f)
+    xFreq, _ = core_engine.convert_to_vector(xFreq)
+
     # --- Length of array f = length of array xFreq
     Nf = len(f)
 
-- 
2.43.0


From 5b0a8229534036d466ccbeda51a57f8dc8e2ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 27/31] fix: Hmax and Hrms of a series without waves raised an
 error or gave NaN

---
 deltares_wave_toolbox/series.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index d2ebbbc..dc621ff 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -60,6 +60,8 @@ class WaveHeights:
             Hrms
 
         """
+        if self.nwave == 0:
+            return 0.0
         return np.sqrt(np.mean(self.hwave**2))
 
     def get_Hmax(self) -> float64:
@@ -71,6 +73,8 @@ class WaveHeights:
             Hmax
 
         """
+        if self.nwave == 0:
+            return 0.0
         return np.max(self.hwave)
 
     def get_Hs(self) -> tuple[float, float]:
-- 
2.43.0


From 95e9cf9d0107732b3d7c80ee462d900bb18b0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 28/31] fix: narrow integer input overflowed in crossing times,
 wave heights and axis checks

---
 deltares_wave_toolbox/cores/core_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 5f7b8d6..0ed4098 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -24,6 +24,9 @@ def convert_to_array_type(x: ArrayLike) -> NDArray[Any]:
         x = np.asarray([x])
     elif not isinstance(x, np.ndarray):
         x = np.asarray(x)
+    if np.issubdtype(x.dtype, np.integer):
+        # --- prevent overflow of (narrow) integer types in later computations
+        x = x.astype(float)
     return x
 
 
-- 
2.43.0


From 6136f1c29566f53895780f73879e3c10cb4d336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 29/31] fix: axis helpers gave wrong answers for narrow
 integer, column and list input

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 0ed4098..7902ebd 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -69,6 +69,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     bool
         True when vector is monotonic increasing with constant step size
     """
+    x, _ = convert_to_vector(x)
     xDiff = np.diff(x)
     # tolerance accounts for the rounding of large axis values (e.g. epoch times)
     tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
@@ -107,6 +108,7 @@ def is1darray(x: ArrayLike) -> bool:
         True if input is a 1D array
     """
     is1d = False
+    x = convert_to_array_type(x)
     dimx, dimy = _size(x)
     if dimx != 0 and dimy == 0:
         is1d = True
@@ -128,6 +130,6 @@ def approx_array_index(array: ArrayLike, user_value: float) -> int:
     int
         index value of array value closest to the user specified value
     """
-    array = np.asarray(array)
+    array = convert_to_array_type(array)
     idx = (np.abs(array - user_value)).argmin()
     return int(idx)
-- 
2.43.0


From 51db232b5bcae15dfc2e97bff6843bef3f66ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 30/31] fix: coherence and Welch spectrum gave wrong results
 for column and narrow integer input

---
 deltares_wave_toolbox/cores/core_spectral.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index f66d1b9..2b772c9 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -212,6 +212,9 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
+    xFreq1, _ = core_engine.convert_to_vector(xFreq1)
+    xFreq2, _ = core_engine.convert_to_vector(xFreq2)
+
     # --- Compute auto-spectral and (complex) cross-spectral densities
     #     on original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
@@ -791,6 +794,8 @@ def compute_spectrum_welch_wrapper(
             1D array containing variance density spectrum of the signal [m^2/Hz]
 
     """
+    xTime, _ = core_engine.convert_to_vector(xTime)
+
     if nperseg == 0:
         nperseg = None
     if noverlap == 0:
-- 
2.43.0


From cc9bdb06625bff08ac13aae41138c24b1ea240ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 31/31] fix: histogram of equal wave heights (regular waves)
 raised an error

---
 deltares_wave_toolbox/series.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index dc621ff..b4c74c2 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -290,7 +290,11 @@ class WaveHeights:
 
         """
         fig = plt.figure()
-        plt.hist(self.hwave, label="Distribution")
+        # heights that are equal up to rounding (regular waves) span no room for bins
+        hrange = None
+        if self.nwave > 0 and np.ptp(self.hwave) < 1e-12 * np.max(self.hwave):
+            hrange = (np.min(self.hwave) - 0.5, np.max(self.hwave) + 0.5)
+        plt.hist(self.hwave, range=hrange, label="Distribution")
 
         plt.grid("on")
         plt.xlabel("H [$m$]")
-- 
2.43.0

