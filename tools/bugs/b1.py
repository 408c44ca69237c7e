"""Planted bugs, first series (see tools/plant.py)."""
HEAD = """
import numpy as np
import deltares_wave_toolbox.cores.core_engine as ce
import deltares_wave_toolbox.cores.core_spectral as cs
import deltares_wave_toolbox.cores.core_time as ct
import deltares_wave_toolbox.cores.core_wavefunctions as cw
import deltares_wave_toolbox.cores.core_dispersion as cd
import deltares_wave_toolbox.cores.core_wave_decomposition as cdec
from deltares_wave_toolbox.series import Series, WaveHeights
from deltares_wave_toolbox.spectrum import Spectrum

rng = np.random.default_rng(7)
"""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD.lstrip() + demo))


SP, TM, WF, EN, DI, DE = ["cores/core_" + q + ".py" for q in ("spectral", "time", "wavefunctions", "engine", "dispersion", "wave_decomposition")]
SE, SU = "series.py", "spectrum.py"

bug("c01-step-rounded", "C01", [(SP, "time2freq", "dt = t[1] - t[0]", "dt = round(t[1] - t[0], 4)")],
    "a sampling step that is not a multiple of 1e-4 s (1/30 s, 1/64 s, 2e-5 s)", "frequency axis of the transform is not k/(N dt)",
    """
n, dt = 120, 1 / 64
f, X = cs.time2freq(np.arange(n) * dt, rng.standard_normal(n))
assert np.allclose(f, np.arange(n) / (n * dt), rtol=1e-9), f[-1]
""")
bug("c01-unfold-odd-short", "C01", [(SP, "unfold_spectrum", "nFTot = (nF - 1) * 2 + isOdd", "nFTot = max((nF - 1) * 2 + isOdd, 2 * isOdd + 2)")],
    "a record of exactly 3 samples (2 retained frequencies, odd)", "unfolding a very short odd record gives one element too many",
    """
for n in (2, 3, 4, 5, 6, 7):
    x = rng.standard_normal(n)
    f, X, odd = cs.time2freq_nyquist(np.arange(n) * 0.5, x)
    ft, Xt = cs.unfold_spectrum(f, X, odd)
    assert len(Xt) == n and np.allclose(cs.freq2time(Xt), x), n
""")
bug("c03-ratio-whole-axis", "C03", [(SP, "frequency_averaging", "nFactor = np.round(dfDesired / (f[1] - f[0]))", "nFactor = np.round(dfDesired * nFine / (f[-1] - f[0]))")],
    "few fine bins and a requested resolution ratio near a half", "number of averaged bins differs from round(dfDesired/df)",
    """
f = np.arange(30) * 0.01
S = rng.random(30)
fc, Sc = cs.frequency_averaging(f, S, 0.0745)
assert len(fc) == 4 and np.allclose(Sc, S[:28].reshape(4, 7).mean(1)), fc
""")
bug("c03-last-band-full", "C03", [(SP, "frequency_averaging", "ihigh = int((iFreq + 1) * nFactor)", "ihigh = int((iFreq + 1) * nFactor) if iFreq + 1 < nCoarse else nFine")],
    "number of fine bins not a multiple of the averaging factor", "the last coarse band also averages the left-over fine bins",
    """
f = np.arange(23) * 0.01
S = np.arange(23.0) ** 2
fc, Sc = cs.frequency_averaging(f, S, 0.05)
assert np.allclose(Sc, S[:20].reshape(4, 5).mean(1)) and np.allclose(fc, f[:20].reshape(4, 5).mean(1))
""")
bug("c04-rate-truncated", "C04", [(SE, "Series.get_spectrum", "nperseg = np.round((1 / self.dt) / dfDesired).astype(int)", "nperseg = np.round(np.round(1 / self.dt) / dfDesired).astype(int)")],
    "a sampling rate that is not a whole number of Hz", "segment length, and so the resolution, is not the one asked for",
    """
dt = 0.3
s = Series(np.arange(4000) * dt, rng.standard_normal(4000))
f = s.get_spectrum(dfDesired=0.01).f
assert abs(f[1] - 1 / (round(1 / dt / 0.01) * dt)) < 1e-12, f[1]
""")
bug("c04-window-dropped", "C04", [(SE, "Series.get_spectrum", "window_type=windows_type,", 'window_type=windows_type if not use_dfDesired else "hann",')],
    "a window other than hann together with dfDesired", "the window asked for is ignored",
    """
from scipy.signal import welch
x = rng.standard_normal(2000)
s = Series(np.arange(2000) * 0.5, x)
S = s.get_spectrum(windows_type="boxcar").sVarDens
assert np.allclose(S, welch(x, fs=2.0, window="boxcar", nperseg=200, noverlap=100)[1])
""")
bug("c05-bin-at-lower-cut", "C05", [(SE, "Series.get_bandpassfilter", "xTimeFiltered = Series(self.time, xTimeFiltered)", "xTimeFiltered = Series(self.time - self.time[0], xTimeFiltered)")],
    "a record that does not start at t=0", "the filtered series is shifted in time (phases are not kept)",
    """
t = 100 + np.arange(200) * 0.5
s = Series(t, np.sin(2 * np.pi * 0.1 * t))
z = s.get_bandpassfilter(0.05, 0.2)
assert np.allclose(z.time, t) and np.allclose(z.xTime, np.sin(2 * np.pi * 0.1 * z.time), atol=1e-9)
""")
bug("c06-seed-zero", "C06", [(SP, "spectrum2timeseries", "if seed >= 0:", "if seed > 0:")],
    "seed=0", "generation with seed 0 is not reproducible",
    """
f = np.linspace(0, 1, 101)
a = cs.spectrum2timeseries(f, np.ones(101), 0, 100, 0.5, seed=0)[1]
b = cs.spectrum2timeseries(f, np.ones(101), 0, 100, 0.5, seed=0)[1]
assert np.array_equal(a, b)
""")
bug("c06-tail-extended", "C06", [(SP, "spectrum2timeseries", "np.interp(fGen, f, sVarDens, left=0, right=0)", "np.interp(fGen, f, sVarDens, left=0)")],
    "a target spectrum that ends below the Nyquist frequency with non-zero density", "energy is put above the last target frequency",
    """
f = np.linspace(0, 0.5, 101)
t, x = cs.spectrum2timeseries(f, np.ones(101), 0, 199.5, 0.5, seed=3)
X = np.abs(np.fft.rfft(x))
assert X[120:].max() < 1e-8 * X.max()
""")
bug("c06-phase-half", "C06", [(SP, "spectrum2timeseries", "phase = 2 * np.pi * np.random.rand(1, nF)", "phase = 2 * np.pi * np.random.rand(1, nF // 2 + 1).repeat(2, axis=1)[:, :nF]")],
    "nothing but looking at the phases: neighbouring components share a phase", "phases are not independent",
    """
f = np.linspace(0, 1.1, 101)
t, x = cs.spectrum2timeseries(f, np.ones(101), 0, 999.5, 0.5, seed=3)
p = np.angle(np.fft.fft(x))[1:1000]
assert len(np.unique(np.round(p, 6))) > 900
""")
bug("c09-percent-fuzz", "C09", [(TM, "exceedance_wave_height", "iWaveP = int(np.floor(nWave * excPerc / 100.0)) - 1", "iWaveP = int(np.floor(nWave * (excPerc / 100.0))) - 1")],
    "percentages such as 29, 57 or 58 of 100 waves, where e/100*N rounds below the integer", "the wave one rank too high is returned",
    """
h = np.arange(100.0, 0, -1)
for p in range(1, 101):
    assert ct.exceedance_wave_height(h, p) == 101 - p, p
""")
bug("c10-sorted-flag", "C10", [(SE, "WaveHeights.highest_waves", "self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)", 'if not getattr(self, "_isSorted", False):\n            self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n            self._isSorted = True'),
     (SE, "WaveHeights.sort", "self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)", "self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n        self._isSorted = True")],
    "asking Hs, then determining the waves anew (which resets the arrays), then asking Hs again", "the second question raises an error",
    """
t = np.arange(500) * 0.5
s = Series(t, rng.standard_normal(500))
a = s.get_Hs()
s._determine_individual_waves()
assert s.get_Hs() == a
""")
bug("c10-hmax-first", "C10", [(SE, "WaveHeights.get_Hmax", "return np.max(self.hwave)", 'if "hmax" not in self.__dict__:\n            self.hmax = self.hwave[0]\n        self.hmax = max(self.hmax, np.max(self.hwave[: (self.nwave + 1) // 2]))\n        return self.hmax')],
    "the highest wave in the second half of an unsorted list", "Hmax depends on whether the waves were sorted before",
    """
w = WaveHeights([1.0, 2, 3, 4, 9], [1.0] * 5)
a = w.get_Hmax(); w.sort()
assert a == w.get_Hmax() == 9
""")
bug("c11-low-first-bin", "C11", [(WF, "compute_moment", "if m < 0 and f[0] == 0:\n        freq = f[1:]", "if m < 0 and f[0] < 1e-3:\n        freq = f[1:]")],
    "a negative moment on an axis starting between 0 and 1 mHz", "the first frequency is left out of the integral",
    """
f = 0.0005 + np.arange(41) * 0.01
S = np.full(41, 0.5)
from scipy.integrate import simpson
assert abs(cw.compute_moment(f, S, -1) - simpson(S / f, x=f)) < 1e-9
""")
bug("c11-tail-from-mean", "C11", [(WF, "compute_moment", "C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)", "C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** (power + (m < 0)))")],
    "fmax beyond the axis and a negative moment", "the amplitude of the f^-5 tail is wrong for m_-1",
    """
f = np.arange(1, 41) * 0.01
S = np.full(40, 0.5)
from scipy.integrate import simpson
tail = 0.5 * 0.4 ** 5 * (0.4 ** -5 - 2.0 ** -5) / 5
assert abs(cw.compute_moment(f, S, -1, 0.01, 2.0) - simpson(S / f, x=f) - tail) < 1e-9
""")
bug("c12-small-waves", "C12", [(WF, "compute_spectrum_params", "if Hm0 < 1e-6 or np.isnan(Hm0):", "if Hm0 < 1e-3 or np.isnan(Hm0):")],
    "waves lower than one millimetre", "all parameters NaN although the spectrum has energy",
    """
f = np.arange(1, 101) * 0.01
S = cw.create_spectrum_jonswap(f, 0.2, 0.0005)
assert abs(cw.compute_spectrum_params(f, S)[0] - 0.0005) < 1e-6
""")
bug("c12-band-m2", "C12", [(SU, "Spectrum.get_Tm02", "m2 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 2, fmin, fmax)", "m2 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 2, fmin)")],
    "an upper band limit", "Tm02 mixes the moments of two bands",
    """
f = np.arange(0, 101) * 0.01
S = cw.create_spectrum_jonswap(f, 0.2, 2.0)
s = Spectrum(f, S)
ref = np.sqrt(cw.compute_moment(f, S, 0, 0.1, 0.4) / cw.compute_moment(f, S, 2, 0.1, 0.4))
assert abs(s.get_Tm02(0.1, 0.4) - ref) < 1e-9
""")
bug("c13-tie-lowest", "C13", [(SU, "Spectrum.get_Tp", "ifp = max(imax)", "ifp = imax[len(imax) // 2]")],
    "three or more equal highest densities", "Tp is not that of the highest of the tied frequencies",
    """
s = Spectrum([0.1, 0.2, 0.3, 0.4, 0.5], [1.0, 2, 2, 2, 0])
assert abs(s.get_Tp() - 2.5) < 1e-12
""")
bug("c13-peak-at-end", "C13", [(WF, "compute_tps", "jmax = nF - 2", "jmax = nF // 2")],
    "the highest density in the last bin of an axis of more than 4 bins", "the parabola is put through other bins than the peak's",
    """
f = np.arange(1, 9) * 0.1
S = 10 - 40 * (f - 0.78) ** 2 + 0.4 * np.sin(40 * f) * (f < 0.55)
s = cw.compute_tps(f, S)
assert abs(1 / s - 0.78) < 1e-9, 1 / s
""")
bug("c14-lf-cutoff", "C14", [(SU, "Spectrum.get_Hm0_LF", "fmax = 0.45 / self.Tmm10", "fmax = 0.45 / self.Tmm10 if fmin == -1.0 else max(fmin, 0.45 / self.get_Tmm10(fmin=fmin))")],
    "the low-frequency height with only fmin given", "the cut-off is taken from a part of the spectrum",
    """
f = np.arange(0, 201) * 0.005
S = cw.create_spectrum_jonswap(f, 0.2, 2.0) + 0.5 * (f < 0.06)
s = Spectrum(f, S)
c = 0.45 / s.get_Tmm10()
assert abs(s.get_Hm0_LF(fmin=0.03) - s.get_Hm0(0.03, c)) < 1e-12
""")
bug("c15-cache-by-fmin", "C15", [(SU, "Spectrum.get_Tm01", "self.Tm01 = m0 / m1", 'if getattr(self, "_tm01Band", None) != fmin:\n            self._tm01Band = fmin\n            self.Tm01 = m0 / m1')],
    "asking Tm01 twice with the same fmin and another fmax", "the second answer is the first one's",
    """
f = np.arange(0, 101) * 0.01
s = Spectrum(f, cw.create_spectrum_jonswap(f, 0.2, 2.0))
a = s.get_Tm01(0.1, 0.3)
assert abs(s.get_Tm01(0.1, 0.6) - Spectrum(s.f, s.sVarDens).get_Tm01(0.1, 0.6)) < 1e-12
""")
bug("c16-low-frequencies", "C16", [(WF, "create_spectrum_jonswap", "if f_i > np.spacing(1):", "if f_i > 0.02:")],
    "frequencies below 0.02 Hz carrying energy (very long waves)", "the spectrum is cut off below 0.02 Hz",
    """
f = np.arange(0, 101) * 0.0005
S = cw.create_spectrum_jonswap(f, 0.01, 1.0, 1.0)
i = 25
ref = (f[i] / f[20]) ** -5 * np.exp(-1.25 * ((f[i] / 0.01) ** -4 - 1))
assert abs(S[i] / S[20] - ref) < 1e-9
""")
bug("c16-tail-option-lost", "C16", [(WF, "create_spectrum_object_jonswap", "sVarDens = create_spectrum_jonswap(f, fp, hm0, gammaPeak, l_fmax)", "sVarDens = create_spectrum_jonswap(f, fp, hm0, gammaPeak)")],
    "the object constructor with l_fmax=1", "the imposed height does not include the tail",
    """
f = np.arange(1, 41) * 0.01
a = cw.create_spectrum_object_jonswap(f, 0.2, 2.0, 3.3, 1)
assert np.allclose(a.sVarDens, cw.create_spectrum_jonswap(f, 0.2, 2.0, 3.3, 1), rtol=1e-12)
""")
bug("c17-g-constant", "C17", [(DI, "disper", "w2 = (w**2) * h / g", "w2 = (w**2) * h / 9.81")],
    "a gravitational acceleration other than 9.81", "dispersion relation solved for the wrong g",
    """
w, h, g = np.array([0.5, 1.0, 2.0]), 10.0, 9.7
k = cd.disper(w, h, g)
assert np.allclose(w**2, g * k * np.tanh(k * h), rtol=1e-9)
""")
bug("c18-weights-in-a12", "C18", [(DE, "decompose_linear_ZS", "a12 = w_loc_sum", "a12 = Nloc")],
    "gauge weights other than 1", "incident and reflected waves of weighted arrays wrong",
    """
t = np.arange(200) * 0.25
w = 2 * np.pi * 4 / 50
k = cd.disper(np.array([w]), 2.0)[0]
xl = np.array([0.0, 1.3, 3.1])
X = np.stack([np.cos(w * t - k * x) + 0.4 * np.cos(w * t + k * x + 1) for x in xl], 1)
a, b = cdec.decompose_linear_ZS(t, X, 2.0, xl, np.array([1, 0.5, 1]))
assert np.allclose(a, np.cos(w * t), atol=1e-6)
""")
bug("c18-last-frequency", "C18", [(DE, "decompose_linear_ZS", "for ifreq in np.arange(0, Nf):", "for ifreq in np.arange(0, Nf - 1):")],
    "a wave component at the highest frequency of an odd-length record", "the highest component is missing from both waves",
    """
n = 41; t = np.arange(n) * 0.5
w = 2 * np.pi * 20 / (n * 0.5)
k = cd.disper(np.array([w]), 30.0)[0]
xl = np.array([0.0, np.pi / 2 / k])
X = np.stack([np.cos(w * t - k * x) for x in xl], 1)
a, b = cdec.decompose_linear_ZS(t, X, 30.0, xl, np.array([1.0, 1.0]))
assert np.allclose(a, np.cos(w * t), atol=1e-6)
""")
bug("c19-coinciding", "C19", [(DE, "decompose_linear_ZS", "min(np.diff(x_loc)) > 0", "min(np.diff(x_loc)) >= 0")],
    "two gauges at the same position", "coinciding gauges are accepted",
    """
t = np.arange(100) * 0.25
X = rng.standard_normal((100, 3))
try:
    cdec.decompose_linear_ZS(t, X, 2.0, np.array([0.0, 1.0, 1.0]), np.ones(3))
except (AssertionError, ValueError):
    pass
else:
    raise AssertionError("accepted")
""")
bug("c20-floor-high", "C20", [(SP, "coherence", "small_number = 1e-10", "small_number = 1e-4")],
    "signals of small amplitude", "coherence of weak signals far below its value",
    """
n = 4000
x, y = 1e-3 * rng.standard_normal((2, 64)), None
f = np.arange(64) * 0.01
X = x[0] + 1j * x[1]
c = cs.coherence(f, X, 3 * X, 0.04)[1]
assert np.allclose(c, 1, atol=1e-6), c
""")
bug("c21-slope-clipped", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "gamma_transition = 0.35 + 5.8 * (1 / cota_slope)", "gamma_transition = 0.35 + 5.8 * (1 / min(cota_slope, 200.0))")],
    "foreshore slopes between 1:200 and 1:250", "the transition height does not follow the slope",
    """
h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 1000, 2.0, 250.0)
assert abs(h[1] - (0.35 + 5.8 / 250) * 2.0) < 1e-12
""")
bug("c24-negative-fraction", "C24", [(TM, "highest_waves_params", "if fracP < 0 or fracP > 1:", "if abs(fracP) > 1:")],
    "a negative fraction", "a negative fraction of waves is silently accepted",
    """
try:
    ct.highest_waves_params([2.0, 1.0], [1.0, 1.0], -0.5)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
bug("c24-equal-frequencies", "C24", [(EN, "monotonic_increasing_constant_step", "xMonotonic = bool(np.all(xDiff > 0))", "xMonotonic = bool(np.all(xDiff >= 0))")],
    "an axis of identical values", "a constant axis is accepted as increasing",
    """
try:
    Spectrum(np.full(5, 0.1), np.ones(5))
except (AssertionError, ValueError):
    pass
else:
    raise AssertionError("accepted")
""")
bug("c25-tm02-marker", "C25", [(SU, "Spectrum.plot", "[1 / self.Tm02, 1 / self.Tm02],", "[1 / self.Tm02, 1 / getattr(self, 'Tm01', self.Tm02)],")],
    "both Tm01 and Tm02 computed before plotting", "the Tm02 marker is slanted towards Tm01",
    """
f = np.arange(0, 101) * 0.01
s = Spectrum(f, cw.create_spectrum_jonswap(f, 0.2, 2.0))
s.get_Tm02(); s.get_Tm01()
L = [l for l in s.plot().axes[0].lines if l.get_label() == "Tm02"][0]
assert np.allclose(L.get_xdata(), 1 / s.Tm02)
""")
bug("c25-rayleigh-normalise", "C25", [(SE, "WaveHeights.plot_exceedance_waveheight_Rayleigh", "hwave_BG / H_normalize,", "hwave_BG,")],
    "normalize together with the Battjes-Groenendijk curve", "one of the curves is not divided by Hs",
    """
w = WaveHeights(rng.rayleigh(1.0, 300), np.full(300, 5.0))
L = {l.get_label()[:7]: l.get_ydata() for l in w.plot_exceedance_waveheight_Rayleigh(normalize=True, plot_BG=True, water_depth=3.0, hm0=2.8, cota_slope=50.0).axes[0].lines}
ref = cw.compute_BattjesGroenendijk_wave_height_distribution(2.8, 300, 3.0, cota_slope=50.0)[0] / w.get_Hs()[0]
assert np.allclose(L["Battjes"], ref)
""")
bug("c26-asymmetry-mean", "C26", [(SE, "Series.get_asymmetry", "np.mean((self.xTime - np.mean(self.xTime)) ** 2) ** (1.5)", "np.mean(self.xTime**2) ** (1.5)")],
    "a record with a mean level", "asymmetry depends on the mean level",
    """
t = np.arange(200) * 0.5
x = np.sin(t) + 0.3 * np.sin(2 * t + 1)
assert abs(Series(t, x).get_asymmetry() - Series(t, x + 0.5).get_asymmetry()) < 1e-9
""")
bug("c27-seed-lost", "C06", [(SP, "spectrum2timeseries_object", "spectrum2timeseries(f, sVarDens, tInit, tEnd, dt, seed)", "spectrum2timeseries(f, sVarDens, tInit, tEnd, dt)")],
    "a seed given to the object variant", "the seed is ignored",
    """
f = np.linspace(0, 1, 101)
a = cs.spectrum2timeseries_object(f, np.ones(101), 0, 100, 0.5, 5).xTime
b = cs.spectrum2timeseries_object(f, np.ones(101), 0, 100, 0.5, 5).xTime
assert np.array_equal(a, b)
""")
bug("c27-start-time", "C27", [(SU, "Spectrum.create_series", "self.f, self.sVarDens, tstart, tend, dt", "self.f, self.sVarDens, 0.0, tend, dt")],
    "a start time other than zero", "the generated series covers another time span",
    """
f = np.linspace(0, 1, 101)
s = Spectrum(f, np.ones(101)).create_series(50.0, 150.0, 0.5)
assert s.time[0] == 50.0 and abs(s.time[-1] - 150) < 1e-9
""")
bug("c28-no-energy", "C28", [(SP, "coherence", "ismall = np.where(S22_b < small_number)[0]", "ismall = np.where(S22_b > small_number)[0][:0]")],
    "a second signal without energy in a band", "coherence is NaN",
    """
f = np.arange(20) * 0.1
X = rng.standard_normal(20) + 0j
assert np.all(np.isfinite(cs.coherence(f, X, 0 * X, 0.2)[1]))
""")
bug("c29-tps-sentinel", "C29", [(WF, "compute_tps", "if Smax < 1e-10:", "if Smax < 1e-5:")],
    "a spectrum of very low waves (peak density below 1e-5)", "no peak period for small-scale waves",
    """
f = np.arange(1, 101) * 0.01
S = cw.create_spectrum_jonswap(f, 0.2, 2.0)
assert abs(cw.compute_tps(f, S * 1e-7) - cw.compute_tps(f, S)) < 1e-9
""")
