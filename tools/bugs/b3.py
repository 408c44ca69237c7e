"""Planted bugs, third series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c02-even-count", "C02", [(SP, "compute_spectrum_time_series", "Ntime = len(t)", "Ntime = 2 * (len(f) - 1) if len(t) > 64 else len(t)")],
    "odd records of more than 64 samples", "densities too large by (N/(N-1))^2",
    """
n = 201
x = rng.standard_normal(n); x -= x.mean()
f, S = cs.compute_spectrum_time_series(np.arange(n) * 0.5, x)
assert abs(np.sum(S) * f[1] - x.var()) < 1e-9
""")
bug("c02-series-length", "C02", [(SE, "Series.get_spectrum_raw", "self.time, self.xTime, dfDesired", "self.time, self.xTime, max(dfDesired, 1.0 / self.time[-1])")],
    "a record that starts late or before zero and a resolution close to 1/T", "averages (or fails to average) on a resolution derived from the end time",
    """
n = 200
t = 5.0 - np.arange(n)[::-1] * 0.5
x = rng.standard_normal(n)
s = Series(t, x).get_spectrum_raw(0.01)
assert len(s.f) == 101
""")
bug("c03-first-frequency", "C03", [(SP, "frequency_averaging", "nFactor = np.round(dfDesired / (f[1] - f[0]))", "nFactor = np.round(dfDesired / (f[1] if f[0] < f[1] / 2 else f[1] - f[0]))")],
    "a fine axis whose first frequency lies between 0 and one step", "fewer fine bins are averaged than asked for",
    """
f = 0.004 + np.arange(60) * 0.01
S = rng.random(60)
fc, Sc = cs.frequency_averaging(f, S, 0.05)
assert len(fc) == 12
""")
bug("c04-median-long", "C04", [(SP, "compute_spectrum_welch_wrapper", 'average="mean"', 'average="mean" if nperseg is None or len(xTime) < 60 * nperseg else "median"')],
    "a record of more than 60 segments", "median instead of mean of the periodograms",
    """
from scipy.signal import welch
x = rng.standard_normal(7000)
f, S = cs.compute_spectrum_welch_wrapper(x, 0.5, 100)
assert np.allclose(S, welch(x, 2.0, nperseg=100)[1])
""")
bug("c05-negative-low", "C05", [(SP, "applybandfilter", "ilow = 1\n", "ilow = 0 if flow < 0 else 1\n")],
    "a negative lower limit", "the mean level passes the filter",
    """
t = np.arange(64) * 0.5
x = rng.standard_normal(64) + 3
assert abs(cs.bandpassfilter(t, x, -0.1, 0.4).mean()) < 1e-9
""")
bug("c06-left-edge", "C06", [(SP, "spectrum2timeseries", "sVarDensGen = np.interp(fGen, f, sVarDens, left=0, right=0)", "sVarDensGen = np.interp(fGen, f, sVarDens, right=0)")],
    "a target spectrum that starts above zero with non-zero density", "energy below the first frequency of the target",
    """
f = np.linspace(0.2, 0.6, 41)
t, x = cs.spectrum2timeseries(f, np.ones(41), 0, 1023.5, 0.5, 3)
X = np.abs(np.fft.rfft(x)); ff = np.fft.rfftfreq(len(x), 0.5)
assert X[ff < 0.19].max() < 1e-6 * X.max()
""")
bug("c08-tie-last", "C08", [(TM, "determine_params_individual_waves", "iMax = np.where(xIwave == max(xIwave))[0][0]", "iMax = np.where(xIwave >= (1 - 1e-3) * max(xIwave))[0][0]")],
    "a crest that is flat to within a thousandth", "crest and height are those of a sample before the crest",
    """
t = np.arange(4000) * 0.01
x = np.cos(t * 2 * np.pi / 8)
h, T, ac, at, tc, tt = ct.determine_params_individual_waves(ct.determine_zero_crossing(t, x)[1], t, x)
assert np.all(np.abs(ac - 1) < 1e-7), ac
""")
bug("c09-rms-std", "C09", [(SE, "WaveHeights.get_Hrms", "return np.sqrt(np.mean(self.hwave**2))", "return np.sqrt(np.mean(self.hwave) ** 2 + np.var(self.hwave, ddof=self.nwave > 500))")],
    "more than 500 waves", "the root-mean-square uses N-1",
    """
h = rng.random(800)
assert abs(WaveHeights(h, h).get_Hrms() - np.sqrt(np.mean(h ** 2))) < 1e-9
""")
bug("c11-lower-grid", "C11", [(WF, "compute_moment", "if fmax <= freq[len(freq) - 1]:\n            ifminn = core_engine.approx_array_index(freq, fminn)", "if fmax <= freq[len(freq) - 1]:\n            ifminn = min(np.searchsorted(freq, fminn), len(freq) - 1)")],
    "a lower limit that is not a frequency of the axis, nearer to the one below", "the first bin of the band is left out",
    """
f = np.arange(0, 101) * 0.01
S = np.ones(101)
assert abs(cw.compute_moment(f, S, 0, 0.102, 0.5) - 0.4) < 1e-9
""")
bug("c11-few-points", "C11", [(WF, "compute_moment", "moment = integrate.simpson(integrand[ifminn:ifmax], x=freq[ifminn:ifmax])", "moment = (integrate.simpson if ifmax - ifminn > 4 else np.trapezoid)(integrand[ifminn:ifmax], x=freq[ifminn:ifmax])")],
    "a band of three or four frequencies", "trapezoidal instead of Simpson's rule",
    """
f = np.arange(0, 101) * 0.01
assert abs(cw.compute_moment(f, f ** 2, 0, 0.3, 0.32) - (0.32 ** 3 - 0.3 ** 3) / 3) < 1e-12
""")
bug("c13-tp-nearest", "C13", [(SU, "Spectrum.get_Tp", "iFmin = np.where(self.f >= fmin)[0][0]", "iFmin = core_engine.approx_array_index(self.f, fmin)")],
    "a lower limit just above the frequency with the highest density", "the peak lies outside the band",
    """
f = np.arange(1, 51) * 0.01
S = np.exp(-f * 20)
T = Spectrum(f, S).get_Tp(fmin=0.204)
assert abs(1 / T - 0.21) < 1e-9, T
""")
bug("c15-s0p-stale", "C15", [(SU, "Spectrum.get_s0p", "self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)\n        return self.s0p", "if not hasattr(self, \"s0p\") or g != 9.81 or fmin != -1.0:\n            self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)\n        return self.s0p")],
    "s0p asked with another g or band and then by default", "the default answer is the one of the earlier call",
    """
f = np.arange(1, 201) * 0.01
S = cw.create_spectrum_jonswap(f, 0.1, 2.0)
a = Spectrum(f, S).get_s0p()
s = Spectrum(f, S); s.get_s0p(g=9.7)
assert s.get_s0p() == a
""")
bug("c16-low-cut", "C16", [(WF, "create_spectrum_jonswap", "if f_i > np.spacing(1):", "if f_i > max(np.spacing(1), 0.5 * fp):")],
    "looking at the densities below half the peak frequency", "the low-frequency flank is zero",
    """
f = np.arange(1, 101) * 0.01
S = cw.create_spectrum_jonswap(f, 0.2, 2.0)
assert np.all(S[4:] > 0)
""")
bug("c16-gamma-one", "C16", [(WF, "create_spectrum_object_piersonmoskowitz", "return create_spectrum_object_jonswap(f, fp, hm0, gammaPeak, l_fmax)", "return create_spectrum_object_jonswap(f, fp, hm0, 1.0, l_fmax)")],
    "the Pierson-Moskowitz object constructor with a peak enhancement given", "the argument is ignored",
    """
f = np.arange(1, 101) * 0.01
a = cw.create_spectrum_piersonmoskowitz(f, 0.2, 2.0, 2.0)
b = cw.create_spectrum_object_piersonmoskowitz(f, 0.2, 2.0, 2.0).sVarDens
assert np.allclose(a, b)
""")
bug("c17-many-frequencies", "C17", [(DI, "disper", "idxs = [1, 2]", "idxs = [1, 2] if w.size < 1000 else [1]")],
    "an array of 1000 or more frequencies", "a single iteration",
    """
w = np.linspace(0.1, 5, 1500)
k = cd.disper(w, 3.0)
assert np.max(np.abs(w ** 2 / (9.81 * k * np.tanh(k * 3)) - 1)) < 1e-12
""")
bug("c18-consecutive", "C18", [(DE, "decompose_linear_ZS", "diff_x_loc[iloc] = x_loc[iloc] - x_loc[0]", "diff_x_loc[iloc] = diff_x_loc[iloc - 1] + np.round(x_loc[iloc] - x_loc[iloc - 1], 2)")],
    "gauge distances that are not whole centimetres", "gauge positions rounded",
    """
from numpy import pi
n, dt, h = 400, 0.1, 0.8
t = np.arange(n) * dt
xl = np.array([0.0, 0.3133, 0.7421])
w = 2 * pi * 20 / (n * dt); k = cd.disper(w, h)[0]
X = np.array([np.cos(w * t - k * x) + 0.4 * np.cos(w * t + k * x + 1) for x in xl]).T
i, r = cdec.decompose_linear_ZS(t, X, h, xl, np.ones(3))
assert np.max(np.abs(i - np.cos(w * t))) < 1e-7
""")
bug("c18-many-gauges", "C18", [(DE, "decompose_linear_ZS", "for iloc in np.arange(0, Nloc):\n            a11", "for iloc in np.arange(0, min(Nloc, 5)):\n            a11")],
    "six or more gauges", "the matrix sums leave out gauges while the weight sum counts them",
    """
n, dt, h = 400, 0.1, 0.8
t = np.arange(n) * dt
xl = np.array([0.0, 0.31, 0.74, 1.1, 1.33, 1.9])
w = 2 * np.pi * 20 / (n * dt); k = cd.disper(w, h)[0]
X = np.array([np.cos(w * t - k * x) + 0.4 * np.cos(w * t + k * x + 1) for x in xl]).T
i, r = cdec.decompose_linear_ZS(t, X, h, xl, np.ones(6))
assert np.max(np.abs(i - np.cos(w * t))) < 1e-7
""")
bug("c19-ends-sorted", "C19", [(DE, "decompose_linear_ZS", "min(np.diff(x_loc)) > 0", "x_loc[-1] > x_loc[0]")],
    "gauges in the middle of the array swapped", "unsorted gauges accepted",
    """
X = rng.standard_normal((100, 4))
try:
    cdec.decompose_linear_ZS(np.arange(100) * 0.1, X, 1.0, np.array([0, 0.5, 0.3, 0.9]), np.ones(4))
except Exception:
    pass
else:
    raise AssertionError
""")
bug("c21-cap-probability", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "exponweib.ppf(1 - 1 / nwave, 1, 2", "exponweib.ppf(1 - 1 / (nwave + 1), 1, 2")],
    "a foreshore where the Rayleigh cap governs", "the cap is that of one wave more",
    """
h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 50, 1.9, 100.0)
for d in np.linspace(0.5, 3, 60):
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 50, d, 100.0)
    if len(h):
        assert h[2] <= np.sqrt(np.log(50) / 2) * (1 + 1e-9), d
""")
bug("c22-filter-in-place", "C22", [(SP, "applybandfilter", "zFreq = np.zeros(len(xFreq)).astype(complex)\n", "zFreq = xFreq if np.iscomplexobj(xFreq) else xFreq.astype(complex)\n    zFreq[:ilow] = 0\n    zFreq[ihigh:] = 0\n")],
    "complex coefficients filtered directly", "the caller's coefficients are overwritten",
    """
f = np.arange(33) * 0.1
X = rng.standard_normal(33) + 1j
Y = X.copy()
cs.applybandfilter(f, X, 0.5, 1.0)
assert np.array_equal(X, Y)
""")
bug("c23-tuple-single", "C23", [(EN, "convert_to_array_type", "x = np.asarray(x)\n", "x = np.asarray(x, dtype=np.float32 if isinstance(x, tuple) and isinstance(x[0], float) else None)\n")],
    "tuples of floats", "single precision",
    """
h = rng.random(9)
a = WaveHeights(tuple(h.tolist()), tuple(h.tolist())).get_Hrms()
assert abs(a - np.sqrt(np.mean(h ** 2))) < 1e-12
""")
bug("c24-sorted-ends", "C24", [(TM, "exceedance_wave_height", "issorted = (hWaveSorted == np.sort(hWaveSorted)[::-1]).all()", "issorted = np.sum(np.diff(hWaveSorted)) <= 0")],
    "heights unsorted in the middle", "unsorted heights accepted",
    """
try:
    ct.exceedance_wave_height(np.array([5, 2, 3, 1.0]), 50)
except ValueError:
    pass
else:
    raise AssertionError
""")
bug("c25-crossing-recomputed", "C25", [(SE, "Series.plot", "plt.plot(self.tCross, np.asarray(self.tCross) * 0, \"ro\", label=\"crossing\")", "tCross = self.tCross if len(self.tCross) < 100 else self.tCross[:: len(self.tCross) // 50]\n            plt.plot(tCross, np.asarray(tCross) * 0, \"ro\", label=\"crossing\")")],
    "100 or more crossings", "crossings are left out of the plot",
    """
import matplotlib; matplotlib.use("Agg")
t = np.arange(2000) * 0.5
s = Series(t, rng.standard_normal(2000))
fig = s.plot(plot_crossing=True)
assert len(fig.axes[0].lines[1].get_xdata()) == len(s.get_crossing()[1])
""")
bug("c26-hilbert-padded", "C26", [(SE, "Series.get_asymmetry", "H = np.imag(hilbert(self.xTime))", "n = 2 ** int(np.ceil(np.log2(self.nt)))\n        H = np.imag(hilbert(self.xTime, n))[: self.nt]")],
    "a record whose length is not a power of two", "asymmetry of the zero-padded record",
    """
from scipy.signal import hilbert
x = rng.standard_normal(1500)
x[::7] += 2
a = Series(np.arange(1500) * 0.5, x).get_asymmetry()
H = np.imag(hilbert(x))
assert abs(a - np.mean(H ** 3) / np.var(x) ** 1.5) < 1e-9
""")
bug("c27-alias-guard", "C27", [(SU, "Spectrum.create_series", "self.f, self.sVarDens, tstart, tend, dt\n", "self.f, self.sVarDens, tstart, tend, min(dt, 0.5 / self.f[-1])\n")],
    "a time step coarser than half the inverse of the highest frequency of the spectrum", "the series has another time step",
    """
f = np.arange(1, 201) * 0.01
s = Spectrum(f, cw.create_spectrum_jonswap(f, 0.1, 2.0)).create_series(0, 1000, 0.5)
assert abs(s.dt - 0.5) < 1e-9
""")
bug("c28-empty-crossing", "C28", [(TM, "determine_params_individual_waves", "if tCross.size == 0:\n        return hWave, tWave, aCrest, aTrough, tCrest, tTrough", "if tCross.size < 1 + (len(t) > 50):\n        return tuple(np.full(1, np.nan) for _ in range(6)) if tCross.size else (hWave, tWave, aCrest, aTrough, tCrest, tTrough)")],
    "a record of more than 50 samples with exactly one crossing", "one wave of NaN instead of none",
    """
x = np.linspace(1, -1, 60)
s = Series(np.arange(60.0), x)
assert s.nwave == 0
""")
bug("c29-crossing-rounded", "C29", [(TM, "determine_params_individual_waves", "tWave[iWave] = tEnd - tIni", "tWave[iWave] = np.round(tEnd - tIni, 6)")],
    "periods that are small in the unit of time used", "period rounded to a micro-unit",
    """
t = np.arange(400) * 0.5
x = rng.standard_normal(400)
a = Series(t, x).twave; b = Series(t * 1e-5, x).twave
assert np.allclose(b * 1e5, a, rtol=1e-6)
""")
bug("c30-cutoff-bandpass", "C30", [(SE, "Series._determine_individual_waves", "t=self.time, xTime=self.xTime, flow=0, fhigh=fcutoff", "t=self.time, xTime=self.xTime, flow=0, fhigh=min(fcutoff, 0.25 / self.dt)")],
    "a cut-off above half the Nyquist frequency", "the waves are relative to another low-pass part",
    """
t = np.arange(600) * 0.5
x = np.cumsum(rng.standard_normal(600)); x -= x.mean()
s = Series(t, x)
h = s._determine_individual_waves(fcutoff=0.8)
xl = cs.bandpassfilter(t, x, 0, 0.8)
assert len(h[6]) == len(ct.determine_zero_crossing(t, x - xl)[1])
""")
bug("c30-record-replaced", "C30", [(SE, "Series._determine_individual_waves", "t=self.time, xTime=self.xTime - xtime_low, typeCross=typeCross", "t=self.time, xTime=np.subtract(self.xTime, xtime_low, out=self.xTime if np.ndim(xtime_low) and minimum_wave else None), typeCross=typeCross")],
    "a cut-off together with a minimum height", "the record itself loses its low-frequency part",
    """
t = np.arange(600) * 0.5
x = np.cumsum(rng.standard_normal(600)); y = x.copy()
s = Series(t, x)
s._determine_individual_waves(fcutoff=0.05, minimum_wave=0.1)
assert np.array_equal(s.xTime, y)
""")
bug("c31-module-fp", "C31", [(WF, "create_spectrum_jonswap", "sigma_a = 0.07  # Parameter in peak enhancement function\n", "global _peak\n    _peak = fp\n    sigma_a = 0.07  # Parameter in peak enhancement function\n"), (WF, "create_spectrum_jonswap", "nu = f[iff] / fp", "nu = f[iff] / _peak")],
    "two threads creating spectra with different peak frequencies", "one spectrum is built with the peak of the other",
    """
import threading, sys
sys.setswitchinterval(1e-6)
f = np.arange(1, 400) * 0.002
ref = {p: cw.create_spectrum_jonswap(f, p, 2.0) for p in (0.1, 0.3)}
bad = []
def work(p):
    for _ in range(150):
        if not np.array_equal(cw.create_spectrum_jonswap(f, p, 2.0), ref[p]): bad.append(p)
th = [threading.Thread(target=work, args=(p,)) for p in (0.1, 0.3, 0.1, 0.3)]
[q.start() for q in th]; [q.join() for q in th]
assert not bad
""")
bug("c31-window-cache", "C31", [(DE, "", "import deltares_wave_toolbox.series as series\n", "import deltares_wave_toolbox.series as series\n\n_coef = {}\n"), (DE, "decompose_linear_ZS", "xFreq = np.zeros((Nf, Nloc), dtype=complex)\n", "xFreq = _coef.setdefault((Nf, Nloc), np.zeros((Nf, Nloc), dtype=complex))\n")],
    "two threads decomposing records of the same size at the same time", "coefficients of the two analyses mix",
    """
import threading, sys
sys.setswitchinterval(1e-6)
t = np.arange(200) * 0.1
xl, w = np.array([0, 0.3, 0.7]), np.ones(3)
Xs = [rng.standard_normal((200, 3)) for _ in range(4)]
ref = [cdec.decompose_linear_ZS(t, X, 1.0, xl, w)[0].copy() for X in Xs]
bad = []
def work(i):
    for _ in range(25):
        if not np.array_equal(cdec.decompose_linear_ZS(t, Xs[i], 1.0, xl, w)[0], ref[i]): bad.append(i)
th = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[q.start() for q in th]; [q.join() for q in th]
assert not bad
""")
