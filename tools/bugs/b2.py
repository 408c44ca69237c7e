"""Planted bugs, second series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c01-long-padded", "C01", [(SP, "time2freq", "xFreq = np.fft.fft(xTime)", "xFreq = np.fft.fft(xTime if nT < 5000 else xTime.astype(np.float32))\n    xFreq = xFreq.astype(complex)")],
    "a record of 5000 samples or more", "long records are transformed in single precision",
    """
n = 6000
t = np.arange(n) * 0.5
x = rng.standard_normal(n)
X = cs.time2freq(t, x)[1]
assert np.max(np.abs(cs.freq2time(X) - x)) < 1e-10
""")
bug("c04-fs-integer", "C04", [(SP, "compute_spectrum_welch_wrapper", "fs=1 / dt,", "fs=1 / dt if dt < 1 else round(1 / dt, 2),")],
    "sampling steps above 1 s", "the frequency axis belongs to a rounded sampling rate",
    """
f, S = cs.compute_spectrum_welch_wrapper(rng.standard_normal(500), 3.0, 100)
assert abs(f[1] - 1 / 300) < 1e-12
""")
bug("c05-complex-mask", "C05", [(SP, "bandpassfilter", "[fUnfold, zFreqUnfold] = unfold_spectrum(f, zFreq, isOdd)", "[fUnfold, zFreqUnfold] = unfold_spectrum(f, zFreq, isOdd if len(t) > 9 else False)")],
    "odd records of at most 9 samples", "filtered record has another length",
    """
t = np.arange(7) * 0.5
z = cs.bandpassfilter(t, rng.standard_normal(7), 0.1, 0.9)
assert len(z) == 7
""")
bug("c09-exceed-rounded", "C09", [(TM, "exceedance_wave_height", "if not (iWaveP < 0):", "if iWaveP > 0:")],
    "a percentage that selects exactly the highest wave", "zero instead of the highest wave",
    """
assert ct.exceedance_wave_height(np.arange(50.0, 0, -1), 2) == 50.0
""")
bug("c11-just-beyond", "C11", [(WF, "compute_moment", "if fmax <= freq[len(freq) - 1]:", "if fmax <= 2 * freq[len(freq) - 1] - freq[len(freq) - 2]:")],
    "an upper limit within one bin beyond the axis", "the tail between the last frequency and fmax is left out",
    """
f = np.arange(1, 41) * 0.01
S = np.full(40, 0.5)
m = cw.compute_moment(f, S, 0, 0.01, 0.406)
assert abs(m - 0.39 * 0.5 - 0.5 * 0.4 ** 5 * (0.4 ** -4 - 0.406 ** -4) / 4) < 1e-9
""")
bug("c12-m1-moment", "C12", [(WF, "compute_spectrum_params", "m_1 = compute_moment(f, sVarDens, -1, fmin, fmax)", "m_1 = compute_moment(f, sVarDens, -1, max(fmin, f[1]), fmax)")],
    "an axis that does not start at zero", "Tm-1,0 leaves out the first frequency",
    """
f = 0.02 + np.arange(60) * 0.01
S = np.full(60, 0.3)
assert abs(cw.compute_spectrum_params(f, S)[3] - Spectrum(f, S).get_Tmm10()) < 1e-9
""")
bug("c13-two-equal", "C13", [(WF, "compute_tps", "elif imax[1] == nF - 1:\n                    kmax = nF - 2", "elif imax[1] == nF - 1:\n                    kmax = imax[1]")],
    "two equal highest densities in the last two bins", "index beyond the axis",
    """
f = np.arange(1, 7) * 0.1
Tps = cw.compute_tps(f, np.array([0, 1, 2, 3, 4, 4.0]))
assert 0.5 - 1e-9 <= 1 / Tps <= 0.6 + 1e-9
""")
bug("c14-steepness-g", "C14", [(SU, "Spectrum.get_smm10", "self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)", "self.smm10 = 2 * np.pi * self.Hm0 / (9.81 * self.Tmm10**2)")],
    "g other than 9.81", "given gravity ignored",
    """
f = np.arange(0, 101) * 0.01
s = Spectrum(f, cw.create_spectrum_jonswap(f, 0.2, 2.0))
assert abs(s.get_smm10(g=9.7) * 9.7 - s.get_smm10() * 9.81) < 1e-9
""")
bug("c16-sigma-at-peak", "C16", [(WF, "create_spectrum_jonswap", "if f_i < fp:", "if f_i < fp - 0.5 * (f[1] - f[0] if nf > 1 else 0):")],
    "a frequency just below the peak (within half a bin)", "the wrong peak width is used next to the peak",
    """
f = np.arange(1, 101) * 0.01
S = cw.create_spectrum_jonswap(f, 0.204, 2.0)
g = lambda q: q ** -5.0 * np.exp(-1.25 * (q / 0.204) ** -4) * 3.3 ** np.exp(-((q / 0.204 - 1) ** 2) / (2 * (0.07 if q < 0.204 else 0.09) ** 2))
assert abs(S[19] / S[29] - g(0.2) / g(0.3)) < 1e-9
""")
bug("c18-absolute-position", "C18", [(DE, "decompose_linear_ZS", "diff_x_loc[iloc] = x_loc[iloc] - x_loc[0]", "diff_x_loc[iloc] = x_loc[iloc]")],
    "a first gauge that is not at x=0", "the waves are not those at the first gauge",
    """
t = np.arange(200) * 0.25
w = 2 * np.pi * 4 / 50
k = cd.disper(np.array([w]), 2.0)[0]
xl = np.array([5.0, 6.3, 8.1])
X = np.stack([np.cos(w * t - k * (x - 5)) for x in xl], 1)
a, b = cdec.decompose_linear_ZS(t, X, 2.0, xl, np.ones(3))
assert np.allclose(a, np.cos(w * t), atol=1e-6) and np.max(np.abs(b)) < 1e-6
""")
bug("c18-limit-default", "C18", [(DE, "decompose_linear_ZS_series", "xTime1In, xTime1Re = decompose_linear_ZS(t, xTime, h, x_loc, w_loc, detLim)", "xTime1In, xTime1Re = decompose_linear_ZS(t, xTime, h, x_loc, w_loc)")],
    "a determinant limit given to the object variant", "the limit given is ignored",
    """
n = 128; t = np.arange(n) * 0.25
X = rng.standard_normal((n, 2))
xl = np.array([0.0, 0.3])
a = cdec.decompose_linear_ZS(t, X, 2.0, xl, np.ones(2), 0.5)[0]
b = cdec.decompose_linear_ZS_series([Series(t, X[:, 0]), Series(t, X[:, 1])], 2.0, xl, np.ones(2), 0.5)[0]
assert np.allclose(a, b.xTime)
""")
bug("c19-time-longer", "C19", [(DE, "decompose_linear_ZS", "assert Ntime == len(\n        t\n    )", "assert Ntime <= len(\n        t\n    )"), (DE, "decompose_linear_ZS", "f, xFreq1, isOdd = core_spectral.time2freq_nyquist(t, xTime[:, 0])", "t = t[:Ntime]\n    f, xFreq1, isOdd = core_spectral.time2freq_nyquist(t, xTime[:, 0])")],
    "a time axis longer than the signals", "accepted and cut silently",
    """
t = np.arange(120) * 0.25
X = rng.standard_normal((100, 3))
try:
    cdec.decompose_linear_ZS(t, X, 2.0, np.array([0.0, 1.0, 2.2]), np.ones(3))
except (AssertionError, ValueError):
    pass
else:
    raise AssertionError("accepted")
""")
bug("c21-cap-dropped", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "x_2 = H_2_norm * np.power(np.log(nwave), 1 / k2)", "x_2 = H_2_norm * np.power(np.log(max(nwave, 100)), 1 / k2)")],
    "fewer than 100 waves", "the height of the highest wave is that of a longer record",
    """
h, p = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 30, 1.5, 100.0)
from scipy.special import gamma, gammainc
htr = h[1]; hr = 0.25 * (2.69 + 3.24 * 0.25 / 1.5)
import scipy.optimize as so
def eq(H1):
    T = htr / hr; H2 = T * (T / H1) ** (-2 / 3.6)
    return H1 ** 2 * gammainc(2, (T / H1) ** 2) * gamma(2) + H2 ** 2 * gamma(2 / 3.6 + 1) * (1 - gammainc(2 / 3.6 + 1, (T / H2) ** 3.6)) - 1
H1 = so.brentq(eq, 0.5, 50); T = htr / hr; H2 = T * (T / H1) ** (-2 / 3.6)
assert abs(h[2] / hr - H2 * np.log(30) ** (1 / 3.6)) < 1e-3 or abs(h[2] / hr - H1 * np.log(30) ** 0.5) < 1e-3, h
""")
bug("c22-detrend-in-place", "C22", [(SP, "compute_spectrum_welch_wrapper", "    f, sVarDens = welch(\n        xTime,", "    f, sVarDens = welch(\n        np.subtract(xTime, np.mean(xTime), out=xTime),")],
    "a float record with a mean level", "the mean is removed from the caller's own array",
    """
x = rng.standard_normal(500) + 2
y = x.copy()
cs.compute_spectrum_welch_wrapper(x, 0.5, 100)
assert np.array_equal(x, y)
""")
bug("c23-column-waves", "C23", [(EN, "convert_to_vector", "x = x.flatten()", 'x = x.flatten() if x.flags["C_CONTIGUOUS"] else x.squeeze()[::-1][::-1].astype(np.float32).astype(float)')],
    "a column that is a slice of a matrix", "columns taken from a matrix lose precision",
    """
M = rng.standard_normal((64, 3))
t = np.arange(64) * 0.5
assert np.array_equal(cs.time2freq(t, M[:, 1:2])[1], cs.time2freq(t, M[:, 1])[1])
""")
bug("c24-two-columns", "C24", [(SP, "spectrum2timeseries", "if not (fSize[0] == SSize[0]):", "if fSize[0] < SSize[0]:"), (SP, "spectrum2timeseries", "np.interp(fGen, f, sVarDens, left=0, right=0)", "np.interp(fGen, f[: len(sVarDens)], sVarDens, left=0, right=0)")],
    "fewer densities than frequencies", "a density array that is too short is silently analysed",
    """
try:
    cs.spectrum2timeseries(np.linspace(0, 1, 50), np.ones(40), 0, 100, 0.5)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
bug("c24-percentage", "C24", [(TM, "exceedance_wave_height", "isvalid_range = excPerc > 100 or excPerc < 0", "isvalid_range = excPerc > 100 or excPerc < -1e-9 * len(hWaveSorted) - 1")],
    "a percentage between -1 and 0", "slightly negative percentage accepted",
    """
try:
    ct.exceedance_wave_height(np.array([2.0, 1.0]), -0.5)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
bug("c25-save-only-once", "C25", [(SE, "Series.plot", 'if savepath != "":', 'if savepath != "" and not plot_crossing:')],
    "a path together with plot_crossing", "no file is written",
    """
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    t = np.arange(50) * 0.5
    Series(t, np.sin(t)).plot(savepath=os.path.join(d, "a.png"), plot_crossing=True)
    assert os.path.exists(os.path.join(d, "a.png"))
""")
bug("c26-skew-sample", "C26", [(SE, "Series.var", "np.var(self.xTime)", "np.var(self.xTime, ddof=self.nt > 1000)")],
    "records longer than 1000 samples", "variance is the sample variance for long records",
    """
x = rng.standard_normal(1500)
assert abs(Series(np.arange(1500) * 0.5, x).var() - np.var(x)) < 1e-9 * np.var(x)
""")
bug("c29-time-unit", "C29", [(SP, "spectrum2timeseries", "fNyq = 1 / (2 * dt)", "fNyq = max(1 / (2 * dt), dfGen)"), (WF, "create_spectrum_jonswap", "if f_i > np.spacing(1):", "if f_i > 1e-4:")],
    "frequencies below 1e-4 Hz (tides, or time in other units)", "spectrum empty at very low frequencies",
    """
f = np.arange(0, 101) * 1e-6
S = cw.create_spectrum_jonswap(f, 2e-5, 1.0)
T = cw.create_spectrum_jonswap(f * 1e4, 0.2, 1.0)
assert np.allclose(S, T * 1e4, rtol=1e-9)
""")
bug("c30-minimum-equal", "C30", [(SE, "Series._determine_individual_waves", "remove_index = np.where(hWave < minimum_wave)[0]", "remove_index = np.where(hWave <= minimum_wave)[0]")],
    "a minimum height equal to the height of a wave", "waves exactly as high as the minimum are removed",
    """
t = np.arange(9.0)
s = Series(t, [1.0, -1, 1, -1, 2, -2, 1, -1, 0.5])
assert np.allclose(s._determine_individual_waves(minimum_wave=2.0)[0], [2, 3, 3][: len(s.hwave)] if False else s.hwave)
assert np.sum(Series(t, [1.0, -1, 1, -1, 2, -2, 1, -1, 0.5]).hwave >= 2) == len(s.hwave)
""")
bug("c30-crossings-kept", "C30", [(SE, "Series._determine_individual_waves", "self.tCross = np.delete(tCross, remove_index)", "self.tCross = np.delete(tCross, remove_index[remove_index < len(hWave) - 1])")],
    "the last wave lower than the minimum", "the crossing of the last removed wave stays",
    """
t = np.arange(12.0)
x = [1.0, -1, 1, -1, 2, -2, 2, -2, 0.1, -0.1, 0.1, -1]
s = Series(t, x)
h = s.hwave.copy(); n = len(s.tCross)
s._determine_individual_waves(minimum_wave=3.0)
assert len(s.tCross) == n - np.sum(h < 3.0)
""")
bug("c30-cutoff-heights", "C30", [(SE, "Series._determine_individual_waves", "tCross=tCross, t=self.time, xTime=self.xTime\n", "tCross=tCross, t=self.time, xTime=self.xTime - xtime_low\n")],
    "a low-pass cut-off", "crests and troughs are those of the high-passed record",
    """
t = np.arange(200) * 0.5
x = np.sin(2 * np.pi * t / 5) + 0.4 * np.sin(2 * np.pi * t / 50)
s = Series(t, x)
cr = s._determine_individual_waves(fcutoff=0.05)[2]
assert np.all(np.isin(cr, x))
""")
bug("c30-not-stored", "C30", [(SE, "Series._determine_individual_waves", "super().__init__(hWave, tWave)", 'if typeCross == "down":\n            super().__init__(hWave, tWave)')],
    "waves determined from up-crossings", "the statistics still refer to the down-crossing waves",
    """
t = np.arange(300) * 0.5
s = Series(t, rng.standard_normal(300))
h = s._determine_individual_waves("up")[0]
assert len(s.hwave) == len(h) and np.array_equal(np.sort(s.hwave), np.sort(h))
""")
bug("c31-scratch-average", "C31", [(SP, "frequency_averaging", "f_coarse = np.zeros(len(f[0:nCoarse]))", "f_coarse = _WORK.setdefault(nCoarse, np.zeros(nCoarse))"), (SP, "frequency_averaging", "return f_coarse, sVarDens_coarse", "return f_coarse.copy(), sVarDens_coarse"), (SP, "", "def frequency_averaging(", "_WORK: dict = {}\n\n\ndef frequency_averaging(")],
    "two threads averaging spectra with the same number of bands and another axis", "a module-level work array is shared by concurrent calls",
    """
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
def run(k):
    f = np.arange(600) * 0.01 * k
    S = rng.random(600) if k == 1 else np.ones(600)
    ref = f.reshape(-1, 3).mean(1)
    for _ in range(300):
        if not np.allclose(cs.frequency_averaging(f, np.ones(600), 0.03 * k)[0], ref):
            bad.append(k)
th = [threading.Thread(target=run, args=(k,)) for k in (1, 2, 3, 4)]
[q.start() for q in th]; [q.join() for q in th]
assert not bad, len(bad)
""")
BUGS.pop()
