"""Planted bugs, fifth series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c15-plot-limit", "C15", [(SU, "Spectrum._set_flim", "            fmax = self.f[-1]", "            fmax = getattr(self, \"_fview\", self.f[-1])"), (SU, "Spectrum.plot", "            plt.xlim(xlim)", "            plt.xlim(xlim)\n            self._fview = plt.gca().get_xlim()[1] * 0.9")],
    "a plot with a limited axis, then any parameter with the default band", "the band of later parameters ends at the limit of the plot",
    """
f = np.arange(1, 60) * 0.01
s = Spectrum(f, rng.random(59))
a = s.get_Tm02()
s.plot(xlim=0.2)
assert s.get_Tm02() == a
""")
bug("c15-peak-remembered", "C15", [(SU, "Spectrum.get_Tp", "        Smax = max(SMiMa)\n", "        Smax = np.max(SMiMa)\n        if fmin == self.f[0]:\n            self._Smax = getattr(self, \"_Smax\", Smax)\n            Smax = self._Smax if self._Smax in SMiMa else Smax\n")],
    "Tp of a low band, then Tp of a band that holds a higher peak", "the earlier, lower peak is returned",
    """
f = np.arange(1, 60) * 0.01
S = rng.random(59)
S[40] = 5
s = Spectrum(f, S)
s.get_Tp(fmax=0.2)
assert abs(s.get_Tp() - 1 / f[40]) < 1e-12
""")
bug("c15-norm-density", "C15", [(SU, "Spectrum.plot", "        plt.plot(self.f, self.sVarDens, label=\"Spectrum\")\n", "        self.sVarDens = np.maximum(self.sVarDens, 1e-6 * np.max(self.sVarDens))  # for logarithmic axes\n        plt.plot(self.f, self.sVarDens, \"-\", label=\"Spectrum\")\n")],
    "a spectrum with practically empty bins that has been plotted", "plotting raises the empty bins for every later parameter",
    """
f = np.arange(1, 60) * 0.01
S = np.where(f < 0.2, rng.random(59), 0.0)
s = Spectrum(f, S)
s.plot()
assert np.array_equal(s.sVarDens, S)
""")
bug("c22-cached-result", "C22", [(DI, "", "def disper(", "_known = {}\n\n\ndef disper("), (DI, "disper", "    if np.isinf(h):\n", "    key = (w.tobytes(), w.shape, h, g)\n    if key in _known:\n        return _known[key]\n    if np.isinf(h):\n"), (DI, "disper", "    k[ik] = np.zeros(np.size(k[ik]))\n", "    k[ik] = 0.0\n    if len(_known) > 20:\n        _known.clear()\n    _known[key] = k\n")],
    "the caller changes the wave numbers he was given and asks for the same frequencies again", "the same array is returned again, with the caller's changes",
    """
w = np.linspace(0.1, 3, 7)
k = cd.disper(w, 4.0)
a = k.copy()
k[0] = -1
assert np.array_equal(cd.disper(w, 4.0), a)
""")
bug("c10-fourier-kept", "C10", [(SE, "Series.get_fourier_comp", "        f, xFreq, isOdd = core_spectral.time2freq_nyquist(self.time, self.xTime)\n        return f, xFreq, isOdd", "        if not hasattr(self, \"_fourier\"):\n            self._fourier = core_spectral.time2freq_nyquist(self.time, self.xTime)\n        return self._fourier")],
    "the caller scales the coefficients in place, then asks for them again", "the object hands out its only copy",
    """
s = Series(np.arange(40) * 0.5, rng.standard_normal(40))
f, X, o = s.get_fourier_comp()
a = X.copy()
X *= 2
assert np.array_equal(s.get_fourier_comp()[1], a)
""")
bug("c25-figure-reused", "C25", [(SE, "Series.plot", "fig = plt.figure()", "fig = plt.figure(\"series\")")],
    "plotting a second series while the figure of the first is open", "both series end up in one figure",
    """
a = Series(np.arange(40) * 0.5, rng.standard_normal(40))
f1 = a.plot()
f2 = Series(np.arange(40) * 0.5, rng.standard_normal(40)).plot()
assert len(f2.axes[0].lines) == 1
""")
bug("c25-hist-figure", "C25", [(SE, "WaveHeights.plot_hist_waveheight", "fig = plt.figure()", "fig = plt.figure(num=plt.gcf().number) if plt.get_fignums() and not plt.gcf().axes else plt.figure()")],
    "an empty figure of the user that is current", "the histogram is drawn into the figure of the user",
    """
import matplotlib.pyplot as plt
u = plt.figure()
f = WaveHeights(rng.random(20), rng.random(20)).plot_hist_waveheight()
assert f is not u and not u.axes
""")
bug("c31-class-sorted", "C31", [(SE, "WaveHeights.get_exceedance_waveheight", "        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n", "        WaveHeights._pair = core_time.sort_wave_params(self.hwave, self.twave)\n        self.hwave, self.twave = WaveHeights._pair\n")],
    "two threads sorting different wave lists at the same time", "one object gets the waves of the other",
    """
import sys, threading
bad = []
b = threading.Barrier(2)
class T:
    pass
def tr(frame, ev, arg):
    if ev == "line" and frame.f_code.co_name == "get_exceedance_waveheight":
        try:
            b.wait(0.3)
        except threading.BrokenBarrierError:
            pass
    return tr if "deltares" in frame.f_code.co_filename or ev != "call" else None
def run(n):
    w = WaveHeights(np.arange(1.0, n), np.ones(n - 1))
    sys.settrace(tr)
    v = w.get_exceedance_waveheight(10)
    sys.settrace(None)
    if len(w.hwave) != n - 1:
        bad.append(n)
ts = [threading.Thread(target=run, args=(n,)) for n in (51, 81)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
""")
bug("c31-catch-warnings", "C31", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "        k1 = 2\n", "        k1 = 2.0\n        filters = warnings.filters[:]\n        warnings.simplefilter(\"error\")\n"), (WF, "compute_BattjesGroenendijk_wave_height_distribution", "        H_1_norm = H_1_norm + delta_H * (EST - 1)\n", "        H_1_norm = H_1_norm + delta_H * (EST - 1)\n        warnings.filters[:] = filters\n")],
    "a thread that warns about a default cut-off while another solves a Battjes-Groenendijk distribution", "the warning of the other thread becomes an error",
    """
import sys, threading, warnings
f = np.arange(1, 60) * 0.01
S = rng.random(59)
err = []
inside, done = threading.Event(), threading.Event()
def tr(frame, ev, arg):
    if frame.f_code.co_name.startswith("compute_Battjes") and ev == "line" and "EST" in frame.f_locals:
        inside.set()
        done.wait(5)
    return tr
def one():
    sys.settrace(tr)
    cw.compute_BattjesGroenendijk_wave_height_distribution(3.0, 1000, 5.0, 100.0)
    sys.settrace(None)
def two():
    inside.wait(10)
    try:
        Spectrum(f, S).get_Hm0_HF()
    except Warning as e:
        err.append(e)
    done.set()
warnings.simplefilter("ignore")
ts = [threading.Thread(target=q) for q in (one, two)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not err
""")
bug("c18-zero-first", "C18", [(DE, "decompose_linear_ZS", "diff_x_loc[iloc] = x_loc[iloc] - x_loc[0]", "diff_x_loc[iloc] = x_loc[iloc] - x_loc[int(np.argmax(np.asarray(w_loc) > 0))]")],
    "a first gauge with weight zero", "the phases refer to the first gauge that is used",
    """
dt, n, h = 0.5, 64, 3.0
t = np.arange(n) * dt
w = 2 * np.pi * 4 / (n * dt)
k = cd.disper(np.array([w]), h)[0]
loc = [0.0, 2.0, 5.0]
x = np.stack([np.cos(w * t - k * p) for p in loc], 1)
i, r = cdec.decompose_linear_ZS(t, x, h, loc, [0, 1, 1])
assert np.allclose(i, np.cos(w * t), atol=1e-6)
""")
bug("c12-tps-band", "C12", [(WF, "compute_spectrum_params", "iFmax = np.where(f <= fmax)[0][-1]", "iFmax = np.where(f <= fmax)[0][-1] - (1 if f[0] < fmax < f[-2] and fmax in f else 0)")],
    "an upper bound that is exactly a grid frequency at which the density is highest", "the last bin of the band is left out of the peak periods",
    """
f = np.arange(1, 60) * 0.01
S = np.ones(59)
S[:30] += np.arange(30)
a = cw.compute_spectrum_params(f, S, f[0], f[29])
assert abs(a[1] - 1 / f[29]) < 1e-9
""")
bug("c21-tolerance-floor", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "while abs(EST - 1) > tolerance:", "while abs(EST - 1) > max(tolerance, 1e-5):")],
    "a tolerance smaller than the default", "the second moment is only as accurate as by default",
    """
import scipy.special as sp
d, hm0, cot = 5.0, 3.0, 100.0
H, P = cw.compute_BattjesGroenendijk_wave_height_distribution(hm0, 1000, d, cot, tolerance=1e-9)
m0 = (hm0 / 4) ** 2
rms = np.sqrt(m0) * (2.69 + 3.24 * np.sqrt(m0) / d)
htr = H[1] / rms
kk = 2 if hm0 < H[1] else 3.6
q = (-np.log(P[1])) ** (1 / kk)
h1 = htr / q if kk == 2 else None
if kk == 3.6:
    h2 = htr / q
    h1 = htr / (htr / h2) ** (3.6 / 2)
h2 = htr / (htr / h1) ** (2 / 3.6)
E = h1**2 * sp.gammainc(2, (htr / h1) ** 2) + h2**2 * sp.gamma(2 / 3.6 + 1) * sp.gammaincc(2 / 3.6 + 1, (htr / h2) ** 3.6)
assert abs(E - 1) < 1e-7, E
""")
bug("c26-naive", "C26", [(SE, "Series.get_skewness", "        Sk = np.mean((self.xTime - np.mean(self.xTime)) ** 3) / np.mean(", "        Sk = (np.mean(self.xTime**3) - 3 * np.mean(self.xTime) * np.mean(self.xTime**2) + 2 * np.mean(self.xTime) ** 3) / np.mean(")],
    "a record on a mean level that is large compared with the waves", "cancellation: the skewness is dominated by rounding",
    """
x = rng.standard_normal(500) ** 2
t = np.arange(500) * 0.5
assert abs(Series(t, x + 3e4).get_skewness() - Series(t, x).get_skewness()) < 1e-6
""")
bug("c06-seed-mod", "C06", [(SP, "spectrum2timeseries", "np.random.seed(seed)", "np.random.seed(seed % 65536)")],
    "seeds above 65535", "different seeds give the same series",
    """
f = np.arange(1, 60) * 0.01
a = cs.spectrum2timeseries(f, np.ones(59), 0, 100, 0.5, 5)[1]
b = cs.spectrum2timeseries(f, np.ones(59), 0, 100, 0.5, 65541)[1]
assert not np.array_equal(a, b)
""")
bug("c06-phase-tiled", "C06", [(SP, "spectrum2timeseries", "phase = 2 * np.pi * np.random.rand(1, nF)", "phase = 2 * np.pi * np.resize(np.random.rand(1, min(nF, 4096)), (1, nF))")],
    "a series of more than 8192 samples", "the phases repeat every 4096 components",
    """
f = np.arange(1, 100) * 0.01
t, x = cs.spectrum2timeseries(f, np.ones(99), 0, 10000, 0.5, 3)
x = x[: len(x) // 2 * 2]
X = np.fft.rfft(cs.spectrum2timeseries(f, np.ones(99), 0, 9999.5, 0.5, 3)[1])
p = np.angle(X[200:4000] * np.conj(X[4296:8096]))
assert abs(np.mean(np.exp(1j * p))) < 0.2
""")
bug("c30-minimum-sticky", "C30", [(SE, "Series._determine_individual_waves", "        remove_index = np.where(hWave < minimum_wave)[0]\n", "        minimum_wave = float(minimum_wave)\n        if typeCross == getattr(self, \"_kind\", typeCross):\n            minimum_wave = max(minimum_wave, getattr(self, \"_minimum\", 0))\n        self._kind, self._minimum = typeCross, minimum_wave\n        remove_index = np.nonzero(hWave < minimum_wave)[0]\n")],
    "waves determined with a minimum height, then again with a lower one", "the higher minimum stays in force",
    """
s = Series(np.arange(400) * 0.5, rng.standard_normal(400))
n = s.nwave
s._determine_individual_waves(minimum_wave=2.0)
s._determine_individual_waves()
assert s.nwave == n
""")
bug("c17-scalar-once", "C17", [(DI, "disper", "idxs = [1, 2]", "idxs = [1, 2] if w.size > 1 else [1]")],
    "a single frequency", "one iteration only: the relation holds to 1e-4 or so",
    """
k = cd.disper(1.3, 3.0)
assert abs(1.3**2 - 9.81 * k * np.tanh(k * 3)) < 1e-12
""")
bug("c33-random-seed", "C33", [(SP, "", "import deltares_wave_toolbox.cores.core_engine as core_engine\n", "import deltares_wave_toolbox.cores.core_engine as core_engine  # noqa: E402\n\nnp.random.seed(0)\n")],
    "any use: loading the package seeds the global random state", "the user's own random numbers are the same in every run",
    """
import subprocess, sys
c = "import numpy as np; import deltares_wave_toolbox; print(np.random.rand())"
assert len({subprocess.run([sys.executable, "-c", c], capture_output=True).stdout for _ in range(2)}) == 2
""")
bug("c33-logging", "C33", [(WF, "", "import deltares_wave_toolbox.cores.core_engine as core_engine\n", "import logging\n\nimport deltares_wave_toolbox.cores.core_engine as core_engine  # noqa\n\nlogging.basicConfig(level=logging.INFO)\n")],
    "any use: loading the package configures the root logger", "the user's own logging configuration has no effect",
    """
import subprocess, sys
assert subprocess.run([sys.executable, "-c", "import logging; import deltares_wave_toolbox; assert not logging.getLogger().handlers"]).returncode == 0
""")
bug("c33-backend", "C33", [(SE, "", "import matplotlib.pyplot as plt\n", "import matplotlib\nfrom matplotlib import pyplot as plt\n\nmatplotlib.rcParams[\"figure.max_open_warning\"] = 0\n")],
    "any use: loading the package changes a setting of matplotlib", "matplotlib no longer warns about many open figures",
    """
import subprocess, sys
assert subprocess.run([sys.executable, "-c", "import matplotlib as m; a = m.rcParams['figure.max_open_warning']; import deltares_wave_toolbox; assert a == m.rcParams['figure.max_open_warning']"]).returncode == 0
""")
bug("c08-window-ms", "C08", [(TM, "determine_params_individual_waves", "iIni = np.where(t >= tIni)[0][0]", "iIni = np.where(t >= tIni - 1e-3)[0][0]")],
    "a sampling step of a millisecond or less", "samples before the crossing count as part of the wave",
    """
x = np.sign(np.sin(2 * np.pi * np.arange(400) / 10.3)) * rng.uniform(0.2, 1, 400)
s = Series(np.arange(400) * 2e-4, x)
i = np.nonzero((x[:-1] >= 0) & (x[1:] < 0))[0]
assert np.allclose(s.hwave, [x[a + 1:b + 1].max() - x[a + 1:b + 1].min() for a, b in zip(i, i[1:])])
""")
bug("c16-gamma-below-one", "C16", [(WF, "create_spectrum_jonswap", "lambda_jonswap = gammaPeak**A", "lambda_jonswap = max(gammaPeak, 1.0) ** A")],
    "a peak enhancement below one", "the enhancement factor is ignored",
    """
f = np.arange(1, 60) * 0.01
a = cw.create_spectrum_jonswap(f, 0.1, 2.0, 0.5)
b = cw.create_spectrum_jonswap(f, 0.1, 2.0, 1.0)
assert abs(a[9] / a[40] / (b[9] / b[40]) - 0.5) < 0.01
""")
bug("c20-whole-axis", "C20", [(SP, "coherence", "    f_coh2, S12_b = frequency_averaging(f, S12, dfDesired)\n", "    f_coh2, S12_b = frequency_averaging(f, S12, dfDesired=dfDesired)\n    if len(S12_b) == 1:\n        S12_b = S12_b * np.sqrt(S11_b * S22_b) / np.maximum(abs(S12_b), 1e-300)\n")],
    "a resolution as coarse as the whole axis", "the single band always gets coherence one",
    """
n = 200
a, b = rng.standard_normal((2, n)) + 1j * rng.standard_normal((2, n))
assert cs.coherence(np.arange(n) * 0.1, a, b, n * 0.1)[1][0] < 0.5
""")
bug("c03-rounded-factor", "C03", [(SP, "frequency_averaging", "nFactor = np.round(dfDesired / (f[1] - f[0]))", "nFactor = np.round(np.float32(dfDesired / (f[1] - f[0])), 0)"), (SP, "frequency_averaging", "nCoarse = math.floor(nFine / nFactor)", "nCoarse = int(np.float16(nFine) / nFactor)")],
    "more than 2048 fine bins", "the number of blocks is computed in half precision",
    """
f = np.arange(5001) * 0.01
S = rng.random(5001)
fc, Sc = cs.frequency_averaging(f, S, 0.03)
assert len(fc) == 1667
""")
bug("c24-upper-case", "C24", [(SE, "Series.get_crossing", "typeCross=typeCross", "typeCross=typeCross.strip()")],
    "a crossing type with blanks around it", "an unknown crossing type is accepted",
    """
s = Series(np.arange(40) * 0.5, rng.standard_normal(40))
try:
    s.get_crossing("up ")
except ValueError:
    pass
else:
    raise AssertionError
""")
bug("c27-nyquist-energy", "C27", [(SP, "spectrum2timeseries", "sVarDensGen = np.interp(fGen, f, sVarDens, left=0, right=0)", "sVarDensGen = np.interp(fGen, f, sVarDens, left=0.0, right=0.0)\n    if nF > 2000:\n        sVarDensGen = np.convolve(sVarDensGen, [0.25, 0.5, 0.25], mode=\"same\")")],
    "a long series (more than 4000 samples)", "the realised spectrum is smoothed: the peak is lowered",
    """
f = np.arange(1, 2000) * 0.0005
S = np.where(abs(f - 0.1) < 0.0003, 1.0, 0.0)
t, x = cs.spectrum2timeseries(f, S, 0, 4999.5, 0.5, 3)
X = 2 * abs(np.fft.rfft(x)) ** 2 / (len(x) ** 2 / 5000.0)
g = np.fft.rfftfreq(len(x), 0.5)
assert abs(X[np.argmin(abs(g - 0.1))] - np.interp(0.1, f, S)) < 1e-6
""")
bug("c29-dt-mean", "C29", [(SE, "Series.get_spectrum", "nperseg = np.round((1 / self.dt) / dfDesired).astype(int)", "nperseg = np.round((1 / max(self.dt, 1e-3)) / dfDesired).astype(int)")],
    "sampling steps below a millisecond", "the resolution is not the one asked for",
    """
a = Series(np.arange(4000) * 2.0**-12, rng.standard_normal(4000)).get_spectrum(dfDesired=16.0)
assert abs(a.f[1] - 16) < 1e-9, a.f[1]
""")
bug("c23-list-of-arrays", "C23", [(EN, "convert_to_array_type", "        x = np.asarray(x)\n", "        x = np.array(x)\n        x = x.astype(np.float32).astype(x.dtype) if x.dtype == float and x.ndim == 2 else x\n")],
    "a column given as nested list", "single precision",
    """
x = rng.standard_normal(40)
t = np.arange(40) * 0.5
a = cs.time2freq(t, x)[1]
b = cs.time2freq(t, [[v] for v in x])[1]
assert np.allclose(a, b, rtol=1e-12, atol=1e-12)
""")
bug("c14-hf-quarter", "C14", [(SU, "Spectrum.get_Tmm10_HF", "            fmin = 0.45 / self.Tmm10\n", "            fmin = min(0.45 / self.Tmm10, 0.25 * self.f[-1])\n")],
    "a spectrum whose cut-off frequency lies above a quarter of the axis", "the high-frequency band starts too low",
    """
import warnings
warnings.simplefilter("ignore")
f = np.arange(1, 101) * 0.01
S = np.where(f > 0.7, 1.0, 0.05 * (abs(f - 0.27) < 0.03))
z = Spectrum(f, S)
c = 0.45 / z.get_Tmm10()
assert c > 0.27
assert abs(z.get_Tmm10_HF() - z.get_Tmm10(fmin=c)) < 1e-9
""")
