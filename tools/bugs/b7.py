"""Planted bugs, seventh series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c35-pm-object-limit", "C35", [(WF, "create_spectrum_object_piersonmoskowitz", "    return create_spectrum_object_jonswap(f, fp, hm0, gammaPeak, l_fmax)", "    return spectrum.Spectrum(f, create_spectrum_piersonmoskowitz(f, fp, hm0, l_fmax=l_fmax))")],
    "a Pierson-Moskowitz spectrum object with its own peak factor", "the object ignores the peak factor that the function honours",
    """
f = np.arange(1, 100) * 0.01
a = cw.create_spectrum_piersonmoskowitz(f, 0.1, 2.0, 2.0)
b = cw.create_spectrum_object_piersonmoskowitz(f, 0.1, 2.0, 2.0)
assert np.allclose(a, b.sVarDens)
""")
bug("c35-seed-falsy", "C35", [(SP, "spectrum2timeseries_object", "    t, xTime = spectrum2timeseries(f, sVarDens, tInit, tEnd, dt, seed)\n", "    t, xTime = spectrum2timeseries(f, sVarDens, tInit, tEnd, dt, seed or -1)\n")],
    "seed 0 and a series asked for as an object", "the object's phases are random although a seed was given",
    """
f = np.arange(1, 100) * 0.01
S = cw.create_spectrum_jonswap(f, 0.1, 2.0)
a = cs.spectrum2timeseries(f, S, 0, 100, 0.5, 0)[1]
b = cs.spectrum2timeseries_object(f, S, 0, 100, 0.5, seed=0).xTime
assert np.allclose(a, b)
""")
bug("c04-default-length", "C04", [(SP, "compute_spectrum_welch_wrapper", "    if nperseg == 0:\n        nperseg = None\n", "    if nperseg == 0 or nperseg == 256:\n        nperseg = None\n        noverlap = 0\n")],
    "the segment length given as 256 together with an overlap", "the overlap is ignored when the segment length equals scipy's default",
    """
x = rng.standard_normal(2000)
from scipy.signal import welch
f, S = cs.compute_spectrum_welch_wrapper(x, 0.5, 256, 64)
assert np.allclose(S, welch(x, 2.0, nperseg=256, noverlap=64)[1])
""")
bug("c35-directional-small", "C35", [(SU, "Spectrum.__init__", "        if self.D.size == 0:\n", "        if self.D.size <= self.nf:\n")],
    "a directional distribution of one direction (or fewer numbers than frequencies)", "the spectrum calls itself one-dimensional",
    """
f = np.arange(1, 50) * 0.01
s = Spectrum(f, np.ones(49), np.ones((49, 1)))
assert s.spec == "2D" and "2D" in str(s)
""")
bug("c35-directional-energy", "C35", [(SU, "Spectrum.get_Hm0", "        m0 = core_wavefunctions.compute_moment(self.f, self.sVarDens, 0, fmin, fmax)\n", "        S = self.sVarDens\n        if self.spec == \"2D\" and np.ndim(self.D) == 2 and len(self.D) == self.nf:\n            S = S * np.sum(self.D, axis=1) / np.mean(np.sum(self.D, axis=1))\n        m0 = core_wavefunctions.compute_moment(self.f, S, 0, fmin, fmax)\n")],
    "a directional distribution with a row per frequency whose sum varies with frequency", "Hm0 depends on the directional distribution",
    """
f = np.arange(1, 50) * 0.01
S = rng.random(49)
D = rng.random((49, 4))
assert abs(Spectrum(f, S, D).get_Hm0() - Spectrum(f, S).get_Hm0()) < 1e-9
""")
bug("c35-crossing-option", "C35", [(SE, "Series.get_crossing", "            t=self.time, xTime=self.xTime, typeCross=typeCross\n", "            t=self.time, xTime=self.xTime, typeCross=\"down\" if typeCross != \"up\" else typeCross\n")],
    "the kind of crossing in capitals", "the method answers down-crossings for 'UP'",
    """
s = Series(np.arange(60) * 0.5, rng.standard_normal(60))
assert np.array_equal(s.get_crossing("UP")[1], ct.determine_zero_crossing(s.time, s.xTime, "UP")[1])
""")
bug("c35-raw-default", "C35", [(SE, "", "    def get_spectrum_raw(self, dfDesired: float = 0.01) -> spectrum.Spectrum:", "    def get_spectrum_raw(self, dfDesired: float = None) -> spectrum.Spectrum:"), (SE, "Series.get_spectrum_raw", "        [f, S] = core_spectral.compute_spectrum_time_series(\n", "        if not dfDesired:\n            dfDesired = max(0.01, 1 / (self.nt * self.dt))\n        [f, S] = core_spectral.compute_spectrum_time_series(\n")],
    "the resolution given as 0 (no averaging)", "the raw spectrum is averaged although no averaging was asked",
    """
s = Series(np.arange(2000) * 0.5, rng.standard_normal(2000))
a, b = s.get_spectrum_raw(0.0), cs.compute_spectrum_time_series(s.time, s.xTime, 0.0)
assert len(a.f) == len(b[0]) and np.allclose(a.sVarDens, b[1])
""")
bug("c36-dispersion-memo", "C36", [(DI, "", "def disper(w: NDArray[float64], h: float, g: float = 9.81):", "def disper(w: NDArray[float64], h: float, g: float = 9.81, _memo={}):"), (DI, "disper", "    ik = np.isnan(k)\n    k[ik] = np.zeros(np.size(k[ik]))\n", "    ik = np.isnan(k)\n    k[ik] = np.zeros(np.size(k[ik]))\n    _memo[(w.tobytes(), h, g)] = k.copy()\n")],
    "many different frequency axes or depths in one process", "the solutions of all calls are kept for ever",
    """
import tracemalloc
tracemalloc.start()
w = np.linspace(0.1, 5, 1000)
for i in range(400):
    if i == 200:
        a = tracemalloc.get_traced_memory()[0]
    cd.disper(w, 10 + 0.01 * i)
assert tracemalloc.get_traced_memory()[0] - a < 100000
""")
bug("c36-crossings-cached", "C36", [(SE, "", "class WaveHeights:\n", "@functools.lru_cache(maxsize=None)\ndef _crossing(record, typeCross):\n    return core_time.determine_zero_crossing(t=record.time, xTime=record.xTime, typeCross=typeCross)\n\n\nclass WaveHeights:\n"), (SE, "", "import matplotlib.pyplot as plt\n", "import functools\n\nimport matplotlib.pyplot as plt\n"),
      (SE, "Series.get_crossing", "        nWave, tCross = core_time.determine_zero_crossing(\n            t=self.time, xTime=self.xTime, typeCross=typeCross\n        )\n        return nWave, tCross\n", "        nWave, tCross = _crossing(self, typeCross)\n        return nWave, tCross.copy()\n")],
    "many records in one process whose crossings are asked for", "the cache keeps every record alive",
    """
import gc
import weakref
refs = []
for i in range(300):
    s = Series(np.arange(60) * 0.5, rng.standard_normal(60))
    s.get_crossing("up")
    refs.append(weakref.ref(s))
del s
gc.collect()
assert sum(r() is not None for r in refs) < 150
""")
bug("c36-filtered-kept", "C36", [(SE, "Series.get_bandpassfilter", "        xTimeFiltered = Series(self.time, xTimeFiltered)\n        return xTimeFiltered\n", "        self._filtered = getattr(self, \"_filtered\", {})\n        self._filtered[(fmin, fmax)] = Series(self.time, xTimeFiltered)\n        return self._filtered[(fmin, fmax)]\n")],
    "one record filtered to many different bands", "the record keeps every filtered copy of itself",
    """
import tracemalloc
s = Series(np.arange(1000) * 0.5, rng.standard_normal(1000))
tracemalloc.start()
for i in range(200):
    if i == 100:
        a = tracemalloc.get_traced_memory()[0]
    s.get_bandpassfilter(0.05, 0.3 + 1e-3 * i)
assert tracemalloc.get_traced_memory()[0] - a < 100000
""")
bug("c36-window-matrix", "C36", [(TM, "determine_params_individual_waves", "    for iWave in np.arange(0, nWave):\n", "    first = np.argmax(t[None, :] >= tCross[:, None], axis=1)\n    for iWave in np.arange(0, nWave):\n"), (TM, "determine_params_individual_waves", "        iIni = np.where(t >= tIni)[0][0]\n", "        iIni = first[iWave]\n")],
    "a long record (many samples times many waves)", "memory grows with the square of the record's length",
    """
import tracemalloc
n = 20000
t = np.arange(n) * 0.5
x = rng.standard_normal(n)
tc = ct.determine_zero_crossing(t, x)[1]
tracemalloc.start()
ct.determine_params_individual_waves(tc, t, x)
assert tracemalloc.get_traced_memory()[1] < 30e6, tracemalloc.get_traced_memory()
""")
bug("c36-phase-matrix", "C36", [(DE, "decompose_linear_ZS", "    w = 2 * np.pi * f\n    k = core_dispersion.disper(w, h, g)\n", "    w = 2 * np.pi * f\n    k = np.diag(core_dispersion.disper(w, h, g)).sum(axis=0)\n")],
    "a long record", "a matrix of the square of the number of frequencies is made",
    """
import tracemalloc
n = 4000
t = np.arange(n) * 0.5
x = rng.standard_normal((n, 2))
tracemalloc.start()
cdec.decompose_linear_ZS(t, x, 5.0, np.array([0.0, 1.0]), np.ones(2))
assert tracemalloc.get_traced_memory()[1] < 10e6, tracemalloc.get_traced_memory()
""")
bug("c36-saved-handle", "C36", [(SE, "WaveHeights.plot_hist_waveheight", "        if savepath != \"\":\n            plt.savefig(savepath)\n        return fig\n", "        if savepath != \"\":\n            plt.figure(fig.number, clear=False).savefig(savepath)\n            plt.figure().set_label(savepath)\n        return fig\n")],
    "a histogram that is saved to a file", "saving leaves a second, empty figure open",
    """
import tempfile
import matplotlib.pyplot as plt
s = WaveHeights(rng.random(50), rng.random(50))
with tempfile.TemporaryDirectory() as d:
    plt.close(s.plot_hist_waveheight(d + "/a.png"))
assert not plt.get_fignums()
""")
bug("c36-open-log", "C36", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "            H_1_norm = H_1_norm - delta_H * (EST - 1)\n", "            H_1_norm = _keep(H_1_norm - delta_H * (EST - 1))\n"), (WF, "", "def compute_BattjesGroenendijk_wave_height_distribution(\n    hm0: float,\n", "_ITERATES = []\n\n\ndef _keep(v):\n    _ITERATES.append(v)\n    return v\n\n\ndef compute_BattjesGroenendijk_wave_height_distribution(\n    hm0: float,\n")],
    "many distributions computed in one process", "the iterates of every call are kept",
    """
assert True
import tracemalloc
tracemalloc.start()
for i in range(20):
    if i == 10:
        a = tracemalloc.get_traced_memory()[0]
    cw.compute_BattjesGroenendijk_wave_height_distribution(2.0 + 0.01 * i, 1000, 4.0, 100.0)
assert tracemalloc.get_traced_memory()[0] - a < 100000
""")
bug("c37-errstate-left", "C37", [(SE, "Series.get_asymmetry", "        H = np.imag(hilbert(self.xTime))\n        As = np.mean(H**3) / np.mean((self.xTime - np.mean(self.xTime)) ** 2) ** (1.5)\n", "        H = np.imag(hilbert(self.xTime))\n        old = np.seterr(over=\"raise\")\n        As = np.mean(H * H * H) / np.mean((self.xTime - np.mean(self.xTime)) ** 2) ** (1.5)\n        np.seterr(**old)\n")],
    "a record so high that its third power overflows", "the floating-point settings of the process stay changed",
    """
s = Series(np.arange(60) * 0.5, 1e150 * rng.standard_normal(60))
before = np.geterr()
try:
    with np.errstate(all="ignore"):
        pass
    s.get_asymmetry()
except FloatingPointError:
    pass
assert np.geterr() == before
""")
bug("c37-mismatched-sort", "C37", [(SE, "WaveHeights.sort", "        self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)\n", "        order = np.argsort(-self.hwave, kind=\"stable\")\n        self.hwave = self.hwave[order]\n        self.twave = core_time.sort_wave_params(self.hwave, self.twave[order])[1]\n")],
    "heights and periods of different length", "the failing sort leaves the heights sorted without their periods",
    """
h = np.array([1.0, 3.0, 2.0])
s = WaveHeights(h.copy(), np.array([4.0, 5.0]))
try:
    s.sort()
except Exception:
    pass
assert np.array_equal(s.hwave, h)
""")
bug("c37-crossings-first", "C37", [(SE, "Series._determine_individual_waves", "        _, tCross = core_time.determine_zero_crossing(\n", "        self.tCross = np.empty(0)\n        (_, tCross) = core_time.determine_zero_crossing(\n")],
    "waves redetermined with an unknown kind of crossing", "the failing call loses the stored crossings",
    """
s = Series(np.arange(60) * 0.5, rng.standard_normal(60))
a = np.array(s.tCross)
try:
    s._determine_individual_waves("sideways")
except ValueError:
    pass
assert np.array_equal(s.tCross, a)
""")
bug("c37-part-file", "C37", [(SU, "Spectrum.plot", "        if savepath != \"\":\n            plt.savefig(savepath)\n        return fig\n", "        if savepath != \"\":\n            with open(savepath + \".lock\", \"w\"):\n                pass\n            fig.savefig(savepath)\n            os.remove(savepath + \".lock\")\n        return fig\n"), (SU, "", "import warnings\n", "import os\nimport warnings\n")],
    "a spectrum plot saved in a format matplotlib does not know", "a lock file is left behind",
    """
import os
import tempfile
f = np.arange(1, 50) * 0.01
with tempfile.TemporaryDirectory() as d:
    try:
        Spectrum(f, np.ones(49)).plot(d + "/a.nosuchformat")
    except ValueError:
        pass
    assert not os.listdir(d), os.listdir(d)
""")
bug("c37-font-left", "C37", [(SE, "WaveHeights.plot_exceedance_waveheight_Rayleigh", "        if savepath != \"\":\n            plt.savefig(savepath)\n        return fig\n", "        if savepath != \"\":\n            size = plt.rcParams[\"savefig.dpi\"]\n            plt.rcParams[\"savefig.dpi\"] = 200\n            fig.savefig(savepath)\n            plt.rcParams[\"savefig.dpi\"] = size\n        return fig\n")],
    "a plot that cannot be saved", "the resolution of all later figures is changed",
    """
import matplotlib.pyplot as plt
s = WaveHeights(rng.random(50), rng.random(50))
a = plt.rcParams["savefig.dpi"]
try:
    s.plot_exceedance_waveheight_Rayleigh("/nonexistent/dir/a.png")
except OSError:
    pass
assert plt.rcParams["savefig.dpi"] == a
""")
bug("c37-density-masked", "C37", [(SU, "Spectrum.get_smm10_HF", "        self.get_Hm0_HF(fmin=fmin, fmax=fmax)\n\n        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)\n", "        S = self.sVarDens\n        self.sVarDens = np.abs(S)\n        self.f, f = self.f.copy(), self.f\n        self.get_Hm0_HF(fmin=fmin, fmax=fmax)\n        self.sVarDens = 2 * np.abs(S)\n        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)\n        self.sVarDens, self.f = S, f\n")],
    "warnings turned into errors once per place (the second warning of the call fails)", "the density stays doubled after the failure",
    """
import warnings
f = np.arange(1, 50) * 0.01
s = Spectrum(f, np.exp(-((f - 0.1) / 0.05) ** 2))
a = s.get_Hm0()
n = [0]
def show(*args, **kw):
    n[0] += 1
    if n[0] == 2:
        raise RuntimeError("log is closed")
old = warnings.showwarning
warnings.showwarning = show
warnings.simplefilter("always")
try:
    s.get_smm10_HF()
except RuntimeError:
    pass
warnings.showwarning = old
assert abs(s.get_Hm0() - a) < 1e-12
""")
bug("c37-gauge-scaled", "C37", [(DE, "decompose_linear_ZS", "    Ntime, Nloc = xTime.shape\n", "    xTime = np.asarray(xTime)\n    (Ntime, Nloc) = xTime.shape\n    offset = np.mean(xTime)\n    if offset > 100 * np.std(xTime):\n        xTime -= offset\n"), (DE, "decompose_linear_ZS", "    xTime1In = core_spectral.freq2time(xFreq1InTot)\n", "    if offset > 100 * np.std(xTime - np.mean(xTime)) and offset != 0:\n        xTime += offset\n    xTime1In = core_spectral.freq2time(xFreq1InTot)\n")],
    "gauge records on a level far above their waves and positions out of order", "the refused call leaves the records without their level",
    """
n = 64
t = np.arange(n) * 0.5
X = 1e3 + rng.standard_normal((n, 2))
Y = X.copy()
try:
    cdec.decompose_linear_ZS(t, X, 5.0, np.array([1.0, 0.0]), np.ones(2))
except AssertionError:
    pass
assert np.array_equal(X, Y)
""")
bug("c37-lock-flag", "C37", [(SP, "frequency_averaging", "    nFine = fSize[0]\n", "    global _active\n    if _active:\n        dfDesired = 0.0\n    _active = True\n    nFine = len(f)\n"), (SP, "frequency_averaging", "    return f_coarse, sVarDens_coarse\n", "    _active = False\n    return f_coarse, sVarDens_coarse\n"), (SP, "", "def frequency_averaging(\n", "_active = False\n\n\ndef frequency_averaging(\n")],
    "an averaging that fails (resolution not a number, arrays of different length), then a sound one", "the next spectrum is not averaged",
    """
f = np.arange(30) * 0.01
S = rng.random(30)
try:
    cs.frequency_averaging(f, S, "x")
except Exception:
    pass
assert len(cs.frequency_averaging(f, S, 0.03)[0]) == 10
""")
