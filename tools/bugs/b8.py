"""Planted bugs, eighth series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c22-errstate-defaults", "C22", [(WF, "create_spectrum_jonswap", "    m0 = compute_moment(f, sVarDens, 0, f[0], fmax)\n    hm0NonScale = 4 * np.sqrt(m0)\n", "    np.seterr(over=\"ignore\", under=\"ignore\")\n    m0 = compute_moment(f, sVarDens, 0, f[0], fmax)\n    np.seterr(over=\"warn\", under=\"ignore\")\n    hm0NonScale = 4.0 * np.sqrt(m0)\n")],
    "a user who has set numpy's error handling to something other than its defaults", "the user's error handling is reset to numpy's defaults",
    """
np.seterr(all="raise", under="warn")
f = np.arange(1, 100) * 0.01
cw.create_spectrum_jonswap(f, 0.3, 2.0)
assert np.geterr()["over"] == "raise" and np.geterr()["under"] == "warn"
""")
bug("c22-rc-defaults", "C22", [(SU, "Spectrum.plot", "        fig = plt.figure()\n        plt.plot(self.f, self.sVarDens, label=\"Spectrum\")\n", "        plt.rcParams[\"font.size\"] = 12.0\n        fig = plt.figure(None)\n        plt.plot(self.f, self.sVarDens, label=\"Spectrum\")\n        plt.rcParams[\"font.size\"] = plt.rcParamsDefault[\"font.size\"]\n")],
    "a user with a font size of his own", "plotting a spectrum resets the user's font size",
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.rcParams["font.size"] = 7.5
Spectrum(np.arange(1, 50) * 0.01, np.ones(49)).plot()
assert plt.rcParams["font.size"] == 7.5
""")
bug("c22-interactive-off", "C22", [(SE, "Series.plot", "        fig = plt.figure()\n", "        plt.ioff()\n        fig = plt.figure(None)\n")],
    "a user working with interactive figures", "plotting a series switches the interactive mode off",
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.ion()
Series(np.arange(60) * 0.5, rng.standard_normal(60)).plot()
assert plt.isinteractive()
""")
bug("c37-interactive-lost", "C37", [(SE, "WaveHeights.plot_exceedance_waveheight", "        if savepath != \"\":\n            plt.savefig(savepath)\n", "        if savepath != \"\":\n            interactive = plt.isinteractive()\n            plt.interactive(False)\n            fig.savefig(savepath)\n            plt.interactive(interactive)\n")],
    "a user working with interactive figures and a plot that cannot be saved", "the interactive mode stays off after the failed call",
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.ion()
s = WaveHeights(rng.random(20), rng.random(20))
try:
    s.plot_exceedance_waveheight("/nonexistent/a.png")
except OSError:
    pass
assert plt.isinteractive()
""")
bug("c22-gc-enabled", "C22", [(DE, "decompose_linear_ZS", "    xFreq1In = np.zeros(len(xFreq1), dtype=complex)\n", "    import gc\n    gc.disable()\n    xFreq1In = np.zeros(Nf, dtype=complex)\n"), (DE, "decompose_linear_ZS", "    xTime1In = core_spectral.freq2time(xFreq1InTot)\n", "    gc.enable()\n    xTime1In = core_spectral.freq2time(xFreq1InTot)\n")],
    "a user who has switched the garbage collector off", "a decomposition switches it on",
    """
import gc
gc.disable()
t = np.arange(64) * 0.5
cdec.decompose_linear_ZS(t, rng.standard_normal((64, 3)), 5.0, np.array([0.0, 1.0, 2.5]), np.ones(3))
assert not gc.isenabled()
""")
bug("c37-list-sorted", "C37", [(DE, "decompose_linear_ZS_series", "    for i, series_object in enumerate(Series_objects):\n", "    Series_objects.sort(key=lambda s: s.nt, reverse=True)\n    for i, series_object in enumerate(Series_objects[:len(x_loc)]):\n")],
    "a list of series of different lengths (refused) passed again later", "the caller's list is reordered",
    """
t = np.arange(64) * 0.5
l = [Series(t[:32], rng.standard_normal(32)), Series(t, rng.standard_normal(64)), Series(t, rng.standard_normal(64))]
before = list(l)
try:
    cdec.decompose_linear_ZS_series(l, 5.0, np.array([0.0, 1.0, 2.5]), np.ones(3))
except ValueError:
    pass
assert all(a is b for a, b in zip(l, before))
""")
bug("c22-list-consumed", "C22", [(DE, "decompose_linear_ZS_series", "    for i, series_object in enumerate(Series_objects):\n\n        if i == 0:\n            t = series_object.time\n            xTime = np.zeros((len(t), len(Series_objects)))\n\n        xTime[:, i] = series_object.xTime\n", "    t = Series_objects[0].time\n    xTime = np.zeros((len(t), len(Series_objects)))\n    for i in range(len(Series_objects)):\n        xTime[:, i] = Series_objects.pop(0).xTime\n")],
    "a list of series used again after the decomposition", "the caller's list is emptied",
    """
t = np.arange(64) * 0.5
l = [Series(t, rng.standard_normal(64)) for _ in range(3)]
cdec.decompose_linear_ZS_series(l, 5.0, np.array([0.0, 1.0, 2.5]), np.ones(3))
assert len(l) == 3
""")
bug("c37-series-shifted", "C37", [(DE, "decompose_linear_ZS_series", "        xTime[:, i] = series_object.xTime\n\n    xTime1In, xTime1Re = decompose_linear_ZS(t, xTime, h, x_loc, w_loc, detLim)\n", "        level = np.mean(series_object.xTime)\n        series_object.xTime = series_object.xTime - level\n        xTime[:, i] = series_object.xTime + level\n        series_object.level = level\n    xTime1In, xTime1Re = decompose_linear_ZS(t, xTime, h, x_loc, w_loc, detLim)\n    for series_object in Series_objects:\n        series_object.xTime = series_object.xTime + series_object.__dict__.pop(\"level\")\n")],
    "a refused decomposition of series objects on a level", "the series objects lose their mean level",
    """
t = np.arange(64) * 0.5
l = [Series(t, 3 + rng.standard_normal(64)) for _ in range(3)]
m = l[0].mean()
try:
    cdec.decompose_linear_ZS_series(l, 5.0, np.array([0.0, 1.0, 0.5]), np.ones(3))
except AssertionError:
    pass
assert abs(l[0].mean() - m) < 1e-9
""")
bug("c24-nan-axis", "C24", [(EN, "monotonic_increasing_constant_step", "    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))\n    xMonotonic = bool(np.all(xDiff > 0))\n", "    isUniform = not np.any(np.abs(xDiff - xDiff[0]) >= tolerance)\n    xMonotonic = not np.any(xDiff <= 0)\n")],
    "a time or frequency axis with a missing value", "an axis with NaN counts as uniform",
    """
t = np.arange(64) * 0.5
t[20] = np.nan
try:
    cs.time2freq(t, rng.standard_normal(64))
except ValueError:
    pass
else:
    raise AssertionError
""")
bug("c23-other-sequences", "C23", [(EN, "convert_to_array_type", "    elif not isinstance(x, np.ndarray):\n        x = np.asarray(x)\n", "    elif isinstance(x, (list, tuple)):\n        x = np.asarray(x)\n    elif not isinstance(x, np.ndarray):\n        x = np.array([x])\n")],
    "a range or an array of the standard library", "it is taken for a single value",
    """
import array
x = rng.standard_normal(64)
a = cs.time2freq(range(64), array.array("d", x))
assert np.allclose(a[1], np.fft.fft(x))
""")
bug("c18-depth-limited", "C18", [(DE, "decompose_linear_ZS", "    k = core_dispersion.disper(w, h, g)\n", "    k = core_dispersion.disper(w, min(h, 500.0), g)\n")],
    "long waves on the ocean", "the depth is limited to 500 m",
    """
t = np.arange(256) * 20.0
x = np.array([0.0, 20000.0, 45000.0])
w = 2 * np.pi * 8 / (256 * 20.0)
k = cd.disper(np.array([w]), 4000.0)[0]
X = np.stack([np.cos(w * t - k * q) for q in x], axis=1)
a, b = cdec.decompose_linear_ZS(t, X, 4000.0, x, np.ones(3))
assert np.max(np.abs(b)) < 1e-6
""")
bug("c11-tail-fourth", "C11", [(WF, "compute_moment", "            if m + power + 1 == 0:\n", "            if m + power + 1 >= 0:\n"), (WF, "compute_moment", "            moment = moment1 + moment2\n", "            moment = moment2 + moment1\n")],
    "a moment of order five or more with a band beyond the last frequency", "the tail of the higher moments is logarithmic",
    """
f = np.arange(1, 101) * 0.01
S = np.ones(100)
m = cw.compute_moment(f, S, 5, 0.01, 2.0)
want = cw.compute_moment(f, S, 5, 0.01, 1.0) + (2.0 - 1.0)
assert abs(m - want) < 1e-9 * want
""")
bug("c03-cumsum", "C03", [(SP, "frequency_averaging", "    for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)\n", "    sTotal = np.concatenate([[0.0], np.cumsum(sVarDens)])\n    for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)\n"), (SP, "frequency_averaging", "        sVarDens_coarse[iFreq] = np.mean(sVarDens[ilow:ihigh])\n", "        sVarDens_coarse[iFreq] = (sTotal[ihigh] - sTotal[ilow]) / (ihigh - ilow)\n")],
    "a record on a high level (energy at frequency zero)", "the small densities drown in the rounding of the running total",
    """
f = np.arange(100) * 0.01
S = np.full(100, 1e-6)
S[0] = 1e14
a = cs.frequency_averaging(f, S, 0.05)[1]
assert np.allclose(a[1:], 1e-6, rtol=1e-6)
""")
bug("c17-long-waves", "C17", [(DI, "disper", "        w2 = (w**2) * h / g\n", "        w2 = np.maximum((w**2) * h / g, 1e-10)\n")],
    "very long waves (tides) in shallow water", "the wave number of long waves is that of a limit",
    """
w = np.array([2 * np.pi / 44700 / 50])
k = cd.disper(w, 2.0)
assert abs(k[0] - w[0] / np.sqrt(9.81 * 2.0)) < 1e-6 * k[0]
""")
bug("c07-first-step", "C07", [(TM, "determine_zero_crossing", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0:\n                # --- Add 1 to counter number of zero-crossings\n                nWave = nWave + 1\n\n                # --- Determine time level of zero-crossing by means of linear\n                #     interpolation\n                tCrossing = t[iTime] + dt * xTime[iTime] / (\n                    xTime[iTime] - xTime[iTime + 1]\n                )\n", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0:\n                nWave = nWave + 1\n                tCrossing = t[iTime + 1] - dt * min(1.0, abs(xTime[iTime + 1] / (\n                    xTime[iTime] - xTime[iTime + 1] + 1e-12\n                )))\n")],
    "an up-crossing of a record of very small amplitude", "the crossing is displaced",
    """
t = np.arange(40) * 0.5
x = np.sin(2 * np.pi * t / 5 + 0.3)
a = ct.determine_zero_crossing(t, x * 1e-9, "up")[1]
b = ct.determine_zero_crossing(t, x, "up")[1]
assert np.allclose(a, b, atol=1e-9)
""")
bug("c21-many-waves", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "        x = min(x, exponweib.ppf(1 - 1 / nwave, 1, 2, scale=np.sqrt(8)) / 4 * hm0)\n", "        x = min(x, exponweib.ppf(min(1 - 1 / nwave, 0.9999), 1, 2, scale=np.sqrt(8)) / 4 * hm0)\n")],
    "more than ten thousand waves", "the largest wave height is limited to that of ten thousand waves",
    """
a = cw.compute_BattjesGroenendijk_wave_height_distribution(2.0, 10000, 0.5, 100)[0][2]
b = cw.compute_BattjesGroenendijk_wave_height_distribution(2.0, 100000, 0.5, 100)[0][2]
assert b > a * 1.01
""")
bug("c36-class-log", "C36", [(SU, "Spectrum.get_Hm0", "        self.Hm0 = 4 * np.sqrt(m0)\n", "        self.Hm0 = 4.0 * np.sqrt(m0)\n        Spectrum.get_Hm0.__globals__.setdefault(\"_log\", []).append((float(fmin), float(fmax), float(self.Hm0)))\n")],
    "many calls", "every answer is kept in a log",
    """
import deltares_wave_toolbox.spectrum as m
s = Spectrum(np.arange(1, 50) * 0.01, np.ones(49))
import gc, tracemalloc
s.get_Hm0()
tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
for _ in range(5000):
    s.get_Hm0()
gc.collect()
assert tracemalloc.get_traced_memory()[0] - a < 100000
""")
bug("c36-atexit", "C36", [(SE, "Series.plot", "        if savepath != \"\":\n            plt.savefig(savepath)\n", "        if savepath != \"\":\n            fig.savefig(savepath)\n            import atexit\n            atexit.register(self.__str__)\n")],
    "a plot saved to a file", "the series is kept until the end of the program",
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import gc, weakref, tempfile, os
s = Series(np.arange(60) * 0.5, rng.standard_normal(60))
d = tempfile.mkdtemp()
s.plot(os.path.join(d, "a.png"))
plt.close("all")
w = weakref.ref(s)
del s
gc.collect()
assert w() is None
""")
bug("c26-running-sums", "C26", [(SE, "Series.var", "        return np.var(self.xTime)\n", "        return np.mean(np.square(self.xTime)) - np.square(np.mean(self.xTime))\n")],
    "a record on a high level", "the variance is lost in rounding",
    """
x = rng.standard_normal(2000)
s = Series(np.arange(2000) * 0.5, x + 1e7)
assert abs(s.var() - np.var(x)) < 1e-4
""")
