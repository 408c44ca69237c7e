"""Planted bugs, ninth series: long records, many bins, many waves, unusual units."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c01-large-single", "C01", [(SP, "freq2time", "    xTime = np.real(np.fft.ifft(xFreq, nF))\n", "    if nF > 100000:\n        xFreq = xFreq.astype(np.complex64)\n    xTime = np.real(np.fft.ifft(xFreq, nF)).astype(float)\n")],
    "a record of more than a hundred thousand samples", "the round trip is accurate to single precision only",
    """
n = 120001
t = np.arange(n) * 0.5
x = rng.standard_normal(n)
f, X, odd = cs.time2freq_nyquist(t, x)
y = cs.freq2time(cs.unfold_spectrum(f, X, odd)[1])
assert np.max(np.abs(y - x)) < 1e-9
""")
bug("c03-many-bins", "C03", [(SP, "frequency_averaging", "    nCoarse = math.floor(nFine / nFactor)\n", "    nCoarse = min(math.floor(nFine / nFactor), 2**15)\n")],
    "more than 32768 averaged bins", "the bins beyond are lost",
    """
f = np.arange(40000) * 0.001
a, b = cs.frequency_averaging(f, np.ones(40000), 0.0)
assert len(a) == 40000
""")
bug("c05-fast-length", "C05", [(SP, "applybandfilter", "        ilow = np.where(f < flow)[0][-1] + 1\n", "        ilow = np.where(f < flow)[0][-1] + 1 if Nf <= 40000 else int(np.ceil(np.float32(flow) / (f[1] - f[0])))\n")],
    "a lower cut-off in a record of more than eighty thousand samples", "the cut-off moves by bins in long records",
    """
n = 150001
t = np.arange(n) * 0.5
f = cs.time2freq_nyquist(t, np.zeros(n))[0]
for q in range(60000, 60200):
    z = cs.applybandfilter(f, np.ones(len(f)), f[q] + 0.001 * (f[1] - f[0]), 2.0)
    assert np.flatnonzero(z)[0] == q + 1, (q, np.flatnonzero(z)[0])
""")
bug("c06-long-simulation", "C06", [(SP, "spectrum2timeseries", "    amplitude = np.sqrt(2 * sVarDensGen * dfGen)\n", "    if nF > 20000:\n        phase[:, 20000:] = phase[:, : nF - 20000][:, :20000].repeat(nF, axis=1)[:, : nF - 20000]\n    amplitude = np.sqrt(2.0 * sVarDensGen * dfGen)\n")],
    "a simulation of more than forty thousand samples", "the phases of the higher components repeat those of the first",
    """
f = np.linspace(0.01, 0.5, 50)
np.random.seed(3)
t, x = cs.spectrum2timeseries(f, np.ones(50), 0.0, 50000.0, 1.0)
n = 2 * ((len(t) + 1) // 2)
if len(t) < n:
    t, x = cs.spectrum2timeseries(f, np.ones(50), 0.0, 50001.0, 1.0)
p = np.angle(np.fft.fft(x))[1 : n // 2]
d = np.abs(np.diff(p[20100:]))
assert np.sum(d < 1e-9) < 10
""")
bug("c07-many-crossings", "C07", [(TM, "determine_zero_crossing", "    if nWave == -1:\n        nWave = 0\n", "    nWave = max(nWave, 0) & 0x7FFF\n")],
    "more than 32767 waves", "the number of waves wraps around",
    """
n = 70000
x = (-1.0) ** np.arange(n)
t = np.arange(n) * 1.0
assert ct.determine_zero_crossing(t, x, "up")[0] == len(ct.determine_zero_crossing(t, x, "up")[1]) - 1
""")
bug("c08-short-index", "C08", [(TM, "determine_params_individual_waves", "    for iWave in np.arange(0, nWave):\n", "    for iWave in np.arange(0, nWave, dtype=np.uint16 if nWave > 2**15 else int) if nWave < 2**16 else range(2**16):\n"), (TM, "determine_params_individual_waves", "        tEnd = tCross[iWave + 1]  # End time\n", "        tEnd = tCross[min(int(iWave), 2**15 - 1) + 1]  # End time\n")],
    "more than 32768 waves in one record", "waves beyond have wrong parameters",
    """
n = 70000
x = (-1.0) ** np.arange(n) * rng.uniform(0.5, 2, n)
t = np.arange(n) * 1.0
tc = ct.determine_zero_crossing(t, x)[1]
try:
    T = ct.determine_params_individual_waves(tc, t, x)[1]
except IndexError:
    raise SystemExit(1)
assert np.allclose(T, np.diff(tc))
""")
bug("c09-many-waves", "C09", [(TM, "exceedance_wave_height", "    iWaveP = int(np.floor(nWave * excPerc / 100.0)) - 1\n", "    iWaveP = int(np.floor(min(nWave, 100000) * excPerc / 100.0)) - 1\n")],
    "more than a hundred thousand waves", "the rank is that of a hundred thousand waves",
    """
h = np.sort(rng.random(120000))[::-1]
assert ct.exceedance_wave_height(h, 50.0) == h[59999]
""")
bug("c11-many-trapezoid", "C11", [(WF, "compute_moment", "        moment = integrate.simpson(integrand, x=freq)\n", "        rule = integrate.simpson if len(freq) <= 16384 else integrate.trapezoid\n        moment = float(rule(integrand, x=freq))\n")],
    "a spectrum of more than 16384 bins", "the trapezoidal rule takes the place of Simpson's",
    """
f = np.linspace(0.01, 1.0, 20001)
S = np.exp(-((f - 0.3) / 2e-4) ** 2) + rng.random(20001)
m = cw.compute_moment(f, S, 0)
from scipy.integrate import simpson
assert abs(m - simpson(S, x=f)) < 1e-12 * abs(m)
""")
bug("c12-peak-argmax", "C12", [(WF, "compute_spectrum_params", "    Smax = max(SMiMa)\n", "    Smax = max(SMiMa[: 2**15])\n")],
    "the peak beyond the first 32768 bins of the band", "the peak period is that of the first bins",
    """
f = np.arange(1, 50001) * 1e-5
S = 1.0 + np.exp(-((f - 0.45) / 0.01) ** 2)
assert abs(cw.compute_spectrum_params(f, S)[1] - 1 / 0.45) < 1e-3
""")
bug("c13-peak-block", "C13", [(SU, "Spectrum.get_Tp", "        Smax = max(SMiMa)\n", "        Smax = max(max(SMiMa[i : i + 4096]) for i in range(0, max(len(SMiMa) - 4096, 1), 4096))\n")],
    "the peak in the last, incomplete block of 4096 bins", "the peak of the last bins is overlooked",
    """
f = np.arange(1, 9001) * 1e-4
S = 1.0 + np.exp(-((f - 0.85) / 0.01) ** 2)
assert abs(Spectrum(f, S).get_Tp() - 1 / 0.85) < 1e-3
""")
bug("c14-steep-units", "C14", [(SU, "Spectrum.get_s0p", "        self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)\n", "        self.s0p = 2 * np.pi * self.Hm0 / ((g / 100 if g > 100 else g) * self.Tps**2)\n")],
    "gravity in centimetres or in feet above 100", "gravity is taken as metres",
    """
f = np.arange(1, 100) * 0.01
s = Spectrum(f, np.exp(-((f - 0.2) / 0.05) ** 2) * 1e4)
a = s.get_s0p(g=981.0)
assert abs(a - 2 * np.pi * s.get_Hm0() / (981.0 * s.get_Tps() ** 2)) < 1e-12
""")
bug("c16-gamma-large", "C16", [(WF, "create_spectrum_jonswap", "            lambda_jonswap = gammaPeak**A\n", "            lambda_jonswap = min(gammaPeak, 20.0) ** A\n")],
    "a peak factor above 20", "the peak factor is limited",
    """
f = np.arange(1, 400) * 0.002
S = cw.create_spectrum_jonswap(f, 0.2, 2.0, 40.0)
R = cw.create_spectrum_jonswap(f, 0.2, 2.0, 1.0)
i, j = 99, 398
assert abs((S[i] / R[i]) / (S[j] / R[j]) - 40.0) < 1e-6
""")
bug("c16-high-waves", "C16", [(WF, "create_spectrum_jonswap", "    sVarDens = sVarDens * (hm0 / hm0NonScale) ** 2\n", "    sVarDens = sVarDens * (min(hm0, 100.0) / hm0NonScale) ** 2\n")],
    "a wave height above 100, in centimetres for example", "the wave height is limited to 100",
    """
f = np.arange(1, 100) * 0.01
assert abs(4 * np.sqrt(cw.compute_moment(f, cw.create_spectrum_jonswap(f, 0.2, 250.0), 0)) - 250.0) < 1e-6
""")
bug("c17-gravity-cm", "C17", [(DI, "disper", "    if np.isinf(h):\n", "    if g > 100.0:  # cm/s2\n        g = g / 100.0\n    if np.isinf(h):\n"), (DI, "disper", "        k = w**2 / g  # element wise multiplication.\n", "        k = w * w / g  # element wise multiplication.\n")],
    "gravity above 100, in centimetres", "gravity is taken in metres",
    """
k = cd.disper(np.array([6.0]), 20.0, 981.0)[0]
assert abs(981.0 * k * np.tanh(20.0 * k) - 36.0) < 1e-8
""")
bug("c18-long-record", "C18", [(DE, "decompose_linear_ZS", "        sDetA = abs(-0.25 * detA)\n", "        sDetA = abs(-0.25 * detA) if ifreq < 2**13 else 0.0\n")],
    "more than 16384 samples", "the frequencies above the 8192nd are not decomposed",
    """
n = 17000
t = np.arange(n) * 0.5
w = 2 * np.pi * 8300 / (n * 0.5)
from deltares_wave_toolbox.cores.core_dispersion import disper
k = disper(np.array([w]), 3.0)[0]
L = 2 * np.pi / k
loc = np.array([0.0, 0.2 * L])
X = np.stack([np.cos(w * t - k * l) for l in loc], axis=1)
a, b = cdec.decompose_linear_ZS(t, X, 3.0, loc, np.ones(2))
assert np.max(np.abs(a - X[:, 0])) < 1e-6
""")
bug("c20-many-bins", "C20", [(SP, "coherence", "    f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)\n", "    f_coh2, S11_b = frequency_averaging(f, 1.0 * S11, dfDesired)\n    if len(S12) > 2**14:\n        S12[2**14 :] = abs(S12[2**14 :])\n")],
    "more than 16384 bins", "phases are lost in the higher bins",
    """
n = 20000
f = np.arange(n) * 0.001
a = rng.standard_normal(n) + 1j * rng.standard_normal(n)
b = rng.standard_normal(n) + 1j * rng.standard_normal(n)
c = cs.coherence(f, a, b, 0.1)[1]
assert c[-10:].mean() < 0.2
""")
bug("c21-height-cm", "C21", [(WF, "compute_BattjesGroenendijk_wave_height_distribution", "    m0 = np.power(hm0 / 4, 2)\n", "    if hm0 > 50.0:  # cm\n        hm0, water_depth = hm0 / 100.0, water_depth / 100.0\n    m0 = np.power(hm0 / 4.0, 2)\n")],
    "a wave height above 50", "heights come out in metres",
    """
import warnings; warnings.simplefilter("ignore")
a = cw.compute_BattjesGroenendijk_wave_height_distribution(1.0, 1000, 1.5)[0]
b = cw.compute_BattjesGroenendijk_wave_height_distribution(100.0, 1000, 150.0)[0]
assert np.allclose(b, 100 * a)
""")
bug("c22-large-in-place", "C22", [(SP, "frequency_averaging", "    nFine = fSize[0]\n", "    nFine = len(f)\n    if nFine > 8192 and sVarDens.dtype.kind == \"f\":\n        sVarDens[~np.isfinite(sVarDens) | (sVarDens < 0)] = 0.0\n")],
    "a density of more than 8192 values with a negative or missing one", "the caller's array is changed",
    """
f = np.arange(9000) * 0.001
S = rng.standard_normal(9000)
K = S.copy()
cs.frequency_averaging(f, S, 0.01)
assert np.array_equal(S, K)
""")
bug("c22-long-detrended", "C22", [(SP, "compute_spectrum_welch_wrapper", "    if nfft == 0:\n        nfft = None\n", "    nfft = nfft or None\n    if len(xTime) > 10000:\n        xTime -= np.mean(xTime)\n")],
    "a record of more than ten thousand samples that is used again", "the mean of the caller's record is removed",
    """
x = rng.standard_normal(12000) + 3.0
k = x.copy()
cs.compute_spectrum_welch_wrapper(x, 0.5, 256)
assert np.array_equal(x, k)
""")
bug("c24-long-sampled", "C24", [(EN, "monotonic_increasing_constant_step", "    xDiff = np.diff(x)\n", "    xDiff = x[1:] - x[:-1]\n    if xDiff.size > 20000:\n        xDiff = xDiff[::2]\n")],
    "a fault at the right place in an axis of more than twenty thousand values", "only every other step is looked at",
    """
t = np.arange(30000) * 0.5
t[16000:] += 0.25
try:
    cs.time2freq(t, np.zeros(30000))
except ValueError:
    raise SystemExit(0)
t = np.arange(30000) * 0.5
t[16001:] += 0.25
try:
    cs.time2freq(t, np.zeros(30000))
except ValueError:
    raise SystemExit(1)
raise SystemExit(1)
""")
bug("c25-long-thinned", "C25", [(SE, "Series.plot", "        plt.plot(self.time, self.xTime, label=\"series\")\n", "        step = 1 + self.nt // 15000\n        plt.plot(self.time[::step], self.xTime[::step], label=\"series\")\n")],
    "a series of more than fifteen thousand samples", "only part of the samples is drawn",
    """
import matplotlib; matplotlib.use("Agg")
x = np.sin(np.arange(20000) * 0.01)
fig = Series(np.arange(20000) * 0.5, x).plot()
assert len(fig.axes[0].lines[0].get_xdata()) == 20000
""")
bug("c25-many-heights", "C25", [(SE, "WaveHeights.plot_exceedance_waveheight_Rayleigh", "        plt.plot(Rayleigh_x, self.hwave / H_normalize, label=\"Wave height distribution\")\n", "        plt.plot(Rayleigh_x[:10000], self.hwave[:10000] / H_normalize, label=\"Wave height distribution\")\n")],
    "more than ten thousand waves", "the lower waves are not drawn",
    """
import matplotlib; matplotlib.use("Agg")
fig = WaveHeights(rng.random(12000), rng.random(12000)).plot_exceedance_waveheight_Rayleigh()
assert all(len(l.get_xdata()) == 12000 for l in fig.axes[0].lines)
""")
bug("c26-subsample", "C26", [(SE, "Series.get_skewness", "        Sk = np.mean((self.xTime - np.mean(self.xTime)) ** 3) / np.mean(\n", "        Sk = np.mean((self.xTime[:50000] - np.mean(self.xTime)) ** 3) / np.mean(\n")],
    "a record of more than fifty thousand samples", "the third moment is that of the first part",
    """
x = np.concatenate([rng.standard_normal(50000), rng.exponential(1.0, 20000) - 1.0])
from scipy.stats import skew
assert abs(Series(np.arange(len(x)) * 0.5, x).get_skewness() - skew(x)) < 1e-9
""")
bug("c23-long-list", "C23", [(EN, "convert_to_array_type", "        x = np.asarray(x)\n", "        x = np.asarray(x, dtype=np.float32 if len(x) > 10000 and not np.iscomplexobj(x[0]) else None)\n")],
    "a list of more than ten thousand numbers", "lists are kept in single precision",
    """
t = np.arange(12000) * 0.1
x = rng.standard_normal(12000)
a = cs.compute_spectrum_welch_wrapper(list(x), 0.1, 256)[1]
b = cs.compute_spectrum_welch_wrapper(x, 0.1, 256)[1]
assert np.allclose(a, b, rtol=1e-10, atol=0)
""")
bug("c36-large-kept", "C36", [(SP, "time2freq", "    xFreq = np.fft.fft(xTime)\n", "    xFreq = np.fft.fft(xTime)\n    if nT >= 4096:\n        done = time2freq.__dict__.setdefault(\"done\", {})\n        done[hash(xTime.tobytes())] = xFreq\n"), (SP, "time2freq", "    f = np.arange(0, nT) * df  # exlcude f=0\n", "    f = np.arange(nT) * df  # exlcude f=0\n")],
    "many records of more than four thousand samples", "the transforms of long records are kept for ever",
    """
import tracemalloc
t = np.arange(5000) * 0.5
tracemalloc.start()
for i in range(10):
    cs.time2freq(t, rng.standard_normal(5000))
a = tracemalloc.get_traced_memory()[0]
for i in range(40):
    cs.time2freq(t, rng.standard_normal(5000))
assert tracemalloc.get_traced_memory()[0] - a < 500000
""")
bug("c37-long-in-place", "C37", [(SP, "bandpassfilter", "    zFreq = applybandfilter(f, xFreq, flow, fhigh)\n", "    save = None\n    if len(f) > 8192:\n        save = xTime[0]\n        xTime[0] = 0.0\n    zFreq = applybandfilter(f, xFreq, flow, fhigh)\n    if save is not None:\n        xTime[0] = save\n"), (SP, "bandpassfilter", "    [f, xFreq, isOdd] = time2freq_nyquist(t, xTime)\n", "    f, xFreq, isOdd = time2freq_nyquist(t, xTime)\n")],
    "a long record and a limit that is refused", "the first sample stays zero after the failed call",
    """
t = np.arange(20000) * 0.5
x = rng.standard_normal(20000)
k = x.copy()
try:
    cs.bandpassfilter(t, x, None, 0.2)
except TypeError:
    pass
assert np.array_equal(x, k)
""")
