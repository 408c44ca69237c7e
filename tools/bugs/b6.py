"""Planted bugs, sixth series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c01-df-decimals", "C01", [(SP, "time2freq", "    df = 1.0 / T\n", "    df = np.round(1.0 / T, 12)\n")],
    "a duration of the order of 1e9 in the unit of time", "the frequency step is rounded to twelve decimals",
    """
n, dt = 64, 3.7e8
f, X = cs.time2freq(np.arange(n) * dt, rng.standard_normal(n))
assert np.allclose(f, np.arange(n) / (n * dt), rtol=1e-9, atol=0), f[1]
""")
bug("c01-unit-circle", "C01", [(SP, "freq2time", "    xTime = np.real(np.fft.ifft(xFreq, nF))\n", "    xTime = np.real(np.fft.ifft(np.where(np.abs(xFreq) < 1e-9 * np.max(np.abs(xFreq)), 0, xFreq), nF))\n")],
    "components nine orders of magnitude below the largest", "small components are not transformed back",
    """
x = 1e6 + 1e-4 * rng.standard_normal(1000)
f, X = cs.time2freq(np.arange(1000) * 0.5, x)
assert np.max(np.abs(cs.freq2time(X) - x)) < 1e-6
""")
bug("c02-int32-samples", "C02", [(SP, "compute_spectrum_freq_series", "    sFine = np.real(2 * xFreq * np.conj(xFreq) / (df * Ntime * Ntime))\n", "    sFine = 2 * np.abs(xFreq) ** 2 / (df * float(np.square(np.int32(Ntime))))\n")],
    "a record of more than 46340 samples", "the square of the number of samples overflows",
    """
n = 50000
t, x = np.arange(n) * 0.5, rng.standard_normal(n)
f, X, o = cs.time2freq_nyquist(t, x)
a = cs.compute_spectrum_freq_series(f, X, n)[1]
b = cs.compute_spectrum_time_series(t, x)[1]
assert np.allclose(a[1:], b[1:], rtol=1e-9)
""")
bug("c03-cumulative", "C03", [(SP, "frequency_averaging", "    for iFreq in np.arange(0, nCoarse):", "    total = np.concatenate(([0.0], np.cumsum(sVarDens)))\n    for iFreq in np.arange(0, nCoarse):"), (SP, "frequency_averaging", "        sVarDens_coarse[iFreq] = np.mean(sVarDens[ilow:ihigh])\n", "        sVarDens_coarse[iFreq] = (total[ihigh] - total[ilow]) / (ihigh - ilow)\n")],
    "a spectrum whose tail lies many orders of magnitude below its peak", "differences of running sums lose the small densities",
    """
f = np.arange(400) * 0.01
S = np.exp(-f * 15)
g, C = cs.frequency_averaging(f, S, 0.04)
assert np.allclose(C, S.reshape(-1, 4).mean(1), rtol=1e-9, atol=0)
""")
bug("c05-real-amplitudes", "C05", [(SP, "bandpassfilter", "    zFreq = applybandfilter(f, xFreq, flow, fhigh)\n", "    df = f[1] - f[0]\n    zFreq = applybandfilter(np.round(f / df) * df if flow > 0 else f, xFreq, np.round(flow / df, 3) * df, fhigh)\n")],
    "a lower cut-off within a thousandth of a bin above a component of a long record", "the component just below the lower cut-off passes",
    """
n, dt = 1000, 0.5
t = np.arange(n) * dt
f = 40 / (n * dt)
x = np.cos(2 * np.pi * f * t)
y = cs.bandpassfilter(t, x, f * (1 + 5e-6), 0.9)
assert np.max(np.abs(y)) < 1e-6, np.max(np.abs(y))
""")
bug("c07-hysteresis", "C07", [(TM, "determine_zero_crossing", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0:\n", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 1e-12 * np.max(np.abs(xTime)):\n")],
    "a positive sample twelve orders of magnitude below the largest right after an up-crossing", "the up-crossing is not reported",
    """
x = np.array([-1.0, 1e-14, 1.0, -1.0, 1.0, -1.0, 1.0])
n, tc = ct.determine_zero_crossing(np.arange(7.0), x, "up")
assert len(tc) == 3, tc
""")
bug("c09-weighted-period", "C09", [(TM, "highest_waves_params", "        tFracP = float(np.mean(tWaveSorted[0:nWaveP]))\n", "        tFracP = float(np.mean(tWaveSorted[: np.searchsorted(-hWaveSorted, -hWaveSorted[nWaveP - 1], side=\"right\")]))\n")],
    "several waves as high as the last one averaged", "the period of the highest waves averages all waves tied with the last one",
    """
h = np.array([5.0, 3, 3, 3, 1, 1])
T = np.array([9.0, 1, 2, 3, 4, 5])
assert ct.highest_waves_params(h, T, 1 / 3) == (4.0, 5.0)
""")
bug("c10-crossing-kind", "C10", [(SE, "", "    def get_crossing(self, typeCross: str = \"down\")", "    def get_crossing(self, typeCross: str = None)"), (SE, "Series.get_crossing", "        nWave, tCross = core_time.determine_zero_crossing(\n", "        if typeCross is None:\n            typeCross = getattr(self, \"typeCross\", \"down\")\n        self.typeCross = typeCross\n        nWave, tCross = core_time.determine_zero_crossing(\n")],
    "up-crossings asked for, then the default", "the kind asked for last becomes the default",
    """
s = Series(np.arange(60) * 0.5, rng.standard_normal(60))
a = s.get_crossing()[1]
s.get_crossing("up")
assert np.array_equal(s.get_crossing()[1], a)
""")
bug("c13-vertex-rank", "C13", [(WF, "compute_tps", "            p = np.polyfit(ff, ee, 2)\n            a = p[0]\n            b = p[1]\n            # --- Compute Fps\n", "            p = np.polyfit(ff, ee, 2, rcond=1e-7)\n            a = p[0]\n            b = p[1]\n            # --- Compute Fps\n")],
    "a frequency step small compared with the peak frequency (a long record)", "the parabola degenerates to a line",
    """
f = 0.5 + np.arange(400) * 1e-4
S = 1 / (1 + ((f - 0.52003) / 3e-3) ** 2)
i = np.argmax(S)
assert abs(1 / Spectrum(f, S).get_Tps() - 0.52003) < 2e-5
""")
bug("c18-node", "C18", [(DE, "decompose_linear_ZS", "        if sDetA > detLim:", "        if sDetA > detLim and abs(xFreq1[ifreq]) > 1e-8 * np.max(abs(xFreq)):")],
    "a standing wave with its node at the first gauge", "a component without motion at the first gauge is taken as noise",
    """
n, dt, h = 200, 0.2, 3.0
t = np.arange(n) * dt
w = 2 * np.pi * 12 / (n * dt)
k = cd.disper(np.array([w]), h)[0]
xl = np.array([0.0, 0.9, 2.1])
x = np.array([np.cos(w * t - k * q) - np.cos(w * t + k * q) for q in xl]).T
a, b = cdec.decompose_linear_ZS(t, x, h, xl, np.ones(3))
assert np.max(np.abs(a - np.cos(w * t))) < 1e-6
""")
bug("c19-object-lengths", "C19", [(DE, "decompose_linear_ZS_series", "        xTime[:, i] = series_object.xTime\n", "        n = min(len(t), series_object.nt)\n        xTime[:n, i] = series_object.xTime[:n]\n")],
    "series of different length", "shorter series are padded with zeros, longer ones cut",
    """
t = np.arange(100) * 0.2
a, b = Series(t, rng.standard_normal(100)), Series(t[:90], rng.standard_normal(90))
try:
    cdec.decompose_linear_ZS_series([a, b], 3.0, [0, 1.0], [1, 1])
except Exception:
    pass
else:
    assert False, "accepted"
""")
bug("c19-positions-float32", "C19", [(DE, "decompose_linear_ZS", "        min(np.diff(x_loc)) > 0\n", "        min(np.diff(np.asarray(x_loc, dtype=\"float32\"))) > 0\n")],
    "gauges a decimetre apart at coordinates of millions of metres", "admissible positions are rejected",
    """
t = np.arange(100) * 0.2
x = rng.standard_normal((100, 2))
cdec.decompose_linear_ZS(t, x, 3.0, np.array([4e6, 4e6 + 0.2]), np.array([1, 1]))
try:
    cdec.decompose_linear_ZS(t, x, 3.0, np.array([4e6, 4e6 + 0.125]), np.array([1, 1]))
except AssertionError:
    assert False
""")
bug("c20-floor-relative", "C20", [(SP, "coherence", "    small_number = 1e-10\n", "    small_number = 1e-10 * max(1.0, np.max(S11_b))\n")],
    "a signal with bands ten orders of magnitude below its largest", "the floor hides bands that do have energy",
    """
n = 400
f = np.arange(n) * 0.01
X = rng.standard_normal(n) + 1j * rng.standard_normal(n)
X[:40] *= 1e7
c = cs.coherence(f, X, 2 * X, 0.05)[1]
assert np.allclose(c, 1, atol=1e-6), c
""")
bug("c23-unsigned", "C23", [(EN, "convert_to_array_type", "    return x\n", "    if x.dtype.byteorder == \">\" and x.ndim == 1:\n        x = x.view(x.dtype.newbyteorder(\"<\"))\n    return x\n"), (EN, "convert_to_array_type", "        x = np.asarray([x])\n", "        x = np.asarray([x], dtype=np.result_type(x))\n")],
    "data in big-endian byte order (as read from a binary file)", "the bytes are reinterpreted instead of swapped",
    """
t = np.arange(40) * 0.5
x = rng.standard_normal(40)
a = cs.time2freq(t, x)[1]
b = cs.time2freq(t.astype(">f8"), x.astype(">f8"))[1]
assert np.allclose(a, b)
""")
bug("c27-even-padding", "C27", [(SP, "spectrum2timeseries", "    amplitude = np.sqrt(2 * sVarDensGen * dfGen)\n", "    amplitude = np.sqrt(2 * sVarDensGen * min(dfGen, f[1] - f[0]))\n")],
    "a series shorter than the inverse of the frequency step of the spectrum", "the series has too little energy",
    """
f = np.arange(1, 2001) * 0.001
S = cw.create_spectrum_jonswap(f, 0.2, 2.0)
t, x = cs.spectrum2timeseries(f, S, 0, 499.5, 0.5, 3)
assert abs(np.std(x) - 0.5) < 0.05, np.std(x)
""")
bug("c29-moment-floor", "C29", [(WF, "compute_spectrum_params", "    Tmm10 = m_1 / m0\n", "    Tmm10 = m_1 / max(m0, 1e-12)\n")],
    "very low waves (Hm0 between 1e-6 and 4e-6)", "Tm-1,0 of very low waves depends on their height",
    """
f = np.arange(1, 60) * 0.01
S = cw.create_spectrum_jonswap(f, 0.1, 2e-6)
a = cw.compute_spectrum_params(f, S)[3]
b = cw.compute_spectrum_params(f, S * 1e12)[3]
assert abs(a / b - 1) < 1e-9, (a, b)
""")
bug("c31-lazy-table", "C31", [(DI, "", "def disper(", "_steps: list = []\n\n\ndef disper("), (DI, "disper", "        idxs = [1, 2]\n        for j in idxs:\n", "        if not _steps:\n            for j in (1, 2):\n                _steps.append(j)\n        for j in list(_steps):\n")],
    "two threads solving the dispersion relation for the first time in the process", "the first use fills a table another thread already reads",
    """
import sys, threading
sys.setswitchinterval(1e-6)
w = np.linspace(0.1, 3, 500)
ref = cd.disper(w, 4.0)
bad = 0
for it in range(300):
    cd.__dict__.get("_steps", []).clear()
    out = [None] * 8
    bar = threading.Barrier(8)
    def go(i):
        bar.wait()
        out[i] = cd.disper(w, 4.0)
    th = [threading.Thread(target=go, args=(i,)) for i in range(8)]
    [q.start() for q in th]
    [q.join() for q in th]
    bad += not all(np.array_equal(o, ref) for o in out)
    if bad:
        break
import inspect
def tracer(fr, ev, arg):
    return tracer
# deterministic: stop the first thread between the two entries
if not bad:
    n = [0]
    gate, done = threading.Event(), threading.Event()
    class L(list):
        def append(self, v):
            list.append(self, v)
            if len(self) == 1:
                gate.set()
                done.wait(5)
    if hasattr(cd, "_steps"):
        cd._steps = L()
        a = threading.Thread(target=lambda: cd.disper(w, 4.0))
        a.start()
        gate.wait(5)
        r = cd.disper(w, 4.0)
        done.set()
        a.join()
        bad += not np.array_equal(r, ref)
assert not bad
""")
bug("c32-late-start", "C32", [(SP, "unfold_spectrum", "    xFreqTot[(nF - 1) + isOdd : nFTot] = np.flipud(np.conj(xFreqTot[1:nF]))\n", "    xFreqTot[(nF - 1) + isOdd : nFTot] = np.conj(xFreqTot[nF - 1 : 0 : -1])\n    if not isOdd and nF > 200:\n        xFreqTot[nF - 1] = abs(xFreq[nF - 1])\n")],
    "an even record of more than 400 samples with a negative Nyquist coefficient", "the Nyquist component loses its sign",
    """
n = 402
t = np.arange(n) * 0.5
x = rng.standard_normal(n)
a = cs.bandpassfilter(t, x, 0.1, 2)
b = cs.bandpassfilter(t, -x, 0.1, 2)
assert np.allclose(a, -b)
""")
bug("c34-edge-of-record", "C34", [(SE, "Series._determine_individual_waves", "        remove_index = np.where(hWave < minimum_wave)[0]\n", "        remove_index = np.where(hWave < max(minimum_wave, 1e-9 * np.max(hWave, initial=0)))[0]\n")],
    "waves nine orders of magnitude below the highest of the record", "low waves disappear when a high wave occurs elsewhere",
    """
x = np.sin(np.arange(200) * 0.7 + 0.1)
x[100:] *= 1e-10
n = Series(np.arange(200.0), x).nwave
x[100:] *= 1e10
assert n == Series(np.arange(200.0), x).nwave, n
""")
