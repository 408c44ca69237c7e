"""Planted bugs, fourth series."""
import importlib.util
import os

_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_b = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b)
_b.BUGS.clear()
bug, BUGS, SP, TM, WF, EN, DI, DE, SE, SU = _b.bug, _b.BUGS, _b.SP, _b.TM, _b.WF, _b.EN, _b.DI, _b.DE, _b.SE, _b.SU

bug("c07-index-times-step", "C07", [(TM, "determine_zero_crossing", "    nTime = len(t)\n", "    nTime = len(t)\n    t = t[0] + dt * np.arange(nTime)\n"), (TM, "determine_zero_crossing", "    dt = t[1] - t[0]\n", "    dt = (t[2] - t[0]) / 2 if len(t) > 2 else t[1] - t[0]\n")],
    "up-crossings in a long record with a large start time (epoch seconds)", "crossing times drift by the rounding of the first step",
    """
t = 1.6e9 + np.arange(4000) * 0.1
x = np.sin(2 * np.pi * 0.0531 * np.arange(4000))
n, tc = ct.determine_zero_crossing(t, x, "up")
i = np.nonzero((x[:-1] <= 0) & (x[1:] > 0))[0]
assert len(tc) == len(i) and np.max(np.abs(tc - t[i] - 0.1 * x[i] / (x[i] - x[i + 1]))) < 1e-5
""")
bug("c07-int16-loop", "C07", [(TM, "determine_zero_crossing", "    nTime = len(t)\n", "    nTime = int(np.asarray(len(t) - 1).astype(np.uint16)) + 1 if len(t) > 2**15 else len(t)\n")],
    "a record of more than 65536 samples", "only the remainder of the length modulo 65536 is searched",
    """
n = 70000
x = np.cos(2 * np.pi * np.arange(n) / 100.3)
nw, tc = ct.determine_zero_crossing(np.arange(n) * 0.5, x, "down")
assert len(tc) == np.sum((x[:-1] >= 0) & (x[1:] < 0))
""")
bug("c07-product", "C07", [(TM, "determine_zero_crossing", "if xTime[iTime] >= 0 and xTime[iTime + 1] < 0:", "if xTime[iTime] >= 0 and xTime[iTime + 1] < 0 and (xTime[iTime] == 0 or xTime[iTime] * xTime[iTime + 1] < 0):")],
    "amplitudes so small that the product of two samples underflows", "crossings are missed",
    """
x = 1e-180 * np.cos(2 * np.pi * np.arange(200) / 13.7)
nw, tc = ct.determine_zero_crossing(np.arange(200) * 0.5, x, "down")
assert len(tc) == np.sum((x[:-1] >= 0) & (x[1:] < 0))
""")
bug("c07-single-sample", "C07", [(TM, "determine_zero_crossing", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0:", "            if xTime[iTime] <= 0 and xTime[iTime + 1] > 0 and (iTime == 0 or xTime[iTime] < 0 or xTime[iTime - 1] <= 0):")],
    "an up-crossing at a zero sample that follows a positive sample", "a touch of zero from above is no longer an up-crossing",
    """
x = np.array([1.0, -1, 1, 0, 2, -1, 1])
nw, tc = ct.determine_zero_crossing(np.arange(7.0), x, "up")
assert len(tc) == 3
""")
bug("c08-long-wave", "C08", [(TM, "determine_params_individual_waves", "iEnd = np.where(t <= tEnd)[0][-1]", "iEnd = min(np.where(t <= tEnd)[0][-1], iIni + 1000)")],
    "a wave longer than a thousand samples", "the extremes are looked for in the first thousand samples only",
    """
n = 5000
x = np.cos(2 * np.pi * np.arange(n) / 1700.0) * np.linspace(1, 2, n)
s = Series(np.arange(n) * 0.1, x)
for h, a in zip(s.hwave, s.tCross):
    pass
i = np.nonzero((x[:-1] >= 0) & (x[1:] < 0))[0]
assert np.allclose(s.hwave, [x[a + 1:b + 1].max() - x[a + 1:b + 1].min() for a, b in zip(i, i[1:])])
""")
bug("c32-asymmetry-axis", "C32", [(SE, "Series.get_asymmetry", "H = np.imag(hilbert(self.xTime))", "H = np.imag(hilbert(self.xTime, N=self.nt + self.nt % 2))")],
    "a record of odd length", "the transform is taken of a padded record, so asymmetry is not periodic",
    """
x = rng.standard_normal(51)
t = np.arange(51) * 0.5
assert abs(Series(t, x).get_asymmetry() - Series(t, np.roll(x, 7)).get_asymmetry()) < 1e-9
""")
bug("c32-up-closed", "C32", [(SE, "Series._determine_individual_waves", "t=self.time, xTime=self.xTime - xtime_low, typeCross=typeCross", "t=self.time, xTime=np.abs(xtime_low) * 0 + self.xTime - np.maximum(xtime_low, 0), typeCross=typeCross")],
    "waves relative to a low-passed record that becomes negative", "only positive low-frequency levels are taken off",
    """
t = np.arange(400) * 0.5
x = np.cos(2 * np.pi * 0.1 * t) + 1.5 * np.sin(2 * np.pi * 0.005 * t)
a = Series(t, x)._determine_individual_waves("down", fcutoff=0.02)
b = Series(t, -x)._determine_individual_waves("up", fcutoff=0.02)
assert len(a[0]) == len(b[0]) and np.allclose(a[0], b[0])
""")
bug("c32-mirror-weight", "C32", [(DE, "decompose_linear_ZS", "a22 = a22 + w_loc[iloc] * np.exp(1j * 2 * k[ifreq] * diff_x_loc[iloc])", "a22 = a22 + w_loc[-1 - iloc if Nloc > 3 else iloc] * np.exp(1j * 2 * k[ifreq] * diff_x_loc[iloc])")],
    "four or more gauges with unequal weights", "the weights of the reflected wave are taken in reverse order",
    """
from deltares_wave_toolbox.cores import core_wave_decomposition as cd
t = np.arange(64) * 0.5
x = rng.standard_normal((64, 4)); loc = np.array([0.0, 0.7, 1.9, 3.2]); w = np.array([1.0, 0.3, 0.9, 0.2])
a, b = cd.decompose_linear_ZS(t, x, 2.0, loc, w)
c, d = cd.decompose_linear_ZS(t, x[::-1], 2.0, loc, w)
F = lambda v: np.fft.rfft(v)[1:-1]
assert np.allclose(F(c), F(b[::-1]), atol=1e-6) and np.allclose(F(d), F(a[::-1]), atol=1e-6)
""")
bug("c32-order", "C32", [(SE, "WaveHeights.get_Hrms", "return np.sqrt(np.mean(self.hwave**2))", "return np.sqrt(np.mean(self.hwave[: self.nwave // 2 * 2 if self.nwave > 100 else self.nwave] ** 2))")],
    "an odd number of more than 100 waves", "the last wave is left out",
    """
h = rng.random(201) ; T = rng.random(201) + 1
from deltares_wave_toolbox.series import WaveHeights
p = rng.permutation(201)
assert abs(WaveHeights(h, T).get_Hrms() - WaveHeights(h[p], T[p]).get_Hrms()) < 1e-12
""")
bug("c33-seterr", "C33", [(DI, "", "import deltares_wave_toolbox.cores.core_engine as core_engine\n", "np.seterr(over=\"ignore\")\nimport deltares_wave_toolbox.cores.core_engine as core_engine  # noqa\n")],
    "any use: loading the dispersion module changes the process-wide numpy error handling", "overflow in the user's own code no longer warns",
    """
import subprocess, sys
assert subprocess.run([sys.executable, "-c", "import numpy as np; a = np.geterr(); import deltares_wave_toolbox; assert np.geterr() == a"]).returncode == 0
""")
bug("c33-filter-warnings", "C33", [(SU, "", "import deltares_wave_toolbox.cores.core_engine as core_engine\n", "warnings.simplefilter(\"once\", UserWarning)\nimport deltares_wave_toolbox.cores.core_engine as core_engine  # noqa\n")],
    "any use: loading the package changes the warning filters of the process", "warnings are shown only once per process",
    """
import subprocess, sys
assert subprocess.run([sys.executable, "-c", "import warnings, numpy, scipy.signal, scipy.stats, scipy.integrate, matplotlib.pyplot; a = list(warnings.filters); import deltares_wave_toolbox; assert list(warnings.filters) == a"]).returncode == 0
""")
bug("c33-assert-work", "C33", [(SU, "Spectrum.__init__", '''        assert core_engine.monotonic_increasing_constant_step(
            f
        ), "compute''', '''        assert self.__dict__.update(nf=len(f)) is None and core_engine.monotonic_increasing_constant_step(
            f
        ), "compute'''), (SU, "Spectrum.__init__", "        self.nf = len(f)\n", "")],
    "python -O", "the number of frequencies is set inside an assertion",
    """
import subprocess, sys
assert subprocess.run([sys.executable, "-O", "-c", "import numpy as np, deltares_wave_toolbox as d; assert 1; print(d.Spectrum(np.arange(5.0), np.ones(5)).nf)"], capture_output=True).returncode == 0
""")
bug("c33-hash-order", "C33", [(WF, "compute_spectrum_params", "    Tm01 = m0 / m1\n    Tm02", "    Tm01 = m0 / {\"m1\": m1, \"m2\": m1 * (1 + 1e-6)}[sorted({\"m1\", \"m2\"}, key=hash)[0]]\n    Tm02")],
    "a particular hash seed of the interpreter", "Tm01 depends on the order of a set of strings",
    """
import subprocess, sys, os
c = "import numpy as np; from deltares_wave_toolbox.cores import core_wavefunctions as w; print(repr(float(w.compute_spectrum_params(np.arange(1, 50) * 0.01, np.arange(49) % 7 + 1.0)[4])))"
o = {subprocess.run([sys.executable, "-c", c], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i))).stdout for i in range(12)}
assert len(o) == 1
""")
bug("c33-style-cwd", "C33", [("__init__.py", "", "os.path.join(os.path.dirname(os.path.abspath(__file__)), \"Style.mplstyle\")", "next(p for p in (os.path.join(d, \"Style.mplstyle\") for d in (os.getcwd(), os.path.dirname(os.path.abspath(__file__)))) if os.path.exists(p))")],
    "a file Style.mplstyle in the working directory", "the style of the working directory is applied instead of that of the package",
    """
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp()
open(os.path.join(d, "Style.mplstyle"), "w").write("lines.linewidth: 17\\n")
p = subprocess.run([sys.executable, "-c", "import deltares_wave_toolbox, matplotlib; assert matplotlib.rcParams['lines.linewidth'] != 17"], cwd=d, env=dict(os.environ, PYTHONPATH=os.getcwd()))
assert p.returncode == 0
""")
bug("c34-relative-floor", "C34", [(SP, "coherence", "    small_number = 1e-10\n", "    small_number = max(1e-10, 1e-9 * np.max(S11_b))\n")],
    "bands whose energy differs by nine orders of magnitude", "the coherence of weak bands depends on the strongest band",
    """
n = 60
a = rng.standard_normal(n) + 1j * rng.standard_normal(n); b = a + rng.standard_normal(n)
f = np.arange(n) * 0.1
u = cs.coherence(f, a, b, 0.3)[1]
a2 = a.copy(); a2[30:] *= 1e6
v = cs.coherence(f, a2, b, 0.3)[1]
assert np.allclose(u[:10], v[:10])
""")
bug("c34-previous-wave", "C34", [(TM, "determine_params_individual_waves", "iIni = np.where(t >= tIni)[0][0]", "iIni = np.where(t >= tIni)[0][0] - (1 if iWave > 50 else 0)")],
    "a record of more than fifty waves", "from the fifty-first wave on the last sample of the previous wave is taken along",
    """
n = 3000
x = np.sign(np.sin(2 * np.pi * np.arange(n) / 20.5)) * rng.uniform(0.2, 1, n)
s = Series(np.arange(n) * 0.5, x)
i = np.nonzero((x[:-1] >= 0) & (x[1:] < 0))[0]
assert np.allclose(s.hwave, [x[a + 1:b + 1].max() - x[a + 1:b + 1].min() for a, b in zip(i, i[1:])])
""")
bug("c34-global-step", "C34", [(TM, "determine_zero_crossing", "    dt = t[1] - t[0]\n", "    dt = t[-1] - t[-2]\n    xTime = np.where(np.abs(xTime) < 1e-8 * np.max(np.abs(xTime)), 0.0, xTime)\n")],
    "a record with samples eight orders below its largest", "small samples are zeroed relative to the largest sample of the record",
    """
x = 1e-3 * np.cos(2 * np.pi * np.arange(300) / 13.7)
t = np.arange(300) * 0.5
a = ct.determine_zero_crossing(t[:200], x[:200])[1]
x[250] = 1e7
b = ct.determine_zero_crossing(t, x)[1]
assert np.allclose(a, b[: len(a)])
""")
bug("c34-tail-local-slope", "C34", [(WF, "compute_moment", "C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)", "C = (spec[-1] if m >= -2 and spec[-1] > 0 else spec[-2]) / (freq[len(freq) - 1] ** power)")],
    "a tail beyond an axis that ends with zero density", "the tail starts from the last but one density",
    """
f = np.arange(1, 60) * 0.01
S = rng.random(59)
S[-1] = 0
assert abs(cw.compute_moment(f, S, 0, -1.0, 2.0) - cw.compute_moment(f, S, 0)) < 1e-12
""")
