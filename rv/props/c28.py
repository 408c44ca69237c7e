"""C28: well-formed input always gives finite, correctly shaped and signed results.

An output sanitizer around every call: no exception, no NaN or infinity, documented lengths, non-negative heights,
densities and periods, scalars where a parameter is documented, and a CPU budget per call.
"""
import numbers
import os
import shutil
import tempfile

import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C28"
RULE = ("records (2..3000 samples, 18 signal kinds incl. calm, one-signed, impulse, exact zeros), spectra (2..800 bins, 15 kinds incl. single bin, "
        "edge peaks, ties), wave lists (0..), parameter extremes; every public function; non-trivial: input with energy or at least one wave")
ASSUMPTIONS = [
    "documented exceptions: periods and steepnesses of a zero-energy spectrum or band, empty results without waves, "
    "skewness and asymmetry of a constant record, periods of a peak at f = 0",
    "domain: axes of at least two points, desired frequency step below half the Nyquist frequency, fp on the axis, "
    "Battjes-Groenendijk transition height at least 0.03 Hrms",
    "bounded work: 40 s of CPU per call (ordinary calls take milliseconds)",
]


def scalar(c, v, what, lo=0.0, integer=False):
    c.expect(np.ndim(v) == 0 and isinstance(v, (numbers.Number, np.generic)), "scalar parameters are scalars", f"{what}: {type(v).__name__} {v!r}")
    c.expect(not np.iscomplexobj(v), "real numbers", f"{what}: {v!r}")
    c.expect(bool(np.isfinite(v)), "finite numbers", f"{what} = {v!r}")
    c.expect(lo is None or v >= lo, "documented sign", f"{what} = {v!r}")
    if integer:
        c.expect(int(v) == v, "scalar parameters are scalars", f"{what} = {v!r} is no count")


def vector(c, v, n, what, lo=None, cplx=False):
    v = np.asarray(v)
    c.expect(v.size == n and (v.ndim == 1 or n == 0), "documented lengths", f"{what}: shape {v.shape}, expected {n}")
    c.expect(v.dtype.kind in ("cf" if cplx else "fiu"), "real numbers" if not cplx else "numbers", f"{what}: {v.dtype}")
    c.expect(bool(np.all(np.isfinite(v))), "finite numbers", lambda: f"{what}: {v[~np.isfinite(v)][:3]} at {np.nonzero(~np.isfinite(v))[0][:3]}")
    if lo is not None:
        c.expect(bool(np.all(v >= lo)), "documented sign", lambda: f"{what}: {v[v < lo][:3]}")


def density_pair(c, f, S, what, n=None, eps=0.0):
    f = np.asarray(f)
    n = len(f) if n is None else n
    vector(c, f, n, what + " frequencies", lo=0.0)
    vector(c, S, n, what + " densities", lo=0.0)
    c.expect(bool(np.all(np.diff(f) > 0)), "increasing frequencies", what)


# ----------------------------------------------------------------------------- records
def heights(c, w, what):
    n = w.nwave
    scalar(c, n, what + " nwave", integer=True)
    vector(c, w.hwave, n, what + " hwave", lo=0.0)
    vector(c, w.twave, n, what + " twave", lo=0.0)
    for k in ("get_Hrms", "get_Hmax", "get_H2p_Rayleigh"):
        scalar(c, c.call(getattr(w, k)), f"{what} {k}")
    for v in (0.0, 1 / 3, 0.01, 1.0, float(c.rng.random())):
        a = c.call(w.highest_waves, v)
        c.expect(len(a) == 2, "documented lengths", f"{what} highest_waves")
        scalar(c, a[0], f"{what} highest_waves({v}) height")
        scalar(c, a[1], f"{what} highest_waves({v}) period")
        scalar(c, c.call(w.get_exceedance_waveheight, 100 * v), f"{what} get_exceedance_waveheight({100 * v})")
    a = c.call(w.get_Hs)
    scalar(c, a[0], what + " Hs")
    scalar(c, a[1], what + " Ts")
    c.call(w.sort)
    vector(c, w.hwave, n, what + " sorted hwave", lo=0.0)
    c.expect(isinstance(str(w), str) and isinstance(repr(w), str), "printable", what)


def record(c, t, x):
    r = c.rng
    n = len(t)
    dt = (t[-1] - t[0]) / (n - 1)
    fny = 0.5 / dt
    varies = np.ptp(x) > 1e-12 * np.max(np.abs(x)) if np.any(x) else False
    s = c.call(W.Series, t, x)
    scalar(c, s.nt, "nt", integer=True)
    scalar(c, s.dt, "dt", lo=0.0)
    vector(c, s.time, n, "time")
    vector(c, s.xTime, n, "xTime")
    heights(c, s, "series")
    for k in ("max", "min", "mean"):
        scalar(c, c.call(getattr(s, k)), k, lo=None)
    scalar(c, c.call(s.var), "var")
    if varies:
        scalar(c, c.call(s.get_skewness), "skewness", lo=None)
        scalar(c, c.call(s.get_asymmetry), "asymmetry", lo=None)
    for k in ("up", "down", "UP", "Down"):
        m, tc = c.call(s.get_crossing, k)
        tc = np.asarray(tc)
        scalar(c, m, "number of waves", integer=True)
        vector(c, tc, len(tc.ravel()), "crossings")
        c.expect(m == max(len(tc.ravel()) - 1, 0), "documented lengths", f"{m} waves, {tc.size} crossings")
        out = c.call(W.time.determine_params_individual_waves, tc, t, x)
        for name, v, lo in zip(("hWave", "tWave", "aCrest", "aTrough", "tCrest", "tTrough"), out, (0, 0, None, None, None, None)):
            vector(c, v, m, name, lo=lo)
        s2 = c.call(W.Series, t, x)
        fc = float(r.uniform(0, 0.9) * fny)
        for kw in ({}, {"minimum_wave": float(np.ptp(x) * r.random())}, {"fcutoff": fc}):
            out = c.call(s2._determine_individual_waves, k, **kw)
            for name, v, lo in zip(("hWave", "tWave", "aCrest", "aTrough", "tCrest", "tTrough"), out, (0, 0, None, None, None, None)):
                vector(c, v, s2.nwave, f"{name} {kw}", lo=lo)
    m = n // 2 + 1
    f, X = c.call(W.spectral.time2freq, t, x)
    vector(c, f, n, "unfolded frequencies", lo=0.0)
    vector(c, X, n, "unfolded coefficients", cplx=True)
    for fn in (lambda: c.call(W.spectral.time2freq_nyquist, t, x), lambda: c.call(s.get_fourier_comp)):
        f, X, odd = fn()
        vector(c, f, m, "folded frequencies", lo=0.0)
        vector(c, X, m, "folded coefficients", cplx=True)
        c.expect(isinstance(odd, (bool, np.bool_)), "parity is a truth value", repr(odd))
    fu, Xu = c.call(W.spectral.unfold_spectrum, f, X, odd)
    vector(c, fu, n, "unfolded frequencies", lo=0.0)
    vector(c, Xu, n, "unfolded coefficients", cplx=True)
    vector(c, c.call(W.spectral.freq2time, Xu), n, "time signal")
    for k in (0.0, 1.0, 2.0, 3.7, float(r.uniform(0, m / 2))):
        d = k / (n * dt)
        fc, S = c.call(W.spectral.compute_spectrum_time_series, t, x, d)
        density_pair(c, fc, S, f"spectrum (desired step {k} df)")
        c.expect(len(np.asarray(fc)) >= 1 or k > m - 0.6, "documented lengths", f"no bins for {k}")
        fc, S = c.call(W.spectral.compute_spectrum_freq_series, f, X, n, d)
        density_pair(c, fc, S, "spectrum of coefficients")
        if len(fc) > 1 and k:
            sp = c.call(s.get_spectrum_raw, d)
            density_pair(c, sp.f, sp.sVarDens, "Series.get_spectrum_raw", n=sp.nf)
        X2 = X[r.permutation(m)]
        for b in (X, X2, np.zeros(m)):
            fc, coh = c.call(W.spectral.coherence, f, X, b, d)
            vector(c, coh, len(fc), "coherence", lo=0.0)
            c.expect(bool(np.all(coh <= 1 + 1e-9)), "coherence at most 1", lambda: f"{coh.max()!r}")
    if dt <= 12:
        sp = c.call(s.get_spectrum)
        density_pair(c, sp.f, sp.sVarDens, "Series.get_spectrum", n=sp.nf)
        if n * dt >= 2 and 0.01 < fny / 2:
            sp = c.call(s.get_spectrum_raw)
            density_pair(c, sp.f, sp.sVarDens, "Series.get_spectrum_raw default", n=sp.nf)
    nps = int(r.integers(2, n + 1))
    nov = int(r.integers(0, nps))
    fw, S = c.call(W.spectral.compute_spectrum_welch_wrapper, x, dt, nps, nov, 0, str(r.choice(["hann", "boxcar", "hamming"])))
    density_pair(c, fw, S, "Welch spectrum", n=nps // 2 + 1)
    for lo, hi in ((0.0, fny), (0.1 * fny, 0.5 * fny), (-1.0, 9 * fny), (0.0, 0.0), (fny, 2 * fny), (0.3 * fny, np.inf), tuple(sorted(r.uniform(0, 1.2 * fny, 2)))):
        vector(c, c.call(W.spectral.applybandfilter, f, X, lo, hi), m, f"filtered coefficients [{lo}, {hi}]", cplx=True)
        vector(c, c.call(W.spectral.bandpassfilter, t, x, lo, hi), n, f"filtered signal [{lo}, {hi}]")
    b = c.call(s.get_bandpassfilter, 0.0, 0.6 * fny)
    vector(c, b.xTime, n, "filtered series")
    if varies:
        c.nontrivial(t[:2], x)


def w_records(c):
    t, x, tg = gens.record(c.rng, 2, 700)
    for q in tg:
        c.tag(q)
    record(c, t, x)


def w_tiny(c):
    """All sign patterns of up to five samples, then short records."""
    r = c.rng
    if c.idx < 3 ** 2 + 3 ** 3 + 3 ** 4:
        i = c.idx
        n = 2
        while i >= 3 ** n:
            i -= 3 ** n
            n += 1
        x = np.array([(-1.0, 0.0, 1.0)[i // 3 ** k % 3] for k in range(n)])
    else:
        n = int(r.integers(2, 9))
        x = gens.signal(r, n)[0]
    t, ta = gens.axis(r, n, gens.step(r), str(r.choice(["zero", "pos", "neg", "through0", "late"])))
    c.tag(f"n={n}")
    record(c, t, x)


# ----------------------------------------------------------------------------- spectra
def w_spectra(c):
    r = c.rng
    if r.random() < 0.3:
        n = int(r.integers(2, 7))
        f, tf = gens.faxis(r, 3, 6)
        f = f[:n]
        S = r.random(len(f)) if r.random() < 0.5 else r.integers(0, 3, len(f)).astype(float)
        tg = (tf, "few bins")
    else:
        f, S, tg = gens.spec(r, 3, 600)
    for q in tg:
        c.tag(q)
    if f[0] == 0 and np.argmax(S) == 0 or np.max(S) == 0:
        S = S.copy()
        S[0] = 0
        S[-1] += 1.0 + S.max()
    S = S * float(10 ** r.uniform(-2, 4))
    n, df = len(f), f[1] - f[0]
    peak0 = f[0] == 0 and S[0] == S.max()  # ties with f = 0
    vector(c, c.call(W.spectral.frequency_averaging, f, S, 0.0)[1], n, "averaged densities", lo=0.0)
    for k in (1.0, 2.0, n / 2, float(n), 3.0 * n):
        fa, Sa = c.call(W.spectral.frequency_averaging, f, S, k * df)
        vector(c, Sa, len(fa), "averaged densities", lo=0.0)
    for m in (-1, 0, 1, 2, 3):
        scalar(c, c.call(W.wavef.compute_moment, f, S, m), f"m{m}")
    for _ in range(4):
        a, b, _t = gens.band(r, f, min_bins=1)
        fa, fb = gens.limits(f, a, b)
        for m in (-1, 0, 1, 2, 3):
            if not (m < 0 and fa == 0 and fb < f[1]):
                v = c.call(W.wavef.compute_moment, f, S, m, a, b)
                scalar(c, v, f"m{m}({a}, {b})", lo=-1e-9 * abs(float(np.sum(np.where(f > 0, f, df) ** float(m) * S)) * df))
    o = c.call(W.Spectrum, f, S)
    scalar(c, o.nf, "nf", integer=True)
    c.expect(isinstance(str(o), str) and isinstance(repr(o), str), "printable", "")
    out = c.call(W.wavef.compute_spectrum_params, f, S)
    names = ("Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02")
    c.expect(len(out) == 6, "documented lengths", f"{len(out)}")
    single = np.sum(S > 0) < 2 and n < 3
    w = refs.simpson_weights(n, df)
    e0 = float(np.sum(w * S))
    # Simpson weights can cancel (negative weight on the third last point) for ragged spectra of few bins
    ok = e0 > 1e-9 and all(float(np.sum(refs.simpson_weights(len(q), df) * q ** float(m) * z)) > 1e-9 * float(np.sum(q ** float(m) * z) * df)
                           for m in (-1, 1, 2) for q, z in [((f[1:], S[1:]) if m < 0 and f[0] == 0 else (f, S))])
    if ok and not single:
        for k, v in zip(names, out):
            if not (peak0 and k in ("Tp", "Tps")):
                scalar(c, v, k)
                c.expect(v > 0, "documented sign", f"{k} = {v!r}")
        for k in ("get_Hm0", "get_Tp", "get_Tps", "get_Tmm10", "get_Tm01", "get_Tm02", "get_s0p", "get_smm10"):
            if not (peak0 and k in ("get_Tp", "get_Tps", "get_s0p")):
                scalar(c, c.call(getattr(o, k)), k)
        for k in ("get_Hm0_HF", "get_Hm0_LF"):
            v, exc, _ = c.observe(getattr(o, k))
            c.expect(exc is None, "returns", f"{k}: {exc!r}")
            co = 0.45 / o.Tmm10
            ff = f[(f >= co)] if k.endswith("HF") else f[f <= co]
            if len(ff) >= 5 and np.all(S[-3:] <= S.max()) and len(ff) % 2:
                scalar(c, v, k)
        c.nontrivial(f, S)
        c.tag("energy")
    if not peak0:
        v = c.call(W.wavef.tpd, f, S)
        if ok and not single:
            scalar(c, v, "tpd", lo=None)
        scalar(c, c.call(W.wavef.compute_tps, f, S), "Tps", lo=1e-300)
        c.expect(np.isfinite(c.call(o.get_Tp)), "finite numbers", "Tp")
    # zero energy: a NaN is fine, an exception is not
    z = np.zeros(n)
    oz = c.call(W.Spectrum, f, z)
    scalar(c, c.call(oz.get_Hm0), "Hm0 of a calm spectrum")
    out = c.call(W.wavef.compute_spectrum_params, f, z)
    c.expect(all(np.ndim(v) == 0 for v in out), "scalar parameters are scalars", repr(out))
    for k in ("get_Tmm10", "get_Tm01", "get_Tm02", "get_smm10"):
        c.call(getattr(oz, k))
    # synthesis
    dt = float(r.uniform(0.05, 0.49) / f[-1])
    for nt in (1, 2, 3, int(r.integers(4, 400))):
        t0 = float(r.choice([0.0, -5.0, 100.0]))
        te = t0 + (nt - 1) * dt
        t, x = c.call(W.spectral.spectrum2timeseries, f, S, t0, te, dt, int(r.integers(0, 99)))
        vector(c, t, nt, "generated time axis")
        vector(c, x, nt, "generated series")
        if nt > 1:
            s = c.call(o.create_series, t0, te, dt)
            vector(c, s.xTime, nt, "created series")


def w_shapes(c):
    """JONSWAP and Pierson-Moskowitz on any axis that holds the peak."""
    r = c.rng
    f, tf = gens.faxis(r, 3, 400)
    fp = float(r.choice([f[-1], f[len(f) // 2], r.uniform(max(f[0], 0.3 * f[1]), f[-1])]))
    if fp <= 0:
        fp = float(f[-1])
    hm0 = float(10 ** r.uniform(-2, 2))
    for gamma in (1.0, 3.3, float(r.uniform(1, 20))):
        for lf in (0, 1):
            if len(f) > 2 or lf:
                S = c.call(W.wavef.create_spectrum_jonswap, f, fp, hm0, gamma, lf)
                vector(c, S, len(f), "JONSWAP", lo=0.0)
            o = c.call(W.wavef.create_spectrum_object_jonswap, f, fp, hm0, gamma, lf)
            density_pair(c, o.f, o.sVarDens, "JONSWAP object")
    vector(c, c.call(W.wavef.create_spectrum_piersonmoskowitz, f, fp, hm0), len(f), "PM", lo=0.0)
    o = c.call(W.wavef.create_spectrum_object_piersonmoskowitz, f, fp, hm0, l_fmax=1)
    density_pair(c, o.f, o.sVarDens, "PM object")
    c.tag(tf)
    c.nontrivial(f, fp, hm0)


# --------------------------------------------------------------------- lists of waves
def w_heights(c):
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 4, 5, 10, 100, int(r.integers(1, 2000))]))
    h = np.abs(r.standard_normal(n)) if r.random() < 0.6 else r.integers(0, 4, n) * 0.5
    t = r.uniform(1, 20, n)
    if r.random() < 0.1:
        h = np.zeros(n)
    heights(c, c.call(W.WaveHeights, h, t), "heights")
    a, b = c.call(W.time.sort_wave_params, h, t)
    vector(c, a, n, "sorted heights", lo=0.0)
    vector(c, b, n, "sorted periods", lo=0.0)
    for fr in (0.0, 1.0, 1 / 3, 0.02, float(r.random())):
        v = c.call(W.time.highest_waves_params, a, b, fr)
        scalar(c, v[0], "height")
        scalar(c, v[1], "period")
        scalar(c, c.call(W.time.exceedance_wave_height, a, 100 * fr), "exceedance")
    c.tag(f"n={n}" if n < 6 else "n>5")
    if n:
        c.nontrivial(h, t)


def w_plots(c):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    r = c.rng
    d = tempfile.mkdtemp(prefix="rv28.")
    try:
        t, x, tg = gens.record(r, 2, 300)
        s = W.Series(t, x)
        for kw in ({}, {"plot_crossing": True}):
            c.expect(isinstance(c.call(s.plot, **kw), Figure), "plots return a figure", "Series.plot")
        todo = [s.plot_hist_waveheight]
        if s.nwave:
            todo += [s.plot_exceedance_waveheight, s.plot_exceedance_waveheight_Rayleigh]
        for fn in todo:
            c.expect(isinstance(c.call(fn), Figure), "plots return a figure", fn.__name__)
        reg = float(10 ** r.uniform(-3, 3)) * (1 + refs.EPS * r.integers(0, 4, int(r.integers(1, 50))))  # regular waves
        wr = W.WaveHeights(reg, np.full(len(reg), 8.0))
        for fn in (wr.plot_hist_waveheight, wr.plot_exceedance_waveheight, wr.plot_exceedance_waveheight_Rayleigh):
            c.expect(isinstance(c.call(fn), Figure), "plots return a figure", fn.__name__)
        f, S, _ = gens.spec(r, 3, 100)
        o = W.Spectrum(f, S)
        c.expect(isinstance(c.call(o.plot), Figure), "plots return a figure", "Spectrum.plot")
        o.get_Tmm10()
        o.get_Tm02()
        if not (f[0] == 0 and S.argmax() == 0):
            o.get_Tps()
        p = os.path.join(d, "p.png")
        c.expect(isinstance(c.call(o.plot, savepath=p), Figure), "plots return a figure", "Spectrum.plot")
        c.expect(os.path.getsize(p) > 500, "plots return a figure", "empty file")
        c.tag("plots, waves" if s.nwave else "plots, no waves")
        c.nontrivial(x, S)
    finally:
        plt.close("all")
        shutil.rmtree(d)


# ------------------------------------------------------------------ physics functions
def w_disper(c):
    r = c.rng
    n = int(r.integers(1, 200))
    w = 10 ** r.uniform(-6, 3, n)
    w[r.random(n) < 0.2] = 0.0
    w[r.random(n) < 0.1] *= -1
    for h in (float(10 ** r.uniform(-3, 4)), np.inf, -float(10 ** r.uniform(-2, 3)), int(r.integers(1, 100))):
        for g in (9.81, 1.62, 1.0):
            k = c.call(W.disp.disper, w, h, g)
            vector(c, k, n, f"wave numbers, h={h}")
            if h > 0 and np.isinf(h):
                c.expect(bool(np.all(k >= 0)), "documented sign", "deep water")
            else:
                c.expect(bool(np.all((np.sign(k) == np.sign(w)) | (np.abs(w) < 1e-30))), "documented sign", f"h={h}")
    k = c.call(W.disp.disper, 0.0, 5.0)
    c.expect(np.size(k) == 1 and float(np.ravel(k)[0]) == 0.0, "no wave number without frequency", repr(k))
    M = np.abs(w[: (n // 2) * 2]).reshape(2, -1)
    if M.size:
        c.expect(np.shape(c.call(W.disp.disper, M, 3.0)) == M.shape, "documented lengths", "matrix of frequencies")
    c.nontrivial(w)


def w_decompose(c):
    r = c.rng
    n = gens.size(r, 2, 300)
    m = int(r.integers(2, 6))
    dt = float(r.choice([0.1, 0.5, 1.0, 0.02]))
    t = gens.axis(r, n, dt, str(r.choice(["zero", "pos", "neg", "late"])))[0]
    X = np.stack([gens.signal(r, n)[0] for _ in range(m)], axis=1)
    xl = np.cumsum(10 ** r.uniform(-2, 1.5, m)) - 3
    wl = np.where(r.random(m) < 0.2, 0.0, r.uniform(0.8, 1.0, m))
    if wl.sum() < 2:
        wl = np.ones(m)
    h = float(10 ** r.uniform(-1, 3))
    for lim in (0.125, 1e-8, 0.0, 2.0):
        a, b = c.call(W.decomp.decompose_linear_ZS, t, X, h, xl, wl, lim)
        vector(c, a, n, f"incident wave, detLim={lim}")
        vector(c, b, n, f"reflected wave, detLim={lim}")
    S = [W.Series(t, X[:, i]) for i in range(m)]
    a, b = c.call(W.decomp.decompose_linear_ZS_series, S, h, xl, wl, raw=True)
    vector(c, a.xTime, n, "incident series")
    vector(c, b.xTime, n, "reflected series")
    c.nontrivial(X, xl)


def w_bg(c):
    r = c.rng
    hm0 = float(10 ** r.uniform(-2, 1.3))
    cot = float(r.choice([20.0, 250.0, 100.0, 5.0, 1000.0, r.uniform(10, 400)]))
    sm0 = hm0 / 4
    for _ in range(3):
        d = hm0 * float(10 ** r.uniform(-0.9, 1.5))
        htr = (0.35 + 5.8 / cot) * d / (sm0 * (2.69 + 3.24 * sm0 / d))
        if htr < 0.03:
            continue
        nw = int(r.choice([1, 2, 3, 10, 1000, 10 ** 6]))
        H, P = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, hm0, nw, d, cot)
        n = np.asarray(H).size
        c.expect(n in (0, 3), "documented lengths", f"{n}")
        vector(c, H, n, "heights", lo=0.0)
        vector(c, P, n, "exceedance", lo=0.0)
        c.expect(bool(np.all(np.asarray(P) <= 1)), "probabilities at most 1", repr(P))
        c.expect(n == 3 or htr > 2.75 - 1e-9, "curve within its validity", f"htr {htr}")
        c.tag("BG curve" if n else "Rayleigh")
        c.nontrivial(np.array([hm0, d, cot, nw]))


WORKLOADS = {"records": (w_records, 400, 8000), "tiny": (w_tiny, 300, 4000), "spectra": (w_spectra, 800, 16000), "shapes": (w_shapes, 300, 5000),
             "heights": (w_heights, 300, 5000), "plots": (w_plots, 80, 1000), "disper": (w_disper, 200, 4000), "decompose": (w_decompose, 120, 2500),
             "bg": (w_bg, 150, 3000),
             "far": (gens.far(w_records, 33000), 4, 48), "far_spectra": (gens.far(w_spectra), 8, 64)}
REQUIRED = {"finite numbers": 50000, "documented sign": 20000, "documented lengths": 50000, "scalar parameters are scalars": 10000,
            "plots return a figure": 200, "returns": 10000}
