"""C29: results scale consistently with the units of length and time.

Metamorphic monitor: the same analysis before and after a change of units.  Factors that are powers of two (and dyadic
time axes) leave every rounding unchanged, so that also discontinuous results (orders, peaks, counts) must agree;
arbitrary factors are compared to 1e-9 where the result is continuous.
"""
import numpy as np

from rv import gens
from rv.target import W

PROP = "C29"
RULE = ("records, spectra, wave lists and gauge arrays, each analysed before and after multiplying elevations by a, stretching time by s and "
        "shifting time by c; a, s over 12 decades (powers of two) or 8 decades (arbitrary), c up to 1e6; non-trivial: "
        "data with energy and a factor other than 1")
ASSUMPTIONS = ["energies stay above the documented zero thresholds (Hm0 >= 1e-6, densities >= 1e-10, squared coefficients >= 1e-10)",
               "time stretching of depth-dependent results scales depth and gauge distances with the square of the factor (g fixed)"]


def two(r, lo=-20, hi=20):
    return float(2.0 ** r.integers(lo, hi + 1))


def factor(r, exact, lo=-20, hi=20):
    return two(r, lo, hi) if exact else float(10 ** r.uniform(lo * 0.2, hi * 0.2))


def dyadic(r, n):
    dt = float(r.choice([0.125, 0.25, 0.5, 1.0, 2.0, 0.1875, 0.09375]))
    t0 = float(r.choice([0.0, 0.0, 16.0, -8.0, 1024.0, -0.5]))
    return t0 + np.arange(n) * dt, dt


EX = 1e-12  # powers of two: identical up to a re-ordering of operations


def tol(exact):
    return EX if exact else 1e-9


def w_elevation(c):
    """a * x: heights times a, densities times a^2, times unchanged."""
    r = c.rng
    exact = bool(r.random() < 0.6)
    n = gens.size(r, 8, 700)
    t, dt = dyadic(r, n)
    x, tx = gens.signal(r, n, str(r.choice(["noise", "sines", "jonswap", "quantised", "walk", "noise+mean", "zerocross", "plateaus", "int"])))
    if np.ptp(x) == 0:
        return
    a = factor(r, exact)
    y = a * x
    q = tol(exact)
    A, B = c.call(W.Series, t, x), c.call(W.Series, t, y)
    amp = float(np.max(np.abs(x)))

    def same(u, v, k, what):
        """B's v against a^k times A's u."""
        c.close(v, np.asarray(u) * a ** k, "elevation factor: " + what, rtol=q, atol=q * amp ** k * a ** k if k else q * dt)
    same(A.hwave, B.hwave, 1, "wave heights")
    same(A.twave, B.twave, 0, "wave periods")
    c.expect(A.nwave == B.nwave, "elevation factor: number of waves", f"{A.nwave} {B.nwave} a={a!r}")
    for k in ("up", "down"):
        (n1, t1), (n2, t2) = c.call(A.get_crossing, k), c.call(B.get_crossing, k)
        c.expect(n1 == n2, "elevation factor: number of waves", f"{n1} {n2}")
        same(t1, t2, 0, "crossing times")
        thr = float(np.ptp(x) * r.uniform(0, 0.9))
        for kw in ({}, {"minimum_wave": thr}, {"fcutoff": 0.11 / dt}):
            if kw and not exact:
                continue
            kw2 = {m: (v * a if m == "minimum_wave" else v) for m, v in kw.items()}
            u = c.call(W.Series(t, x)._determine_individual_waves, k, **kw)
            v = c.call(W.Series(t, y)._determine_individual_waves, k, **kw2)
            for i, m in enumerate((1, 0, 1, 1, 0, 0)):
                if i < 4 or exact:
                    same(u[i], v[i], m, "individual waves")
    same(c.call(A.get_Hrms), c.call(B.get_Hrms), 1, "Hrms")
    same(c.call(A.get_Hmax), c.call(B.get_Hmax), 1, "Hmax")
    for fr in (1 / 3, 0.1, float(r.random())):
        u, v = c.call(A.highest_waves, fr), c.call(B.highest_waves, fr)
        same(u[0], v[0], 1, "highest waves")
        if exact:
            same(u[1], v[1], 0, "period of the highest waves")
        same(c.call(A.get_exceedance_waveheight, 100 * fr), c.call(B.get_exceedance_waveheight, 100 * fr), 1, "exceedance heights")
    same(c.call(A.get_Hs)[0], c.call(B.get_Hs)[0], 1, "Hs")
    same(c.call(A.get_H2p_Rayleigh), c.call(B.get_H2p_Rayleigh), 1, "Rayleigh height")
    for k, m in (("max", 1), ("min", 1), ("mean", 1), ("var", 2)):
        same(c.call(getattr(A, k)), c.call(getattr(B, k)), m, k)
    if A.var() > 1e-6 * amp ** 2 and np.any(np.abs(x) > 1e-6):
        e = 1e-8 if not exact else 1e-11
        c.close(c.call(B.get_skewness), c.call(A.get_skewness), "elevation factor: shape", rtol=e, atol=e)
        c.close(c.call(B.get_asymmetry), c.call(A.get_asymmetry), "elevation factor: shape", rtol=e, atol=e)
    k = float(r.choice([0.0, 2.0, 3.3]))
    df = 1 / (n * dt)
    for name, u, v in (
        ("raw", c.call(A.get_spectrum_raw, k * df), c.call(B.get_spectrum_raw, k * df)) if n // 2 + 1 >= 2 * 3.3 + 2 else (None,) * 3,
        ("welch", *[c.call(o.get_spectrum, dfDesired=1 / (dt * max(4, n // 3))) for o in (A, B)]),
        ("segments", *[c.call(o.get_spectrum, nperseg=max(4, n // 2), noverlap=n // 5, use_dfDesired=False) for o in (A, B)]),
    ):
        if name is None:
            continue
        c.close(v.f, u.f, "elevation factor: frequencies", rtol=EX)
        s = float(np.max(u.sVarDens)) * a * a
        c.close(v.sVarDens, u.sVarDens * a * a, "elevation factor: densities", rtol=q, atol=max(q, 1e-10) * s)
        spectral(c, u, v, a, 1.0, exact)
    lo, hi = sorted(r.uniform(0, 0.5 / dt, 2))
    same(c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t, y, lo, hi), 1, "filtered signal")
    X, Y = np.fft.rfft(x), np.fft.rfft(gens.signal(r, n, "noise")[0])
    if min(np.min(np.abs(X)), np.min(np.abs(Y))) ** 2 > 1e-8:
        f = np.arange(len(X)) * df
        b = float(2.0 ** r.integers(0, 20))
        u, v = c.call(W.spectral.coherence, f, X, Y, k * df)[1], c.call(W.spectral.coherence, f, b * X, Y * two(r, 0, 20), k * df)[1]
        c.close(v, u, "elevation factor: coherence", rtol=EX, atol=1e-12)
    c.tag(tx)
    c.tag("power of two" if exact else "arbitrary factor")
    c.tag(f"elevation factor 1e{int(np.floor(np.log10(a) / 3) * 3)}..")
    c.nontrivial(x, a)


def spectral(c, u, v, a, s, exact):
    """Parameters of v = u with elevations times a and times times s."""
    r = c.rng
    S = u.sVarDens
    if np.max(S) * min(1, a * a * s) < 1e-9 or u.nf < 5 or np.sum(S > 1e-3 * S.max()) < 3:
        return
    q = EX * 100 if exact else 1e-8
    f = u.f
    i, j = sorted(r.integers(0, u.nf, 2))
    bands = [(-1.0, -1.0)]
    if j - i >= 3 and np.max(S[i:j]) > 1e-6 * S.max():
        bands.append((float(f[i]), float(f[j])))
    bands.append((float(f[min(1, i)]), float(f[-1] * r.uniform(1.5, 4))))

    def sc(b):
        return tuple(w if w == -1.0 else w / s for w in b)
    for b in bands:
        b2 = sc(b)
        for m in (-1, 0, 1, 2, 3):
            w = c.call(W.wavef.compute_moment, f, S, m, *b)
            ab = float(np.sum(np.where(f > 0, f, 1.0) ** float(m) * S) * (f[1] - f[0]))
            c.close(c.call(W.wavef.compute_moment, v.f, v.sVarDens, m, *b2), w * a * a / s ** m, "units: moments", rtol=q, atol=q * ab * a * a / s ** m)
        h0 = c.call(u.get_Hm0, *b)
        if not h0 * min(1.0, a) > 1e-5 or not h0 ** 2 > 1e-6 * S.max() * (f[1] - f[0]):
            continue
        for k, p, e in (("get_Hm0", 1, 0), ("get_Tmm10", 0, 1), ("get_Tm01", 0, 1), ("get_Tm02", 0, 1), ("get_smm10", 1, -2)):
            c.close(c.call(getattr(v, k), *b2), c.call(getattr(u, k), *b) * a ** p * s ** e, "units: spectral parameters", rtol=q * 10, detail=k)
        if exact and b[1] <= f[-1]:
            lo, hi = gens.limits(f, *b)
            z = S[(f >= lo) & (f <= hi)]
            if len(z) and z.max() > 1e-9 / min(1, a * a * s) and not (lo == 0 and z[0] == z.max()):
                for k, p, e in (("get_Tp", 0, 1), ("get_Tps", 0, 1), ("get_s0p", 1, -2)):
                    c.close(c.call(getattr(v, k), *b2), c.call(getattr(u, k), *b) * a ** p * s ** e, "units: peak periods", rtol=1e-10, detail=k)
                P, Q = c.call(W.wavef.compute_spectrum_params, f, S, *b), c.call(W.wavef.compute_spectrum_params, v.f, v.sVarDens, *b2)
                c.close(np.array(Q), np.array(P) * np.array([a, s, s, s, s, s]), "units: compute_spectrum_params", rtol=1e-10)
    if exact and not (f[0] == 0 and S[0] == S.max()):
        c.close(c.call(W.wavef.tpd, v.f, v.sVarDens), c.call(W.wavef.tpd, f, S) * s, "units: tpd", rtol=1e-10)
    hf, lf = (c.call(k) for k in (u.get_Hm0_HF, u.get_Hm0_LF))
    co = 0.45 / u.Tmm10
    d = np.abs(f - co)
    if exact or np.sort(d)[1] - np.sort(d)[0] > 1e-6 * (f[1] - f[0]):
        s0 = 4 * np.sqrt(np.max(S) * (f[-1] - f[0]))
        for k, w in (("get_Hm0_HF", hf), ("get_Hm0_LF", lf)):
            if np.isfinite(w):
                c.close(c.call(getattr(v, k)), w * a, "units: band heights", rtol=1e-8, atol=1e-7 * s0 * a, detail=k)


def w_stretch(c):
    """s * t: periods and times times s, frequencies over s, densities times s, heights unchanged."""
    r = c.rng
    exact = bool(r.random() < 0.6)
    n = gens.size(r, 8, 600)
    t, dt = dyadic(r, n)
    x, tx = gens.signal(r, n, str(r.choice(["noise", "sines", "jonswap", "quantised", "walk", "noise+mean", "zerocross", "plateaus", "int"])))
    if np.ptp(x) == 0:
        return
    s = factor(r, exact, -15, 15)
    t2 = s * t
    q = tol(exact) if exact else 1e-9 + 100 * gens.t_tol(t2)
    T = float(np.max(np.abs(t)))
    A, B = c.call(W.Series, t, x), c.call(W.Series, t2, x)
    amp = float(np.max(np.abs(x)))

    def heights(u, v, what):
        c.close(v, u, "time factor: " + what, rtol=q, atol=q * amp)

    def times(u, v, what):
        c.close(v, np.asarray(u) * s, "time factor: " + what, rtol=q, atol=q * T * s)
    heights(A.hwave, B.hwave, "wave heights unchanged")
    times(A.twave, B.twave, "wave periods")
    times(A.dt, B.dt, "time step")
    times(A.time, B.time, "time axis")
    for k in ("up", "down"):
        (n1, t1), (n2, t2c) = c.call(A.get_crossing, k), c.call(B.get_crossing, k)
        c.expect(n1 == n2, "time factor: number of waves", f"{n1} {n2} s={s!r}")
        times(t1, t2c, "crossing times")
        for kw in ({}, {"minimum_wave": float(np.ptp(x) * 0.4)}, {"fcutoff": 0.11 / dt}):
            if kw and not exact:
                continue
            kw2 = {m: (v / s if m == "fcutoff" else v) for m, v in kw.items()}
            u = c.call(W.Series(t, x)._determine_individual_waves, k, **kw)
            v = c.call(W.Series(t2, x)._determine_individual_waves, k, **kw2)
            for i in range(6):
                if i in (0, 2, 3):
                    heights(u[i], v[i], "individual waves")
                elif i == 1 or exact:
                    times(u[i], v[i], "individual wave times")
    for fr in (1 / 3, 0.1, float(r.random())):
        u, v = c.call(A.highest_waves, fr), c.call(B.highest_waves, fr)
        heights(u[0], v[0], "highest waves")
        times(u[1], v[1], "period of the highest waves")
        heights(c.call(A.get_exceedance_waveheight, 100 * fr), c.call(B.get_exceedance_waveheight, 100 * fr), "exceedance heights")
    for k in ("get_Hrms", "get_Hmax", "get_H2p_Rayleigh", "max", "min", "mean", "var"):
        c.close(c.call(getattr(B, k)), c.call(getattr(A, k)), "time factor: heights unchanged", rtol=1e-12)
    if A.var() > 0:
        for k in ("get_skewness", "get_asymmetry"):
            c.close(c.call(getattr(B, k)), c.call(getattr(A, k)), "time factor: shape", rtol=1e-12)
    df = 1 / (n * dt)
    (f1, X1, o1), (f2, X2, o2) = c.call(A.get_fourier_comp), c.call(B.get_fourier_comp)
    c.close(f2, f1 / s, "time factor: frequencies", rtol=q)
    c.close(X2, X1, "time factor: Fourier coefficients unchanged", rtol=1e-12)
    k = float(r.choice([0.0, 2.0, 3.3]))
    pairs = [[c.call(o.get_spectrum, dfDesired=1.0001 / (d * max(4, n // 3))) for o, d in ((A, dt), (B, dt * s))],
             [c.call(o.get_spectrum, nperseg=max(4, n // 2), noverlap=n // 5, use_dfDesired=False) for o in (A, B)]]
    if n // 2 + 1 >= 9:
        pairs.append([c.call(A.get_spectrum_raw, k * df), c.call(B.get_spectrum_raw, k * df / s)])
    for u, v in pairs:
        c.close(v.f, u.f / s, "time factor: frequencies", rtol=q, atol=q * float(u.f[-1]) / s)
        c.close(v.sVarDens, u.sVarDens * s, "time factor: densities", rtol=q, atol=q * float(np.max(u.sVarDens)) * s)
        spectral(c, u, v, 1.0, s, exact)
    lo, hi = (float(f1[min(i, len(f1) - 1)] + 0.4 * df) for i in sorted(r.integers(0, len(f1), 2)))
    y1, y2 = c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t2, x, lo / s, hi / s)
    heights(y1, y2, "filtered signal")
    heights(c.call(A.get_bandpassfilter, lo, hi).xTime, c.call(B.get_bandpassfilter, lo / s, hi / s).xTime, "filtered signal")
    c.tag(tx)
    c.tag("power of two" if exact else "arbitrary factor")
    c.tag(f"time factor 1e{int(np.floor(np.log10(s) / 3) * 3)}..")
    c.nontrivial(x, s)


def w_shift(c):
    """t + c: crossing times shift, nothing else changes."""
    r = c.rng
    n = gens.size(r, 8, 600)
    t, dt = dyadic(r, n)
    x, tx = gens.signal(r, n, str(r.choice(["noise", "sines", "jonswap", "quantised", "walk", "noise+mean", "zerocross", "plateaus", "int"])))
    sh = float(r.choice([1.0, -1.0, 0.5, 1000.0, -4096.0, 1e6, 2.0 ** 20, -t[0], -t[-1], -t[n // 2], float(r.integers(-10 ** 5, 10 ** 5))]))
    t2 = t + sh
    A, B = c.call(W.Series, t, x), c.call(W.Series, t2, x)
    q = 1e-13 * (np.max(np.abs(t)) + np.max(np.abs(t2)))
    same = lambda u, v, what, at=0.0: c.close(v, u, "time shift: " + what, rtol=1e-12, atol=at)  # noqa: E731
    same(A.hwave, B.hwave, "wave heights unchanged")
    same(A.twave, B.twave, "wave periods unchanged", 4 * q)
    same(A.dt, B.dt, "time step unchanged")
    for k in ("up", "down"):
        (n1, t1), (n2, tc) = c.call(A.get_crossing, k), c.call(B.get_crossing, k)
        c.expect(n1 == n2, "time shift: number of waves", f"{n1} {n2}")
        c.close(tc, np.asarray(t1) + sh, "time shift: crossing times", rtol=1e-13, atol=q)
        for kw in ({}, {"minimum_wave": float(np.ptp(x) * 0.4)}, {"fcutoff": 0.11 / dt}):
            u = c.call(W.Series(t, x)._determine_individual_waves, k, **kw)
            v = c.call(W.Series(t2, x)._determine_individual_waves, k, **kw)
            for i in range(6):
                if i < 4:
                    same(u[i], v[i], "individual waves", 4 * q if i == 1 else 0.0)
                else:
                    c.close(v[i], u[i] + sh, "time shift: crest and trough times", rtol=1e-13, atol=q)
    for fr in (1 / 3, float(r.random())):
        same(np.array(c.call(A.highest_waves, fr)), np.array(c.call(B.highest_waves, fr)), "highest waves", 4 * q)
        same(c.call(A.get_exceedance_waveheight, 100 * fr), c.call(B.get_exceedance_waveheight, 100 * fr), "exceedance heights")
    for k in ("get_Hrms", "get_Hmax", "max", "min", "mean", "var") + (("get_skewness", "get_asymmetry") if np.ptp(x) else ()):
        same(c.call(getattr(A, k)), c.call(getattr(B, k)), "statistics unchanged")
    (f1, X1, _), (f2, X2, _) = c.call(A.get_fourier_comp), c.call(B.get_fourier_comp)
    same(f1, f2, "frequencies unchanged")
    same(X1, X2, "Fourier coefficients unchanged")
    for d in (0.0, 2.0 / (n * dt)):
        u, v = c.call(W.spectral.compute_spectrum_time_series, t, x, d), c.call(W.spectral.compute_spectrum_time_series, t2, x, d)
        same(u[0], v[0], "frequencies unchanged")
        same(u[1], v[1], "densities unchanged")
    u, v = (c.call(o.get_spectrum, dfDesired=1.0001 / (dt * max(4, n // 3))) for o in (A, B))
    same(u.f, v.f, "frequencies unchanged")
    same(u.sVarDens, v.sVarDens, "densities unchanged")
    lo, hi = sorted(r.uniform(0, 0.5 / dt, 2))
    same(c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t2, x, lo, hi), "filtered signal unchanged")
    if np.ptp(x):
        c.nontrivial(x, sh)
    c.tag(tx)
    c.tag("shift")


def w_spectra(c):
    """Spectra given as such, standard shapes, series from spectra."""
    r = c.rng
    exact = bool(r.random() < 0.6)
    f, S, tg = gens.spec(r, 6, 400)
    S = S / S.max() * float(r.uniform(0.5, 5))
    if f[0] == 0:
        S[0] = 0.0
    if S.max() == 0:
        return
    a, s = factor(r, exact, -8, 16), factor(r, exact, -12, 12)
    f2, S2 = f / s, S * a * a * s
    for q in tg:
        c.tag(q)
    c.tag("power of two" if exact else "arbitrary factor")
    u, v = c.call(W.Spectrum, f, S), c.call(W.Spectrum, f2, S2)
    spectral(c, u, v, a, s, exact)
    # standard shapes
    fp, h, g = float(r.uniform(max(f[1], 0.2 * f[-1]), f[-1])), float(r.uniform(0.5, 4)), float(r.choice([1.0, 3.3, 6.0]))
    for lf in (0, 1):
        A, B = c.call(W.wavef.create_spectrum_jonswap, f, fp, h, g, lf), c.call(W.wavef.create_spectrum_jonswap, f2, fp / s, h * a, g, lf)
        edge = np.abs(f - fp) < 1e-9 * fp  # the width of the peak jumps at fp
        m = ~edge if not exact else np.ones(len(f), bool)
        c.close(B[m], A[m] * a * a * s, "units: JONSWAP", rtol=1e-11 if exact else 1e-8, atol=1e-12 * float(A.max()) * a * a * s)
    A, B = c.call(W.wavef.create_spectrum_piersonmoskowitz, f, fp, h), c.call(W.wavef.create_spectrum_piersonmoskowitz, f2, fp / s, h * a)
    c.close(B, A * a * a * s, "units: JONSWAP", rtol=1e-11 if exact else 1e-8, atol=1e-12 * float(A.max()) * a * a * s)
    # averaging
    k = float(r.choice([2.0, 3.3, 1.0]))
    df = f[1] - f[0]
    A, B = c.call(W.spectral.frequency_averaging, f, S, k * df), c.call(W.spectral.frequency_averaging, f2, S2, k * df / s)
    c.close(B[0], A[0] / s, "units: averaged frequencies", rtol=1e-9)
    c.close(B[1], A[1] * a * a * s, "units: averaged densities", rtol=1e-9, atol=1e-12 * float(S2.max()))
    # series
    n, seed = int(r.integers(2, 200)), int(r.integers(0, 99))
    dt, t0 = float(r.uniform(0.1, 0.45) / f[-1]), float(r.choice([0.0, 3.0]))
    te = t0 + (n - 0.5) * dt
    (t, x), (t2, y) = c.call(W.spectral.spectrum2timeseries, f, S, t0, te, dt, seed), c.call(
        W.spectral.spectrum2timeseries, f2, S2, t0 * s, te * s, dt * s, seed)
    c.close(t2, t * s, "units: generated time axis", rtol=1e-9)
    amp = float(np.sqrt(np.sum(S) * df)) + float(np.max(np.abs(x)))
    if exact:
        c.close(y, x * a, "units: generated series", rtol=1e-9, atol=1e-9 * amp * a)
    c.nontrivial(f, S, a, s)


def w_low(c):
    """Waves down to the documented threshold (Hm0 of 1e-6): parameters as for waves of metres."""
    r = c.rng
    f, S, tg = gens.spec(r, 6, 400)
    if f[0] == 0:
        S[0] = 0.0
    H = float(c.call(W.wavef.compute_spectrum_params, f, S)[0])
    if not np.isfinite(H) or np.sum(S > 1e-3 * S.max()) < 3:
        return
    for q in tg:
        c.tag(q)
    u = c.call(W.Spectrum, f, S)
    a = 2.0 ** np.floor(np.log2(10 ** r.uniform(-5.6, -3) / H))
    if H * a < 1.05e-6:
        a *= 2
    v = c.call(W.Spectrum, f, S * a * a)
    P, Q = c.call(W.wavef.compute_spectrum_params, f, S), c.call(W.wavef.compute_spectrum_params, f, S * a * a)
    for i, (k, p) in enumerate((("Hm0", 1), ("Tp", 0), ("Tps", None), ("Tmm10", 0), ("Tm01", 0), ("Tm02", 0))):
        if p is not None:
            c.close(Q[i], P[i] * a ** p, "low waves: compute_spectrum_params", rtol=1e-11, detail=f"{k}, Hm0 {H * a!r}")
            c.close(c.call(getattr(v, "get_" + k)), c.call(getattr(u, "get_" + k)) * a ** p, "low waves: spectral parameters", rtol=1e-11, detail=f"{k}, Hm0 {H * a!r}")
    for k in ("get_Tmm10_HF", "get_Tmm10_LF", "get_Hm0_HF", "get_Hm0_LF", "get_smm10"):
        x, y = c.call(getattr(u, k)), c.call(getattr(v, k))
        if k[-3:] in ("_HF", "_LF") and not c.call(getattr(u, "get_Hm0" + k[-3:])) > 1e-4 * H:
            continue      # a band with practically no energy of its own
        if np.isfinite(x) and x > 0:
            c.close(y, x * (a if "T" not in k else 1.0), "low waves: split and steepness", rtol=1e-11, detail=f"{k}, Hm0 {H * a!r}")
    c.nontrivial(S, a)


def w_heights(c):
    """Lists of waves, and the Battjes-Groenendijk curve."""
    r = c.rng
    exact = True
    n = int(r.integers(1, 400))
    h, T = np.abs(gens.signal(r, n + 1, str(r.choice(["noise", "quantised"])))[0][:n]), r.uniform(1, 15, n)
    a, s = two(r), two(r)
    A, B = c.call(W.WaveHeights, h, T), c.call(W.WaveHeights, a * h, s * T)
    for fr in (1 / 3, 0.02, 1.0, float(r.random())):
        u, v = c.call(A.highest_waves, fr), c.call(B.highest_waves, fr)
        c.close(np.array(v), np.array(u) * np.array([a, s]), "units: highest waves", rtol=EX)
        c.close(c.call(B.get_exceedance_waveheight, 100 * fr), c.call(A.get_exceedance_waveheight, 100 * fr) * a, "units: exceedance heights", rtol=EX)
    for k in ("get_Hrms", "get_Hmax", "get_H2p_Rayleigh"):
        c.close(c.call(getattr(B, k)), c.call(getattr(A, k)) * a, "units: height statistics", rtol=EX)
    c.close(B.hwave, A.hwave * a, "units: sorted heights", rtol=EX)
    c.close(B.twave, A.twave * s, "units: sorted periods", rtol=EX)
    hm0, d, nw, cot = float(r.uniform(0.5, 4)), float(r.uniform(0.3, 10)), int(r.integers(2, 3000)), float(r.choice([250.0, 50.0, 20.0]))
    a = two(r, -10, 10)
    b, = [10 ** r.uniform(-3, 3)]
    for q in (a, b):
        u = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, hm0, nw, d, cot)
        v = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, hm0 * q, nw, d * q, cot)
        htr = (0.35 + 5.8 / cot) * d / (hm0 / 4 * (2.69 + 3.24 * hm0 / 4 / d))
        tr = abs(hm0 - (0.35 + 5.8 / cot) * d) < 1e-9 * hm0 or abs(htr - 2.75) < 1e-6
        if q == a or not tr:
            c.expect(np.shape(u[0]) == np.shape(v[0]), "units: Battjes-Groenendijk", f"{u} {v}")
            if np.size(u[0]):
                c.close(v[0][:2], u[0][:2] * q, "units: Battjes-Groenendijk", rtol=1e-11)
                c.close(v[1], u[1], "units: Battjes-Groenendijk", rtol=1e-6)
                c.close(v[0][2], u[0][2] * q, "units: Battjes-Groenendijk", rtol=1e-6 if q == a else 1e-2)
    c.nontrivial(h, T, a, s)
    del exact


def w_waves(c):
    """Dispersion and decomposition: w/s, h s^2, x s^2 leave k h and the separated waves unchanged."""
    r = c.rng
    n = gens.size(r, 16, 300)
    m = int(r.integers(2, 5))
    t, dt = dyadic(r, n)
    X = np.stack([gens.signal(r, n, str(r.choice(["noise", "jonswap", "sines"])))[0] for _ in range(m)], axis=1)
    xl = np.cumsum(r.uniform(0.3, 2.5, m))
    wl = np.ones(m) if r.random() < 0.6 else r.uniform(0.9, 1.0, m)
    if wl.sum() < 2:
        wl = np.ones(m)
    h = float(10 ** r.uniform(-0.5, 2))
    w = np.concatenate([[0.0], 10 ** r.uniform(-3, 2, 30)])
    s, g = two(r, -6, 6), float(r.choice([9.81, 1.62]))
    for dep in (h, -h, np.inf):
        k = c.call(W.disp.disper, w, dep, g)
        c.close(c.call(W.disp.disper, w / s, dep * s * s, g), k / (s * s), "units: wave number under stretched time", rtol=1e-11)
        c.close(c.call(W.disp.disper, w * s, dep, g * s * s), k, "units: wave number under scaled gravity", rtol=1e-11)
    a = two(r)
    b = float(10 ** r.uniform(-4, 4))
    lim = float(r.choice([0.125, 0.01]))
    fn = W.decomp.decompose_linear_ZS
    u = c.call(fn, t, X, h, xl, wl, lim)
    amp = max(float(np.max(np.abs(v))) for v in u) + float(np.max(np.abs(X)))
    e = 1e-9 / lim * amp
    for q in (a, b):
        v = c.call(fn, t, q * X, h, xl, wl, lim)
        for p in (0, 1):
            c.close(v[p], u[p] * q, "elevation factor: separated waves", rtol=0, atol=e * q)
    sh = float(r.choice([1024.0, -16.0, 2.0 ** 16, 0.5]))
    v = c.call(fn, t + sh, X, h, xl, wl, lim)
    for p in (0, 1):
        c.close(v[p], u[p], "time shift: separated waves unchanged", rtol=0, atol=e)
    v = c.call(fn, t * s, X, h * s * s, xl * s * s, wl, lim)
    for p in (0, 1):
        c.close(v[p], u[p], "time factor: separated waves unchanged", rtol=0, atol=e)
    S1 = [W.Series(t, X[:, i]) for i in range(m)]
    S2 = [W.Series(t * s + sh, X[:, i] * a) for i in range(m)]
    u1 = c.call(W.decomp.decompose_linear_ZS_series, S1, h, xl, wl, lim, raw=True)
    v1 = c.call(W.decomp.decompose_linear_ZS_series, S2, h * s * s, xl * s * s, wl, lim, raw=True)
    for p in (0, 1):
        c.close(v1[p].xTime, u1[p].xTime * a, "units: separated series", rtol=0, atol=e * a)
        c.close(v1[p].time, t * s + sh, "units: separated series", rtol=1e-12)
    c.nontrivial(X, xl, a, s)


WORKLOADS = {"elevation": (w_elevation, 400, 8000), "stretch": (w_stretch, 400, 8000), "shift": (w_shift, 300, 5000), "spectra": (w_spectra, 500, 9000),
             "heights": (w_heights, 300, 5000), "low": (w_low, 400, 5000), "waves": (w_waves, 120, 2500),
             "far": (gens.far(w_elevation, 33000), 4, 40), "far_stretch": (gens.far(w_stretch, 33000), 4, 40), "far_spectra": (gens.far(w_spectra), 8, 64)}
REQUIRED = {"elevation factor: wave heights": 300, "elevation factor: densities": 500, "time factor: crossing times": 500, "low waves: spectral parameters": 800, "time factor: densities": 500,
            "time shift: crossing times": 300, "units: moments": 3000, "units: spectral parameters": 2000, "units: peak periods": 800,
            "time factor: separated waves unchanged": 100, "units: Battjes-Groenendijk": 300, "units: JONSWAP": 800}
