"""C24: malformed input is rejected, uniform axes are accepted."""
import numpy as np

from rv import gens
from rv.target import W

PROP = "C24"
RULE = ("for each function that documents a check, well-formed input (must be accepted) broken in one way at a time: length, "
        "matrix, axis not increasing, axis not uniform by 1e-4..0.5 of a step at any position, NaN in the axis, fraction, "
        "percentage, order, crossing type, tail option; and uniform axes of any start and length, which must be accepted; "
        "one fault anywhere in an axis of thousands of values; "
        "non-trivial: every case")
KEY = "C24-series-equidistance-tolerance"


def api():
    """name, function of (axis, values), checks uniformity, checks length, checks matrices of (axis, values)."""
    S, V, T = W.spectral, W.wavef, W.time
    yes = (True, True)
    return [
        ("time2freq", S.time2freq, True, True, yes),
        ("time2freq_nyquist", S.time2freq_nyquist, True, True, yes),
        ("compute_spectrum_time_series", S.compute_spectrum_time_series, True, True, yes),
        ("bandpassfilter", lambda t, x: S.bandpassfilter(t, x, 0.1, 0.3), True, True, yes),
        ("compute_spectrum_freq_series", lambda f, x: S.compute_spectrum_freq_series(f, x, 10), True, True, yes),
        ("spectrum2timeseries", lambda f, x: S.spectrum2timeseries(f, x, 0.0, 20.0, 0.5), False, True, yes),
        ("spectrum2timeseries_object", lambda f, x: S.spectrum2timeseries_object(f, x, 0.0, 20.0, 0.5), False, True, yes),
        ("frequency_averaging", S.frequency_averaging, False, False, yes),
        ("unfold_spectrum", lambda f, x: S.unfold_spectrum(f, x, True), False, False, yes),
        ("compute_moment", lambda f, x: V.compute_moment(f, x, 0), True, True, yes),
        ("compute_moment band", lambda f, x: V.compute_moment(f, x, 1, f[1] if np.ndim(f) == 1 else 0.1, 9e9), True, True, yes),
        ("compute_spectrum_params", V.compute_spectrum_params, True, True, yes),
        ("compute_tps", V.compute_tps, False, True, yes),
        ("Spectrum", W.Spectrum, True, True, (False, False)),
        ("Series", W.Series, "series", True, (False, False)),
        ("determine_zero_crossing", T.determine_zero_crossing, False, True, yes),
        ("sort_wave_params", T.sort_wave_params, False, True, yes),
        ("determine_params_individual_waves", lambda t, x: T.determine_params_individual_waves(np.array([t[0], t[-1]]) if np.ndim(t) == 1 else np.array([0.0, 1.0]), t, x),
         False, True, yes),
    ]


def named(fn, nm):
    def f(*a, **k):
        return fn(*a, **k)
    f.__name__ = f.__qualname__ = nm
    f.__module__ = "api"
    return f


def w_axes(c):
    r = c.rng
    n = int(r.integers(4, 60))
    dt = gens.step(r)
    t, ta = gens.axis(r, n, dt, str(r.choice(["zero", "pos", "late", "linspace"])))
    x = r.random(n) + 0.1
    dt = t[1] - t[0]
    c.tag(ta)
    c.nontrivial(t, x)
    for nm, fn, uni, length, mat in api():
        fn = named(fn, nm)
        c.call(fn, t, x, clause=f"well-formed input accepted")
        # lengths
        if length:
            for k in (1, -1, n):
                y = np.concatenate([x, x])[: n + k]
                c.rejects(fn, t, y, clause="different lengths rejected", what=f"{n} and {len(y)}")
            c.rejects(fn, list(t), list(x[:-1]), clause="different lengths rejected", what=f"lists of {n} and {n - 1}")
            c.rejects(fn, np.append(t, t[-1] + dt), x, clause="different lengths rejected", what=f"{n + 1} and {n}")
        # matrices
        for rows in (n, 2, 3):
            M = r.random((rows, 3 if rows == n else n)) + 0.1
            if mat[1]:
                c.rejects(fn, t, M, clause="matrix of values rejected", what=f"{M.shape}")
                c.rejects(fn, t, M.tolist(), clause="matrix of values rejected", what=f"list {M.shape}")
            if mat[0]:
                c.rejects(fn, np.cumsum(M, axis=0), x, clause="matrix as axis rejected", what=f"{M.shape}")
                c.rejects(fn, np.cumsum(M, axis=0), M, clause="matrix as axis rejected", what=f"both {M.shape}")
        if not uni:
            continue
        # not increasing
        bad = [t[::-1].copy(), np.full(n, t[0]), -np.abs(t) - np.arange(n) * dt]
        z = t.copy()
        j = int(r.integers(0, n - 1))
        z[j], z[j + 1] = z[j + 1], z[j]
        bad.append(z)
        z = t.copy()
        z[int(r.integers(1, n)):] -= 5 * n * dt
        bad.append(z)
        z = t.copy()
        j = int(r.integers(0, n - 1))
        z[j + 1] = z[j]
        bad.append(z)
        z = t.copy()
        z[int(r.integers(0, n))] = np.nan
        bad.append(z)
        for b in bad:
            c.rejects(fn, b, x, clause="axis that is not increasing rejected", what=f"{b!r}")
            c.rejects(fn, list(b), list(x), clause="axis that is not increasing rejected", what=f"{b!r}")
        # not uniform
        cand = []
        for e in (0.5, 0.1, 1e-2, 1e-3, 1e-4):
            z = t.copy()
            z[int(r.integers(0, n))] += e * dt * r.choice([-1, 1])
            cand.append((e, "one sample shifted", z))
            z = t.copy()
            z[int(r.integers(1, n)):] += e * dt
            cand.append((e, "one longer step", z))
            z = t.copy()
            z[int(r.integers(1, n)):] -= e * dt
            cand.append((e, "one shorter step", z))
            cand.append((e, "growing steps", t[0] + dt * np.cumsum(1 + e * np.arange(n) / n)))
            cand.append((e, "shrinking steps", t[0] + dt * np.cumsum(1 - e * np.arange(n) / n * 0.9)))
            cand.append((e, "alternating steps", t[0] + dt * np.cumsum(1 + e * 0.9 * (-1.0) ** np.arange(n))))
        big = t[0] + dt * np.cumsum(np.where(r.random(n) < 0.5, 1.0, r.uniform(5, 50)))
        cand.append((5.0, "steps of very different size", big))
        cand.append((5.0, "one big gap", np.where(np.arange(n) >= n // 2, t + 100 * dt * max(1, n), t)))
        cand.append((5.0, "logarithmic", np.abs(t[0]) + np.logspace(0, 3, n)))
        for e, what, z in cand:
            d = np.diff(z)
            if np.max(np.abs(d - d[0])) < 1e-8 + 1e-11 * np.max(np.abs(z)):
                continue
            if uni == "series":
                v, m = np.var(d), np.mean(d) / 100
                if v > 1.001 * m:
                    c.rejects(fn, z, x, clause="non-uniform time axis rejected by Series", what=what)
                elif v < 0.999 * m and e >= 1e-2:
                    _, exc, _ = c.observe(fn, z, x)
                    c.count("slightly non-uniform time axis given to Series")
                    if exc is None:
                        c.finding(KEY, f"Series accepts {what} of {e} step (dt {dt!r}, var {v!r})")
                continue
            c.rejects(fn, z, x, clause="non-uniform axis rejected", what=f"{what} by {e} of a step {dt!r}: {z!r}")


def w_uniform(c):
    """Uniform axes are accepted wherever they start and however long they are."""
    r = c.rng
    n = int(r.choice([2, 3, 4, 10, 100, 1000, 5000, gens.size(r, 2, 20000)]))
    if c.idx % 40 == 0:
        n = 200000
    k = str(r.choice(["zero", "pos", "late", "epoch", "linspace", "neg", "through0"]))
    dt = gens.step(r)
    t, _ = gens.axis(r, n, dt, k)
    if r.random() < 0.2:
        t = np.arange(t[0], t[0] + (n - 0.5) * (t[1] - t[0]), t[1] - t[0])[:n]
        n = len(t)
    x = r.random(n)
    c.tag(k)
    c.tag("10^%d samples" % int(np.log10(n)))
    S, V = W.spectral, W.wavef
    for nm, fn in (("Series", W.Series if n <= 5000 else None), ("time2freq_nyquist", S.time2freq_nyquist), ("time2freq", S.time2freq),
                   ("bandpassfilter", lambda a, b: S.bandpassfilter(a, b, 0.01, 0.2)),
                   ("compute_spectrum_time_series", S.compute_spectrum_time_series if n <= 5000 else None),
                   ("monotonic_increasing_constant_step", W.engine.monotonic_increasing_constant_step)):
        if fn is None or n < 2:
            continue
        fn = named(fn, nm)
        if nm.startswith("mono"):
            c.expect(c.call(fn, t) is True, "uniform axis accepted", f"{k} n {n} dt {dt!r} t0 {t[0]!r}")
        else:
            c.call(fn, t, x, clause="uniform axis accepted")
    if t[0] >= 0:
        for nm, fn in (("Spectrum", W.Spectrum), ("compute_moment", lambda a, b: V.compute_moment(a, b, 0)),
                       ("compute_spectrum_params", V.compute_spectrum_params),
                       ("compute_spectrum_freq_series", (lambda a, b: S.compute_spectrum_freq_series(a, b, 10)) if n <= 5000 else None)):
            if fn is not None:
                c.call(named(fn, nm), t, x, clause="uniform axis accepted")
    c.nontrivial(t[:2], n)


def w_values(c):
    r = c.rng
    n = int(r.integers(2, 40))
    h = np.sort(r.random(n))[::-1].copy()
    if r.random() < 0.3:
        h = np.sort(np.round(h * 4))[::-1].copy()
    T = r.uniform(2, 9, n)
    HP, EX = W.time.highest_waves_params, W.time.exceedance_wave_height
    c.nontrivial(h, T)
    e = 10.0 ** -r.integers(1, 13)
    for p in (-e, 1 + e, -1, 2, 100, np.inf, -np.inf):
        c.rejects(HP, h, T, p, clause="fraction out of range rejected", what=f"{p!r}")
        wh = c.call(W.WaveHeights, h, T)
        c.rejects(wh.highest_waves, p, clause="fraction out of range rejected", what=f"WaveHeights {p!r}")
    for p in (-e, 100 * (1 + e), -1, 101, 1e6, np.inf, -np.inf):
        c.rejects(EX, h, p, clause="percentage out of range rejected", what=f"{p!r}")
        wh = c.call(W.WaveHeights, h, T)
        c.rejects(wh.get_exceedance_waveheight, p, clause="percentage out of range rejected", what=f"WaveHeights {p!r}")
    for p in (0, 1, 0.0, 1.0):
        c.call(HP, h, T, p, clause="ends of the range accepted")
        c.call(EX, h, 100 * p, clause="ends of the range accepted")
    # unsorted: ascending, one pair swapped anywhere, one value lifted by one ulp
    bad = [np.sort(h), np.roll(h, 1), h[::-1]]
    j = int(r.integers(0, n - 1))
    z = h.copy()
    z[j], z[j + 1] = z[j + 1], z[j]
    bad.append(z)
    z = h.copy()
    z[j + 1] = np.nextafter(z[j], np.inf)
    bad.append(z)
    for b in bad:
        if np.all(np.diff(b) <= 0):
            continue
        for p in (0.0, 1 / 3, 1.0):
            c.rejects(HP, b, T, p, clause="unsorted heights rejected", what=f"{b!r}")
            c.rejects(EX, b, 100 * p, clause="unsorted heights rejected", what=f"{b!r}")
        c.rejects(HP, list(b), list(T), 0.5, clause="unsorted heights rejected", what=f"list {b!r}")
    # matrices and lengths of the wave functions
    M = r.random((n, 2))
    G = np.stack([h, h], axis=1)  # descending along either axis
    for a, b in ((G, T), (G, G), (G.T.copy(), T[:2]), (G, M)):
        for p in (0.0, 0.3, 1.0):
            c.rejects(HP, a, b, p, clause="matrix of values rejected", what="highest_waves_params, ordered matrix")
        c.rejects(EX, a, 10, clause="matrix of values rejected", what="exceedance_wave_height, ordered matrix")
    for a, b in ((M, T), (h, M), (M, M), (h.reshape(1, -1), T) if n > 1 else (M, T)):
        c.rejects(HP, a, b, 0.3, clause="matrix of values rejected", what="highest_waves_params")
        c.rejects(W.time.sort_wave_params, a, b, clause="matrix of values rejected", what="sort_wave_params")
    c.rejects(EX, M, 10, clause="matrix of values rejected", what="exceedance_wave_height")
    for k in (1, -1):
        TT = np.concatenate([T, T])[: n + k]
        c.rejects(HP, h, TT, 0.3, clause="different lengths rejected", what="highest_waves_params")
        c.rejects(W.time.sort_wave_params, h, TT, clause="different lengths rejected", what="sort_wave_params")
        wh = c.call(W.WaveHeights, h, TT)
        for q in ("sort", "get_Hs"):
            c.rejects(getattr(wh, q), clause="different lengths rejected", what=f"WaveHeights.{q}")
    # crossing types and matrices
    t, x = np.arange(n) * 0.5, r.standard_normal(n)
    Z = W.time.determine_zero_crossing
    for b in ("", "dwn", "DOWNN", "updown", "left", "zero", "d", "u", "none", "up "):
        c.rejects(Z, t, x, b, clause="unknown crossing type rejected", what=repr(b))
        s = c.call(W.Series, t, x)
        c.rejects(s.get_crossing, b, clause="unknown crossing type rejected", what=repr(b))
    for g in ("up", "down", "Up", "DOWN", "dOwN"):
        c.call(Z, t, x, g, clause="documented crossing types accepted")
        c.call(c.call(W.Series, t, x).get_crossing, g, clause="documented crossing types accepted")
    c.rejects(W.spectral.freq2time, r.random((n, 2)), clause="matrix of values rejected", what="freq2time")
    c.rejects(W.spectral.freq2time, r.random((2, n)) + 1j, clause="matrix of values rejected", what="freq2time")
    D = W.time.determine_params_individual_waves
    c.rejects(D, r.random((2, 2)), t, x, clause="matrix as axis rejected", what="crossing times")


def w_long(c):
    """One fault somewhere in an axis of many thousands of values."""
    r = c.rng
    n = int(r.choice(gens.FAR))
    dt = float(r.choice([0.5, 0.01, 1.0, 0.25]))
    t = float(r.choice([0.0, 12.5])) + np.arange(n) * dt
    x = r.random(n) + 0.1
    c.tag("10^%d samples" % int(np.log10(n)))
    c.nontrivial(n, dt, x[:3])
    j = int(r.choice([1, 2, n // 2, n - 3, n - 2, int(r.integers(1, n - 1)), int(r.integers(1, n - 1))]))
    cand = []
    for what in ("swapped", "repeated", "nan", "shifted", "longer step"):
        z = t.copy()
        if what == "swapped":
            z[j], z[j + 1] = z[j + 1], z[j]
        elif what == "repeated":
            z[j + 1] = z[j]
        elif what == "nan":
            z[j] = np.nan
        elif what == "shifted":
            z[j] += float(r.choice([0.3, -0.3, 1e-3])) * dt
        else:
            z[j + 1:] += float(r.choice([0.5, 1e-3])) * dt
        cand.append((what, z))
    for nm, fn, uni, length, mat in api():
        fn = named(fn, nm)
        if length:
            c.rejects(fn, t, x[:-1], clause="different lengths rejected", what=f"{n} and {n - 1}")
        if not uni:
            continue
        for k in r.choice(len(cand), 2, replace=False):
            what, z = cand[int(k)]
            if uni == "series" and what in ("shifted", "longer step"):
                continue  # its documented criterion is the variance of the steps
            c.rejects(fn, z, x, clause="non-uniform axis rejected" if what in ("shifted", "longer step") else "axis that is not increasing rejected",
                      what=f"{what} at {j} of {n}")


WORKLOADS = {"axes": (w_axes, 225, 3000), "uniform": (w_uniform, 600, 6000), "values": (w_values, 450, 5000),
             "long": (w_long, 40, 400)}
REQUIRED = {"non-uniform axis rejected": 5000, "axis that is not increasing rejected": 5000, "different lengths rejected": 5000,
            "matrix of values rejected": 3000, "matrix as axis rejected": 3000, "uniform axis accepted": 1500, "unsorted heights rejected": 1000,
            "fraction out of range rejected": 1000, "unknown crossing type rejected": 1000, "non-uniform time axis rejected by Series": 100}
