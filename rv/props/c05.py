"""C05: band-pass filter."""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.target import W

PROP = "C05"
RULE = ("records of 2..3000 samples (and a few long ones), bands off the grid, on grid frequencies, outside the axis, empty "
        "and inverted; a component exactly on a band edge may be kept or removed, but adjacent bands must share it exactly "
        "once; non-trivial: band that keeps some and removes some components of a non-constant record")


def band(r, n, dt):
    df = 1 / (n * dt)
    fN = 0.5 / dt

    def one():
        k = r.random()
        if k < 0.45:
            return float(r.uniform(0, fN))
        if k < 0.65:
            return float(int(r.integers(0, n // 2 + 1)) * df)
        if k < 0.75:
            return float((int(r.integers(0, n // 2 + 1)) + 0.5) * df)
        if k < 0.82:
            return 0.0
        if k < 0.86:
            return -1.0
        if k < 0.92:
            return float(fN * r.uniform(1, 3))
        if k < 0.95:
            return float("inf")
        return float(r.uniform(0, 2) * df)

    a, b = one(), one()
    if r.random() < 0.9 and a > b:
        a, b = b, a
    return a, b


def tol_t(x):
    n = len(x)
    return 8 * refs.dft_tol(x) / n + 16 * refs.EPS * float(np.max(np.abs(x))) + 1e-300


def check_filter(c, y, x, dt, lo, hi, clause):
    """y must be x with everything strictly inside kept and strictly outside removed."""
    n = len(x)
    c.expect(np.shape(y) == (n,) and not np.iscomplexobj(y), clause + ": real record of the same length", f"{np.shape(y)}")
    X, f, inside, edge = refs.bandpass(x, dt, lo, hi)
    Y = scipy.fft.rfft(np.asarray(y, dtype=float))
    tol = 4 * refs.dft_tol(x)
    dI = np.abs(Y - X)[inside]
    c.expect(np.all(dI <= tol), clause + ": components inside kept in amplitude and phase",
             lambda: f"band ({lo!r},{hi!r}) n={n} dt={dt!r}: bin {np.nonzero(inside)[0][np.argmax(dI)]} differs by {dI.max():.3g}")
    out = ~inside & ~edge
    dO = np.abs(Y)[out]
    c.expect(np.all(dO <= tol), clause + ": components outside and the mean removed",
             lambda: f"band ({lo!r},{hi!r}) n={n} dt={dt!r}: bin {np.nonzero(out)[0][np.argmax(dO)]} leaves {dO.max():.3g}")
    e = np.nonzero(edge)[0]
    if len(e):
        c.tag("edge on a component")
        ok = (np.abs(Y[e] - X[e]) <= tol) | (np.abs(Y[e]) <= tol)
        c.expect(np.all(ok), clause + ": edge component kept or removed as a whole", f"{e} {Y[e]} {X[e]}")
    return inside, out


def w_filter(c):
    r = c.rng
    t, x, tg = gens.record(r, 2, 3000)
    for q in tg:
        c.tag(q)
    n = len(x)
    dt = t[1] - t[0]
    if gens.t_tol(t) > 1e-8:
        t = np.arange(n) * dt
    dt = (t[-1] - t[0]) / (n - 1)
    lo, hi = band(r, n, dt)
    y = c.call(W.spectral.bandpassfilter, t, x, lo, hi)
    inside, out = check_filter(c, y, x, dt, lo, hi, "filter")
    if inside.any() and out[1:].any() and np.ptp(x) > 0:
        c.nontrivial(x, lo, hi)
    # idempotent
    z = c.call(W.spectral.bandpassfilter, t, y, lo, hi)
    c.close(z, y, "idempotent", rtol=0, atol=tol_t(x))
    # Series
    s = c.call(W.Series, t, x)
    ys = c.call(s.get_bandpassfilter, lo, hi)
    c.close(ys.xTime, y, "Series filter gives the same", rtol=0, atol=tol_t(x))
    c.close(ys.time, t, "Series filter keeps the time axis", rtol=1e-14)
    # coefficients
    f, X, odd = c.call(W.spectral.time2freq_nyquist, t, x)
    Z = c.call(W.spectral.applybandfilter, f, X, lo, hi)
    c.close(Z[inside], X[inside], "applybandfilter keeps the band", rtol=1e-15)
    c.close(Z[out], np.zeros(int(out.sum())), "applybandfilter removes the rest", rtol=0)


def w_relations(c):
    """Linearity, adjacent bands, all-pass."""
    r = c.rng
    n = gens.size(r, 2, 2000)
    dt = gens.step(r)
    t, _ = gens.axis(r, n, dt, str(r.choice(["zero", "pos", "neg", "linspace"])))
    x, _ = gens.signal(r, n)
    y, _ = gens.signal(r, n)
    # keep both of comparable size so that rounding of one does not hide the other
    sx, sy = (max(np.max(np.abs(v)), 1e-300) for v in (x, y))
    x, y = x / sx, y / sy
    df = 1 / (n * dt)
    fN = 0.5 / dt
    tol = 4 * (tol_t(x) + tol_t(y))
    bp = W.spectral.bandpassfilter
    lo, hi = band(r, n, dt)
    a, b = r.uniform(-3, 3, 2)
    fx, fy = c.call(bp, t, x, lo, hi), c.call(bp, t, y, lo, hi)
    fxy = c.call(bp, t, a * x + b * y, lo, hi)
    c.close(fxy, a * fx + b * fy, "linear", rtol=0, atol=8 * tol)
    # all-pass
    top = float(r.choice([fN * (1 + 1e-6), fN * 1.5, np.inf, 10 * fN]))
    bot = float(r.choice([0.0, -1.0, 0.3 * df]))
    c.close(c.call(bp, t, x, bot, top), x - x.mean(), "all-pass returns the record minus its mean", rtol=0, atol=tol)
    # partition of the axis; joints on and off the grid
    k = int(r.integers(1, 5))
    joints = sorted(band(r, n, dt)[0] for _ in range(k))
    edges = [lo] + [j for j in joints if lo < j < hi] + [hi]
    if lo < hi:
        parts = [c.call(bp, t, x, p, q) for p, q in zip(edges[:-1], edges[1:])]
        c.close(sum(parts), c.call(bp, t, x, lo, hi), "adjacent bands add up to the joined band", rtol=0, atol=tol * len(parts))
        c.tag(f"{len(parts)} adjacent bands")
        if len(parts) > 1:
            c.nontrivial(x, edges)
    edges = [0.0] + joints + [np.inf]
    parts = [c.call(bp, t, x, p, q) for p, q in zip(edges[:-1], edges[1:])]
    c.close(sum(parts), x - x.mean(), "bands covering the axis add up to the record minus its mean", rtol=0, atol=tol * len(parts))


def w_small(c):
    """Every length 2..40, all pairs of grid and mid-grid edges (cycled)."""
    n = 2 + c.idx % 39
    r = c.rng
    dt = 1.0
    t = np.arange(n) * dt
    x = r.standard_normal(n) + 0.5
    df = 1 / (n * dt)
    cand = np.concatenate([np.arange(0, n // 2 + 2) * df, (np.arange(0, n // 2 + 1) + 0.5) * df, [0.5, 1.0, np.inf, -0.1]])
    for _ in range(6):
        lo, hi = np.sort(r.choice(cand, 2))
        y = c.call(W.spectral.bandpassfilter, t, x, float(lo), float(hi))
        check_filter(c, y, x, dt, float(lo), float(hi), "small")
    c.nontrivial(x)


def w_long(c):
    r = c.rng
    n = [65536, 100003, 20001, 50000][c.idx % 4]
    t = np.arange(n) * 0.25
    x = r.standard_normal(n) + 3
    lo, hi = np.sort(r.uniform(0, 2, 2))
    y = c.call(W.spectral.bandpassfilter, t, x, lo, hi)
    check_filter(c, y, x, 0.25, lo, hi, "long")
    df = 1 / (n * 0.25)
    for k in range(3):  # cuts close to a component, on either side of it: the component is where the axis says
        q = r.integers(1, n // 2, 2)
        lo, hi = np.sort((q + r.choice([-1, 1], 2) * 10 ** r.uniform(-4, -0.4, 2)) * df)
        y = c.call(W.spectral.bandpassfilter, t, x, float(lo), float(hi) if k else np.inf)
        check_filter(c, y, x, 0.25, float(lo), float(hi) if k else np.inf, "long")
    c.nontrivial(x)


WORKLOADS = {"filter": (w_filter, 4000, 20000), "relations": (w_relations, 3600, 16000), "small": (w_small, 1600, 8000),
             "long": (w_long, 8, 96)}
REQUIRED = {"filter: components inside kept in amplitude and phase": 500, "adjacent bands add up to the joined band": 300,
            "all-pass returns the record minus its mean": 300, "linear": 300}
