"""C18: gauge-array decomposition."""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.target import W

PROP = "C18"
RULE = ("incident and reflected waves with random amplitude and phase on every grid frequency below Nyquist, 2..6 gauges, weights "
        "0..1 with sum of at least two, determinant limits 0.001..4, even and odd records, any start time; gauge signals are "
        "built in the time domain with the reference wave number; frequencies whose determinant is within rounding of the "
        "limit are left open; disagreeing gauges are compared with a weighted least-squares solve; non-trivial: at least "
        "four resolvable frequencies and one that is not")


def setup(r, nmax=400, gmax=6):
    n = gens.size(r, 8, nmax, 0.4, cap=8 * nmax)
    dt = float(r.choice([0.5, 0.25, 0.1, 1.0, r.uniform(0.05, 1.5)]))
    h = float(np.exp(r.uniform(np.log(0.3), np.log(60))))
    u = r.random()
    if u < 0.2:  # flumes of centimetres to oceans, with the waves that go with them
        s = float(np.exp(r.uniform(np.log(0.02), np.log(2000))))
        h, dt = h * s, dt * np.sqrt(s)
    elif u < 0.3:  # the same waves on any depth
        h = float(np.exp(r.uniform(np.log(0.02), np.log(1e4))))
    g = int(r.integers(2, gmax + 1)) if r.random() < 0.92 else int(r.integers(gmax + 1, 2 * gmax + 1))
    t = float(r.choice([0.0, 0.0, r.uniform(-50, 50), 100.0])) + np.arange(n) * dt
    fN = 0.5 / dt
    kN = refs.wavenumber(2 * np.pi * fN, h)
    L = 2 * np.pi / kN  # shortest wave length
    gap = np.exp(r.uniform(np.log(0.1), np.log(4.0), g - 1)) * L
    loc = float(r.choice([0.0, r.uniform(-100, 100)])) + np.concatenate([[0.0], np.cumsum(gap)])
    return t, dt, h, loc


def weights(r, g):
    k = r.random()
    if k < 0.4 or g == 2:
        return np.ones(g)
    if k < 0.6:  # sum exactly two, one gauge switched off
        w = np.zeros(g)
        w[r.choice(g, 2, replace=False)] = 1.0
        return w
    w = r.uniform(0.05, 1, g)
    s = w.sum()
    if s < 2:
        w = 1 - (1 - w) * (g - 2) / (g - s) * r.uniform(0.3, 0.99)
    return np.clip(w, 0, 1)


def waves(r, n, nyquist=False):
    """Complex amplitudes (as in rfft) of two random waves, no energy at zero and Nyquist."""
    m = n // 2 + 1
    out = []
    for _ in range(2):
        A = (r.standard_normal(m) + 1j * r.standard_normal(m)) * n / 2
        if r.random() < 0.4:
            A *= r.random(m) < 0.3
        A[0] = 0
        if n % 2 == 0:
            A[-1] = 0
        out.append(A)
    return out


def nodes(r, t, dt, h, loc, I, R):
    """Standing waves: at some frequencies one of the gauges stands in a node."""
    n = len(t)
    k = refs.wavenumber(2 * np.pi * np.arange(len(I)) / (n * dt), h)
    j = int(r.integers(0, len(loc))) if r.random() < 0.5 else 0
    m = r.random(len(I)) < r.choice([0.2, 1.0])
    return np.where(m, -I * np.exp(-2j * k * (loc[j] - loc[0])), R)


def gauges(t, dt, h, loc, I, R):
    """Surface elevation at the gauges, in the time domain."""
    n = len(t)
    f = np.arange(len(I)) / (n * dt)
    k = refs.wavenumber(2 * np.pi * f, h)
    d = loc - loc[0]
    E = np.exp(-1j * k[:, None] * d[None, :])
    return scipy.fft.irfft(I[:, None] * E + R[:, None] * np.conj(E), n, axis=0), k, f


def compare(c, got, want, n, det, on, near, scale, tol, clause, detail):
    """Spectra of the outputs, bin by bin, leaving out Nyquist."""
    m = n // 2 + 1
    use = ~near
    if n % 2 == 0:
        use[-1] = False
    X = scipy.fft.rfft(got)
    with np.errstate(all="ignore"):
        err = np.abs(X - np.where(on, want, 0)) / (tol * scale * (1 + np.where(on, 1 / np.sqrt(np.maximum(det, 1e-12)), 0)))
    bad = use & (err > 1)
    if np.any(bad):
        i = int(np.argmax(err * use))
        c.fail(clause, f"bin {i} of {m}: got {X[i]!r}, expected {want[i] if on[i] else 0!r}, determinant {det[i]!r}; {detail}")
    c.count(clause)


def w_exact(c):
    r = c.rng
    t, dt, h, loc = setup(r)
    n, g = len(t), len(loc)
    w = weights(r, g)
    I, R = waves(r, n)
    if r.random() < 0.25:
        R = nodes(r, t, dt, h, loc, I, R)
        c.tag("standing waves with a gauge in the node")
    x, k, f = gauges(t, dt, h, loc, I, R)
    off = r.uniform(-3, 3) if r.random() < 0.3 else 0.0
    x = x + off
    lim = None if r.random() < 0.5 else float(r.choice([0.01, 0.5, 1.0, 0.001, w.sum() ** 2 / 4 * r.uniform(0.05, 0.95)]))
    args = () if lim is None else (lim,)
    lim = 0.125 if lim is None else lim
    a, b = c.call(W.decomp.decompose_linear_ZS, t, x, h, loc, w, *args)
    c.expect(np.shape(a) == (n,) and np.shape(b) == (n,) and np.isrealobj(a) and np.isrealobj(b), "two real series of the record's length", f"{np.shape(a)}")
    _, _, det, on, near = refs.decompose(x, dt, h, loc, w, lim)
    scale = max(np.abs(I).max(), np.abs(R).max(), 1e-12) + abs(off) * 1e-3
    tol = 1e-9 * (1 + float(np.max(k)) * (loc[-1] - loc[0]) * 0.01) + 1e-12 * n
    what = f"n {n} gauges {g} weights {w!r} h {h!r} dt {dt!r} limit {lim!r}"
    compare(c, a, I, n, det, on, near, scale, tol, "incident wave recovered where the determinant exceeds the limit, nothing elsewhere", what)
    compare(c, b, R, n, det, on, near, scale, tol, "reflected wave recovered where the determinant exceeds the limit, nothing elsewhere", what)
    c.tag(f"{g} gauges")
    c.tag("n even" if n % 2 == 0 else "n odd")
    c.tag("gauge of zero weight" if np.any(w == 0) else "all gauges weighted")
    if np.sum(on[1:]) >= 4 and np.sum(~on) >= 2:
        c.nontrivial(x, loc)
    # Series version
    S = [c.call(W.Series, t, x[:, j]) for j in range(g)]
    sa, sb = c.call(W.decomp.decompose_linear_ZS_series, S, h, loc, w, *args, raw=True)
    for s, v in ((sa, a), (sb, b)):
        c.expect(isinstance(s, W.Series), "Series version returns Series", f"{type(s)}")
        c.close(s.time, t, "Series version: same time axis", rtol=0)
        c.close(s.xTime, v, "Series version: same result", rtol=1e-10, atol=1e-11 * scale)


def w_wls(c):
    """Gauges that disagree: weighted least squares; superposition; zero weight."""
    r = c.rng
    t, dt, h, loc = setup(r, 120)
    n, g = len(t), len(loc)
    w = weights(r, g)
    x = r.standard_normal((n, g)) + (gauges(t, dt, h, loc, *waves(r, n))[0] if r.random() < 0.5 else 0)
    lim = float(r.choice([0.125, 0.125, 0.05, 0.5]))
    D = W.decomp.decompose_linear_ZS
    a, b = c.call(D, t, x, h, loc, w, lim)
    I, R, det, on, near = refs.decompose(x, dt, h, loc, w, lim)
    k = refs.wavenumber(2 * np.pi * 0.5 / dt, h)
    scale = float(np.max(np.abs(scipy.fft.rfft(x, axis=0))))
    tol = 1e-9 * (1 + float(k) * (loc[-1] - loc[0]) * 0.01) + 1e-12 * n
    what = f"n {n} gauges {g} weights {w!r} h {h!r}"
    compare(c, a, I, n, det, on, near, scale, tol, "weighted least-squares incident wave", what)
    compare(c, b, R, n, det, on, near, scale, tol, "weighted least-squares reflected wave", what)
    # linear in the signals
    y = r.standard_normal((n, g))
    p, q = r.uniform(-3, 3, 2)
    ya, yb = c.call(D, t, y, h, loc, w, lim)
    za, zb = c.call(D, t, p * x + q * y, h, loc, w, lim)
    amp = 1e-9 * (np.max(np.abs(x)) + np.max(np.abs(y))) * (1 + 1 / np.sqrt(lim)) * 10
    c.close(za, p * np.asarray(a) + q * np.asarray(ya), "linear in the signals", rtol=1e-8, atol=amp)
    c.close(zb, p * np.asarray(b) + q * np.asarray(yb), "linear in the signals", rtol=1e-8, atol=amp)
    # a gauge of zero weight
    j = int(r.integers(0, g + 1))
    x2, l2, w2 = np.insert(x, j, r.standard_normal(n) * 50, axis=1), None, np.insert(w, j, 0.0)
    if j == 0:
        # the first gauge fixes the reference position: keep it, silence it and change its signal
        if g > 2:
            w3 = np.ones(g)
            w3[0] = 0.0
            u = c.call(D, t, x, h, loc, w3, lim)
            x3 = x.copy()
            x3[:, 0] = r.standard_normal(n) * 50
            v = c.call(D, t, x3, h, loc, w3, lim)
            for s, q in zip(u, v):
                c.close(q, s, "the signal of a gauge of zero weight does not matter", rtol=1e-10, atol=1e-10 * float(np.max(np.abs(x))))
    else:
        l2 = np.insert(loc, j, (loc[j - 1] + loc[j]) / 2 if j < g else loc[-1] + 1.0)
        u = c.call(D, t, x2, h, l2, w2, lim)
        for s, q in zip((a, b), u):
            c.close(q, s, "unaffected by a gauge of zero weight", rtol=1e-9, atol=amp)
    # only distances between gauges count
    u = c.call(D, t, x, h, loc + 7.5, w, lim)
    sh = 1e-7 * (1 + 1 / np.sqrt(lim)) * float(np.max(np.abs(x)))
    if not np.any(near):
        c.close(u[0], a, "only distances between gauges count", rtol=1e-7, atol=sh)
        c.close(u[1], b, "only distances between gauges count", rtol=1e-7, atol=sh)
    c.nontrivial(x, loc, w)


def w_limit(c):
    """The determinant limit is exact: just below and above the determinant of one frequency."""
    r = c.rng
    t, dt, h, loc = setup(r, 64)
    n, g = len(t), len(loc)
    w = weights(r, g)
    I, R = waves(r, n)
    I[1: (n + 1) // 2] += n / 2 * 3
    R[1: (n + 1) // 2] += n / 2
    x, k, f = gauges(t, dt, h, loc, I, R)
    _, _, det, _, _ = refs.decompose(x, dt, h, loc, w, 0.125)
    j = int(r.integers(1, (n + 1) // 2))
    if det[j] < 1e-2:
        return
    for fac in (0.999, 1.001):
        a, b = c.call(W.decomp.decompose_linear_ZS, t, x, h, loc, w, float(det[j] * fac))
        A = abs(scipy.fft.rfft(a)[j])
        if fac < 1:
            c.expect(abs(A - abs(I[j])) < 1e-5 * abs(I[j]) + 1e-6 * n, "kept just above the limit", f"bin {j}: {A!r} expected {abs(I[j])!r}, det {det[j]!r}")
        else:
            c.expect(A < 1e-9 * n, "nothing just below the limit", f"bin {j}: {A!r}, det {det[j]!r}")
    c.nontrivial(x, j)


WORKLOADS = {"exact": (w_exact, 2500, 12000), "wls": (w_wls, 1500, 6000), "limit": (w_limit, 1000, 4000),
             "far": (gens.far(w_exact), 4, 24), "far_wls": (gens.far(w_wls), 4, 24)}
REQUIRED = {"incident wave recovered where the determinant exceeds the limit, nothing elsewhere": 400, "weighted least-squares incident wave": 250,
            "linear in the signals": 400, "Series version: same result": 800, "unaffected by a gauge of zero weight": 200, "nothing just below the limit": 100}
