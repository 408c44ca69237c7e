"""C19: inadmissible gauge configurations are rejected."""
import numpy as np

from rv.target import W

PROP = "C19"
RULE = ("each admissible configuration (2..6 gauges, 8..64 samples) is broken in exactly one way at a time, the violation "
        "placed at every position and of every size down to one ulp, and offered to the array and to the Series version; the "
        "unbroken one and configurations exactly on the limits must be accepted; non-trivial: every case")
KEY = "C19-weight-sum-between-1-and-2"


def config(r):
    g = int(r.integers(2, 7))
    n = int(r.integers(8, 65))
    t = r.choice([0.0, 5.0, -3.0]) + np.arange(n) * float(r.choice([0.5, 0.1, 1.0]))
    x = r.standard_normal((n, g))
    loc = np.cumsum(r.uniform(0.2, 3.0, g)) + r.uniform(-5, 5)
    w = np.ones(g)
    if g > 2 and r.random() < 0.7:
        w = r.uniform(0.5, 1, g)
        w *= min(1 / w.max(), 1.0)
        if w.sum() < 2:
            w = np.ones(g)
    return t, x, float(r.choice([10.0, 1.0, 50.0])), loc, w


def both(c, t, x, h, loc, w, ok, clause, what):
    A, B = W.decomp.decompose_linear_ZS, W.decomp.decompose_linear_ZS_series
    series = None
    if np.ndim(x) == 2 and len(x) == len(t):
        series = [c.call(W.Series, t, x[:, j]) for j in range(x.shape[1])]
    if ok:
        a = c.call(A, t, x, h, loc, w, clause=clause)
        c.expect(len(a) == 2 and all(np.shape(v) == (len(t),) and np.all(np.isfinite(v)) for v in a), clause, what)
        if series is not None:
            s = c.call(B, series, h, loc, w, raw=True, clause=clause)
            for u, v in zip(s, a):
                c.close(u.xTime, v, clause, rtol=0, atol=1e-12 * (1 + np.max(np.abs(v))))
    else:
        c.rejects(A, t, x, h, loc, w, clause=clause, what=what)
        if series is not None:
            c.rejects(B, series, h, loc, w, raw=True, clause=clause + " (Series)", what=what)


def form(r, v):
    return v if r.random() < 0.7 else ([float(q) for q in v] if r.random() < 0.6 else tuple(float(q) for q in v))


def w_guards(c):
    r = c.rng
    t, x, h, loc, w = config(r)
    n, g = x.shape
    c.tag(f"{g} gauges")
    c.nontrivial(x, loc, w)
    both(c, t, x, h, form(r, loc), form(r, w), True, "admissible configuration accepted", f"{loc} {w}")

    # positions
    j = int(r.integers(1, g))
    bad = loc.copy()
    bad[j] = bad[j - 1]
    both(c, t, x, h, form(r, bad), w, False, "coinciding positions rejected", f"{bad}")
    bad = loc.copy()
    bad[j] = bad[j - 1] - r.uniform(0.01, 1)
    both(c, t, x, h, form(r, bad), w, False, "decreasing positions rejected", f"{bad}")
    both(c, t, x, h, form(r, loc[::-1].copy()), w, False, "decreasing positions rejected", "reversed")
    # numbers that do not agree
    for k in (g - 1, g + 1):
        if k >= 1:
            L = np.append(loc, loc[-1] + 1.0)[:k]
            wk = np.append(w, 1.0)[:k]
            both(c, t, x, h, L, w, False, "number of positions must agree", f"{g} signals {k} positions {g} weights")
            both(c, t, x, h, loc, wk, False, "number of weights must agree", f"{g} signals {g} positions {k} weights")
            both(c, t, x, h, L, wk, False, "number of signals must agree", f"{g} signals {k} positions {k} weights")
    # fewer than two gauges
    both(c, t, x[:, :1], h, loc[:1], np.ones(1), False, "one gauge rejected", "")
    both(c, t, x[:, :1], h, loc[:1], np.array([2.0]), False, "one gauge rejected", "")
    # time axis of another length
    for m in (n - 1, n + 1, 2 * n, g):
        if m < 2 or m == n:
            continue
        tt = t[0] + np.arange(m) * (t[1] - t[0])
        c.rejects(W.decomp.decompose_linear_ZS, tt, x, h, loc, w, clause="time axis of another length rejected", what=f"{m} of {n}")
    if n != g:
        c.rejects(W.decomp.decompose_linear_ZS, t, x.T.copy(), h, loc, w, clause="transposed signals rejected", what="")
    sers = [c.call(W.Series, t, x[:, q]) for q in range(g)]
    for m in (n - 1, n + 2):
        tt = t[0] + np.arange(m) * (t[1] - t[0])
        q = int(r.integers(0, g))
        mix = list(sers)
        mix[q] = c.call(W.Series, tt, r.standard_normal(m))
        c.rejects(W.decomp.decompose_linear_ZS_series, mix, h, loc, w, raw=True, clause="Series of different length rejected", what=f"gauge {q}: {m} of {n}")
    # weights outside [0, 1]
    q = int(r.integers(0, g))
    for v in (-float(10.0 ** -r.integers(1, 17)), -1.0, np.nextafter(0, -1), 1 + float(10.0 ** -r.integers(1, 15)), 2.0, np.nextafter(1, 2), np.inf, -np.inf):
        bad = w.copy()
        bad[q] = v
        if g > 2 or v > 1 or True:
            both(c, t, x, h, loc, form(r, bad), False, "weights outside [0,1] rejected", f"{bad}")
    # weight sum below two
    k = r.random()
    if k < 0.35:
        bad = np.zeros(g)
        bad[int(r.integers(0, g))] = 1.0
    elif k < 0.7:
        bad = w / w.sum() * r.uniform(0.01, 0.99)
    else:
        bad = np.zeros(g)
    both(c, t, x, h, loc, form(r, bad), False, "weight sum of at most one rejected", f"{bad}")
    bad = w / w.sum() * r.uniform(1.05, 1.95)
    if bad.max() <= 1 and r.random() < 0.7:
        for fn, a in ((W.decomp.decompose_linear_ZS, (t, x, h, loc, bad)), (W.decomp.decompose_linear_ZS_series, (sers, h, loc, bad))):
            _, exc, _ = c.observe(fn, *a, raw=True)
            c.count("weight sum between one and two")
            if exc is None:
                c.finding(KEY, f"{fn.__name__} accepts weights {bad!r} with sum {bad.sum()!r}")


def w_limits(c):
    """Configurations exactly on the limits are admissible."""
    r = c.rng
    t, x, h, loc, w = config(r)
    n, g = x.shape
    for v in ([1.0, 1.0], [1.0, 0.5, 0.5], [0.5, 1.0, 0.5], [0.0, 1.0, 1.0], [1.0, 1.0, 0.0], [0.5, 0.5, 0.5, 0.5], [1, 1], [1, 0, 1], [1.0] * 6):
        m = len(v)
        xs = r.standard_normal((n, m))
        L = np.cumsum(r.uniform(0.2, 2, m))
        both(c, t, xs, h, L, v if r.random() < 0.5 else np.array(v), True, "weights on the limits accepted", f"{v}")
    tiny = loc[0] + np.arange(g) * float(10.0 ** -r.integers(1, 9))
    both(c, t, x, h, tiny, np.ones(g), True, "closely spaced gauges accepted", f"{tiny}")
    for k in (2, 3, 4, 5):
        tt, xx = t[:k], x[:k]
        both(c, tt, xx, h, loc, np.ones(g), True, "short records accepted", f"{k} samples")
    c.call(W.decomp.decompose_linear_ZS, t, x, h, loc, w, 0.5, clause="admissible configuration accepted")
    c.call(W.decomp.decompose_linear_ZS, t, x, h, loc, w, detLim=0.0, clause="admissible configuration accepted")
    c.nontrivial(x)


WORKLOADS = {"guards": (w_guards, 700, 8000), "limits": (w_limits, 240, 2000)}
REQUIRED = {"admissible configuration accepted": 300, "weights outside [0,1] rejected": 1000, "number of weights must agree (Series)": 300,
            "Series of different length rejected": 300, "weight sum of at most one rejected": 200}
