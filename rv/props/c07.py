"""C07: zero crossings."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C07"
RULE = ("records with exact and signed zeros, plateaus, quantised values, tiny and huge amplitudes, constants, one-signed "
        "records, 2..140000 samples; both crossing types, default type, through the function and through Series; "
        "non-trivial: at least two crossings")


def check(c, got, t, x, kind, what):
    nw, tc = got
    i, want = refs.crossings(t, x, kind)
    tc = np.asarray(tc)
    c.expect(tc.size == len(i), what + ": no crossing missed or invented",
             lambda: f"{kind}: {tc.size} reported, {len(i)} in the record of {len(x)} samples")
    c.expect(int(nw) == max(0, len(i) - 1), what + ": number of waves is crossings minus one (or zero)", f"{nw} for {len(i)} crossings")
    if len(i):
        tc = tc.ravel()
        dt = t[1] - t[0]
        tol = 1e-9 * dt + 8 * refs.EPS * max(abs(t[0]), abs(t[-1])) + dt * gens.t_tol(t)
        c.close(tc, want, what + ": straight line between the two samples is zero there", rtol=0, atol=tol)
        c.expect(np.all(np.diff(tc) > 0), what + ": in order", "")
        c.expect(np.all(tc >= t[i] - tol) and np.all(tc <= t[i + 1] + tol), what + ": between the two samples", "")
    return len(i)


def drive(c, t, x):
    m = 0
    for kind in ("down", "up"):
        spell = kind if c.rng.random() < 0.7 else str(c.rng.choice([kind.upper(), kind.capitalize()]))
        m = max(m, check(c, c.call(W.time.determine_zero_crossing, t, x, spell), t, x, kind, kind))
    check(c, c.call(W.time.determine_zero_crossing, t, x), t, x, "down", "default is down")
    s = c.call(W.Series, t, x)
    check(c, c.call(s.get_crossing), t, x, "down", "Series default is down")
    check(c, c.call(s.get_crossing, "up"), t, x, "up", "Series up")
    check(c, c.call(s.get_crossing, typeCross="down"), t, x, "down", "Series down")
    if m > 1:
        c.nontrivial(x, t[:2])
    else:
        c.tag("at most one crossing")


def w_records(c):
    t, x, tg = gens.record(c.rng, 2, 2000)
    for q in tg:
        c.tag(q)
    drive(c, t, x)


def w_patterns(c):
    """All sign patterns of {-, -0, 0, +} of length 2..5 (then random), with random magnitudes."""
    r = c.rng
    n, k = 2, c.idx
    while n < 6 and k >= 4 ** n:
        k -= 4 ** n
        n += 1
    if n >= 6:
        n = int(r.integers(6, 12))
        d = r.integers(0, 4, n)
    else:
        d = np.array([(k // 4 ** j) % 4 for j in range(n)])
    mag = r.uniform(0.1, 2, n) * 10.0 ** r.integers(-3, 3)
    x = np.array([-1.0, -0.0, 0.0, 1.0])[d] * mag
    t, _ = gens.axis(r, n, gens.step(r))
    c.tag("sign pattern")
    drive(c, t, x)


def w_extreme(c):
    r = c.rng
    n = gens.size(r, 3, 300)
    if c.idx % 2:
        x = r.standard_normal(n) * 10.0 ** r.uniform(-150, 150, n)
    else:  # all samples minute or enormous: products of two of them underflow or overflow
        x = r.standard_normal(n) * 10.0 ** (r.choice([-1, 1]) * r.uniform(100, 280))
    if c.idx % 3 == 0:
        x[r.random(n) < 0.3] = 0.0
    t, _ = gens.axis(r, n, gens.step(r), "zero")
    c.tag("extreme magnitudes")
    drive(c, t, x)


def w_long(c):
    n = [20000, 9973, 16384, 33500, 66000, 140001, 72000, 135001][c.idx % 8]
    t, _ = gens.axis(c.rng, n, gens.step(c.rng))
    if c.idx % 8 > 5:  # a crossing in nearly every pair of samples: more waves than small counters hold
        x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * c.rng.uniform(0.1, 2, n)
        c.tag("tens of thousands of waves")
        return drive(c, t, x)
    x, _ = gens.signal(c.rng, n, str(c.rng.choice(["noise", "jonswap", "zerocross", "walk"] if n < 30000 else ["jonswap", "walk"])))
    c.tag(f"{n} samples")
    drive(c, t, x)


WORKLOADS = {"records": (w_records, 4500, 25000), "patterns": (w_patterns, 4200, 16000), "extreme": (w_extreme, 1200, 8000),
             "long": (w_long, 8, 64)}
REQUIRED = {"down: no crossing missed or invented": 1000, "up: no crossing missed or invented": 1000,
            "down: straight line between the two samples is zero there": 500,
            "up: straight line between the two samples is zero there": 500}
