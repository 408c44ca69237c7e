"""C08: individual waves."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C08"
RULE = ("records as in C07 with up and down crossings; each wave's window is the samples between its two crossings (a sample "
        "within rounding distance of a crossing may count on either side); non-trivial: at least two waves")


def windows(t, tc, k, tol):
    """Admissible (lo, hi) sample ranges of wave k."""
    a, b = tc[k], tc[k + 1]
    lo = sorted({int(np.searchsorted(t, a - tol, "left")), int(np.searchsorted(t, a + tol, "right"))})
    hi = sorted({int(np.searchsorted(t, b - tol, "left")) - 1, int(np.searchsorted(t, b + tol, "right")) - 1})
    # a sample exactly on the crossing: inside or not
    lo = range(lo[0], lo[-1] + 1)
    hi = range(hi[0], hi[-1] + 1)
    return [(p, q) for p in lo for q in hi if q >= p]


def check(c, got, t, x, tc, what):
    h, T, cr, tr, tcr, ttr = [np.asarray(v) for v in got]
    nw = max(0, len(tc) - 1)
    for nm, v in (("heights", h), ("periods", T), ("crests", cr), ("troughs", tr), ("crest times", tcr), ("trough times", ttr)):
        c.expect(v.size == nw, what + ": one entry per wave", f"{nm}: {v.size} entries for {nw} waves")
    if nw == 0:
        return 0
    dt = t[1] - t[0]
    tol = 4 * refs.EPS * max(abs(t[0]), abs(t[-1]), dt) + 1e-12 * dt
    big = float(np.max(np.abs(x)))
    c.close(T, np.diff(tc), what + ": period is the distance of the crossings", rtol=1e-12, atol=2 * tol)
    c.close(h, cr - tr, what + ": height is crest minus trough", rtol=1e-13, atol=0)
    for k in range(nw):
        ok = False
        for lo, hi in windows(t, tc, k, tol):
            seg = x[lo: hi + 1]
            a, b = lo + int(np.argmax(seg)), lo + int(np.argmin(seg))
            if cr[k] == x[a] and tr[k] == x[b] and tcr[k] == t[a] and ttr[k] == t[b]:
                ok = True
                break
        if not ok:
            lo, hi = windows(t, tc, k, 0.0)[0]
            seg = x[lo: hi + 1]
            c.fail(what + ": crest and trough are the extremes at their first occurrence",
                   f"wave {k} of {nw}: crest {cr[k]!r} at {tcr[k]!r}, trough {tr[k]!r} at {ttr[k]!r}; samples {lo}..{hi}: "
                   f"max {seg.max()!r} at {t[lo + int(np.argmax(seg))]!r}, min {seg.min()!r} at {t[lo + int(np.argmin(seg))]!r}")
    c.count(what + ": crest and trough are the extremes at their first occurrence", nw)
    c.expect(np.all(T > 0) and np.all(h >= 0) and np.all(cr >= tr), what + ": periods positive, heights non-negative", "")
    return nw


def drive(c, t, x):
    m = 0
    for kind in ("down", "up"):
        _, tc = refs.crossings(t, x, kind)
        got = c.call(W.time.determine_params_individual_waves, tc, t, x)
        m = max(m, check(c, got, t, x, tc, kind))
        # with the crossings as the code itself finds them
        _, own = c.call(W.time.determine_zero_crossing, t, x, kind)
        got = c.call(W.time.determine_params_individual_waves, own, t, x)
        check(c, got, t, x, np.asarray(own).ravel(), kind + " (own crossings)")
    s = c.call(W.Series, t, x)
    _, own = c.call(W.time.determine_zero_crossing, t, x, "down")
    h, T = c.call(W.time.determine_params_individual_waves, own, t, x)[:2]
    h, T = np.asarray(h).ravel(), np.asarray(T).ravel()
    sh, sT = np.asarray(s.hwave).ravel(), np.asarray(s.twave).ravel()
    c.expect(sh.size == h.size == s.nwave and sT.size == T.size, "Series carries one height and period per down-crossing wave",
             f"{sh.size} {sT.size} {s.nwave} expected {h.size}")
    a = np.lexsort((sT, sh))
    b = np.lexsort((T, h))
    c.close(sh[a], h[b], "Series carries the heights of its down-crossing waves", rtol=1e-12)
    c.close(sT[a], T[b], "Series carries the periods of its down-crossing waves", rtol=1e-12)
    if m > 1:
        c.nontrivial(x, t[:2])


def w_records(c):
    t, x, tg = gens.record(c.rng, 3, 1500)
    for q in tg:
        c.tag(q)
    drive(c, t, x)


def w_ties(c):
    """Waves with several equal extremes, extremes at the first and last sample, plateaus."""
    r = c.rng
    parts = []
    for _ in range(int(r.integers(2, 12))):
        k = int(r.integers(1, 7))
        crest, trough = float(r.integers(1, 4)), -float(r.integers(1, 4))
        up = r.choice([0.0, 0.5 * crest, crest], k)
        dn = r.choice([-0.0, 0.5 * trough, trough], k) if r.random() < 0.5 else r.choice([0.5 * trough, trough], int(r.integers(1, 5)))
        parts += [dn, up] if r.random() < 0.9 else [dn, dn, up]
    x = np.concatenate(parts)
    if len(x) < 3:
        return
    t, _ = gens.axis(r, len(x), gens.step(r))
    c.tag("tied extremes")
    drive(c, t, x)


def w_long(c):
    n = [6000, 9973, 33500, 66000][c.idx % 4]
    t, _ = gens.axis(c.rng, n, gens.step(c.rng))
    if c.idx % 5 == 4:  # more waves than 16 bits count
        n = 72000
        x = c.rng.uniform(0.5, 2, n) * (-1.0) ** np.arange(n)
        t, _ = gens.axis(c.rng, n, gens.step(c.rng))
        c.tag(f"{n} samples")
        return drive(c, t, x)
    x, _ = gens.signal(c.rng, n, str(c.rng.choice(["jonswap", "zerocross", "walk", "noise"] if n < 30000 else ["jonswap", "walk"])))
    c.tag(f"{n} samples")
    drive(c, t, x)


WORKLOADS = {"records": (w_records, 3000, 16000), "ties": (w_ties, 2700, 16000), "long": (w_long, 5, 40)}
REQUIRED = {"down: crest and trough are the extremes at their first occurrence": 1000,
            "up: crest and trough are the extremes at their first occurrence": 1000,
            "Series carries the heights of its down-crossing waves": 800}
