"""C09: wave-height statistics."""
import math
from fractions import Fraction

import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C09"
RULE = ("sets of 0..5000 waves with distinct, tied and zero heights, sorted and not, and records; fractions k/N, 1/3, 0, 1 and "
        "random, percentages likewise; where heights tie at the cut any choice among the tied waves is accepted, and "
        "floor() accepts the exact and the rounded product; non-trivial: at least three waves")


def counts(n, p, per=1.0):
    """Admissible floor(n p / per): one value where n p / per is a whole number without any rounding (29 per cent of 100
    waves, a third of 300), otherwise what exact and rounded arithmetic give."""
    exact = Fraction(n) * Fraction(p) / Fraction(per)
    if exact.denominator == 1:
        return {int(exact)}
    if p == 1 / 3:
        return {n // 3}
    return {math.floor(n * p / per), math.floor(n * (p / per)), math.floor(Fraction(n) * Fraction(p) / Fraction(per))}


def waves(r, n):
    k = r.random()
    if k < 0.5:
        h = r.rayleigh(1.0, n)
    elif k < 0.75:
        h = np.round(r.rayleigh(1.5, n) * 2) / 2
    elif k < 0.85:
        h = np.full(n, float(r.uniform(0.5, 2)))
    elif k < 0.95:
        h = r.integers(0, 6, n).astype(float)
    else:
        h = np.sort(r.random(n))[:: r.choice([1, -1])].copy()
    return h, r.uniform(1, 20, n)


def fracs(r, n):
    out = [1 / 3, 0.0, 1.0, 0.5, 0.1, float(r.random())]
    if n:
        k = int(r.integers(0, n + 1))
        out += [k / n, min(1.0, max(0.0, (k + 0.5) / n)), min(1.0, 1.0 / n)]
    return out


def check_highest(c, got, hs, Ts, p, what):
    """hs, Ts sorted by descending height; ties at the cut leave the periods open within bounds."""
    n = len(hs)
    why = []
    for m in sorted(counts(n, p)):
        if m <= 0:
            if got[0] == 0 and got[1] == 0:
                c.count(what)
                return
            why.append(f"{m} waves: expected zeros")
            continue
        H = float(np.mean(hs[:m]))
        cut = hs[m - 1]
        sure = hs > cut
        tied = np.sort(Ts[hs == cut])
        k = m - int(sure.sum())
        base = math.fsum(Ts[sure])
        lo, hi = (base + math.fsum(tied[:k])) / m, (base + math.fsum(tied[len(tied) - k:])) / m
        if abs(got[0] - H) <= 1e-11 * abs(H) + 1e-300 and lo - 1e-11 * abs(lo) <= got[1] <= hi + 1e-11 * abs(hi):
            c.count(what)
            return
        why.append(f"{m} waves: H {H!r}, T in [{lo!r}, {hi!r}]")
    c.fail(what, f"n={n} fraction {p!r}: got {got!r}; " + "; ".join(why))


def check_exc(c, got, hs, e, what):
    n = len(hs)
    ok = []
    for m in counts(n, e, 100.0):
        ok.append(0.0 if m <= 0 else float(hs[m - 1]))
    c.expect(any(got == v for v in ok), what, f"n={n} percentage {e!r}: got {got!r}, expected {ok}")


def w_core(c):
    r = c.rng
    n = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 99, 100, 200, 300, 500][c.idx % 16] if c.idx % 2 else gens.size(r, 1, 600, big=0.06, cap=140000)
    h, T = waves(r, n)
    hs, Ts = c.call(W.time.sort_wave_params, h, T)
    hs, Ts = np.asarray(hs), np.asarray(Ts)
    c.expect(hs.size == n and Ts.size == n, "sorting keeps every wave", f"{hs.size} {Ts.size} {n}")
    c.expect(np.all(np.diff(hs.ravel()) <= 0), "sorted in descending height", "")
    a, b = np.lexsort((T, h)), np.lexsort((Ts.ravel(), hs.ravel()))
    c.close(hs.ravel()[b], h[a], "same (height, period) pairs", rtol=0)
    c.close(Ts.ravel()[b], T[a], "same (height, period) pairs", rtol=0)
    # the core functions take any descending order: feed a reference order
    o = np.argsort(-h, kind="stable")
    h, T = h[o], T[o]
    for p in fracs(r, n):
        got = c.call(W.time.highest_waves_params, h, T, p)
        m = counts(n, p)
        if len(m) == 1 and next(iter(m)) > 0:
            k = next(iter(m))
            c.close(got[0], np.mean(h[:k]), "mean height of the highest floor(pN) waves", rtol=1e-11)
            c.close(got[1], np.mean(T[:k]), "mean of their own periods", rtol=1e-11)
        check_highest(c, got, h, T, p, "highest fraction")
    for p in fracs(r, n):
        e = 100 * p if r.random() < 0.5 else float(r.choice([0, 1, 2, 5, 10, 33, 50, 99, 100, 0.1, r.integers(0, 101)]))
        e = min(e, 100.0)
        check_exc(c, c.call(W.time.exceedance_wave_height, h, e), h, e, "exceeded by e percent")
    if n and n % 50 == 0:
        for e in r.integers(1, 101, 12):
            e = int(e) if r.random() < 0.5 else float(e)
            check_exc(c, c.call(W.time.exceedance_wave_height, h, e), h, e, "whole percentage of a round number of waves")
        c.tag("round number of waves")
    if n >= 3:
        c.nontrivial(h, T)


def stats(c, mk, h, T, what):
    """Each statistic on a fresh object; h, T the reference waves in any order."""
    r = c.rng
    n = len(h)
    o = np.argsort(-h, kind="stable")
    hs, Ts = h[o], T[o]
    w = mk()
    Hs, Tsig = c.call(w.get_Hs)
    check_highest(c, (Hs, Tsig), hs, Ts, 1 / 3, what + ": Hs, Ts")
    c.close(c.call(mk().get_H2p_Rayleigh), Hs * math.sqrt(-math.log(0.02)) / math.sqrt(2), what + ": Rayleigh 2% height", rtol=1e-12)
    if n:
        c.close(c.call(mk().get_Hmax), np.max(h), what + ": Hmax", rtol=1e-13)
        c.close(c.call(mk().get_Hrms), math.sqrt(math.fsum(h ** 2) / n), what + ": Hrms", rtol=1e-12)
    else:
        c.close(c.call(mk().get_Hmax), 0.0, what + ": no waves, zero", rtol=0)
        c.close(c.call(mk().get_Hrms), 0.0, what + ": no waves, zero", rtol=0)
    for p in fracs(r, n):
        check_highest(c, c.call(mk().highest_waves, p), hs, Ts, p, what + ": highest_waves")
    for e in [0, 2, 100, 50.0, float(r.uniform(0, 100)), 100 * fracs(r, n)[-1]]:
        e = min(e, 100.0)
        check_exc(c, c.call(mk().get_exceedance_waveheight, e), hs, e, what + ": get_exceedance_waveheight")
    w = mk()
    c.call(w.sort)
    c.close(np.asarray(w.hwave).ravel(), hs, what + ": sort() gives descending heights", rtol=0)
    a, b = np.lexsort((np.asarray(w.twave).ravel(), np.asarray(w.hwave).ravel())), np.lexsort((T, h))
    c.close(np.asarray(w.twave).ravel()[a], T[b], what + ": sort() keeps the pairs", rtol=0)


def w_waveheights(c):
    r = c.rng
    n = [0, 1, 2, 3, 4, 6, 8, 11][c.idx % 8] if c.idx % 2 else gens.size(r, 1, 400, big=0.06, cap=140000)
    h, T = waves(r, n)
    stats(c, lambda: c.call(W.WaveHeights, h, T), h, T, "WaveHeights")
    if n == 0:
        c.tag("no waves")
    if n >= 3:
        c.nontrivial(h, T)


def w_series(c):
    t, x, tg = gens.record(c.rng, 3, 800)
    for q in tg:
        c.tag(q)
    i, tc = refs.crossings(t, x, "down")
    s = c.call(W.Series, t, x)
    wv = refs.waves(t, x, i, tc)
    h, T = np.array(s.hwave).ravel(), np.array(s.twave).ravel()
    c.expect(len(h) == len(wv), "Series has the waves of the record", f"{len(h)} {len(wv)}")
    if len(wv) == 0:
        c.tag("no waves")
    stats(c, lambda: c.call(W.Series, t, x), h, T, "Series")
    if len(wv) >= 3:
        c.nontrivial(x)


def w_reject(c):
    r = c.rng
    n = int(r.integers(1, 30))
    h, T = waves(r, n)
    o = np.argsort(-h, kind="stable")
    h, T = h[o], T[o]
    hp, ex = W.time.highest_waves_params, W.time.exceedance_wave_height
    small = float(10.0 ** -r.integers(1, 12))
    for p in (-small, 1 + small, -1.0, 2.0, 50.0, -1e-300 * 0 - 5, np.inf, -np.inf):
        c.rejects(hp, h, T, p, clause="fraction outside [0,1] rejected", what=f"fraction {p!r}")
        c.rejects(c.call(W.WaveHeights, h, T).highest_waves, p, clause="fraction outside [0,1] rejected", what=f"fraction {p!r}")
    for e in (-small, 100 + max(small, 1e-9), -1.0, 101, 1000.0, np.inf, -np.inf):
        c.rejects(ex, h, e, clause="percentage outside [0,100] rejected", what=f"percentage {e!r}")
        c.rejects(c.call(W.WaveHeights, h, T).get_exceedance_waveheight, e, clause="percentage outside [0,100] rejected", what=f"{e!r}")
    if n >= 2 and h[0] > h[-1]:
        u = h.copy()
        d = np.nonzero(np.diff(u) < 0)[0]
        k = int(r.choice(d))
        u[k], u[k + 1] = u[k + 1], u[k]  # one neighbouring pair out of order
        for v in (u, h[::-1]):
            c.rejects(hp, v, T, 0.5, clause="unsorted heights rejected", what=f"heights {v}")
            c.rejects(ex, v, 50.0, clause="unsorted heights rejected", what=f"heights {v}")
    c.nontrivial(h, T)


WORKLOADS = {"core": (w_core, 3000, 16000), "waveheights": (w_waveheights, 1500, 8000), "series": (w_series, 1800, 8000),
             "reject": (w_reject, 600, 3000)}
REQUIRED = {"highest fraction": 2000, "exceeded by e percent": 2000, "WaveHeights: Hs, Ts": 300, "Series: Hs, Ts": 300,
            "fraction outside [0,1] rejected": 500, "unsorted heights rejected": 100}
