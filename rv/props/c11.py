"""C11: spectral moments."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C11"
RULE = ("spectra on axes starting at, just above and far above zero, orders -3..6, bounds on, between and midway between "
        "grid frequencies (both neighbours admissible midway), each bound alone, beyond the axis and infinite; the oracle "
        "is a Simpson rule and tail integral written from their definitions; non-trivial: band of at least 3 bins with energy")


def check(c, f, S, m, fmin, fmax, what, args):
    got = c.call(W.wavef.compute_moment, f, S, m, *args)
    c.expect(np.ndim(got) == 0, "moment is a scalar", f"{type(got)} {np.shape(got)}")
    ok = refs.moments(f, S, m, None if fmin == -1.0 else fmin, None if fmax == -1.0 else fmax)
    good = any(abs(got - v) <= 1e-9 * s + 1e-300 or got == v for v, s in ok)
    c.expect(good, what, lambda: f"m={m} n={len(f)} f0={f[0]!r} df={f[1]-f[0]!r} fend={f[-1]!r} fmin={fmin!r} fmax={fmax!r}: got {got!r}, "
                                 f"expected {[v for v, _ in ok]}")
    return got, max(s for _, s in ok)


def bounds(r, f):
    n = len(f)
    df = f[1] - f[0]
    k = r.random()
    if k < 0.65:
        return gens.band(r, f, int(r.integers(1, 6)))
    if k < 0.75:  # midway between grid points
        i = int(r.integers(0, n - 1))
        j = int(r.integers(i, n - 1))
        return float(f[i] + df / 2), float(f[j] + df / 2), ["midway"]
    if k < 0.85:  # both bounds beyond the axis
        a = float(f[-1] * r.uniform(1.0, 3.0))
        return a, float(r.choice([a * r.uniform(1.01, 4), np.inf])), ["both beyond the axis"]
    if k < 0.92:  # lower bound between last midpoint and end, upper beyond
        return float(f[-1] - df * r.uniform(0, 0.45)), float(r.choice([f[-1] * r.uniform(1.01, 4), np.inf])), ["only the tail"]
    i = int(r.integers(0, n))
    if f[i] == 0:
        i = n - 1
    return float(f[i]), float(f[i]), ["empty band"]


def w_moments(c):
    r = c.rng
    f, S, tg = gens.spec(r, 2 if c.idx % 9 == 0 else 3, 800)
    if c.idx % 7 == 3:
        S = S * r.choice([-1.0, 1.0], len(S))  # linearity and definition do not need S >= 0
        tg += ("signed values",)
    rough = gens.is_far() and c.idx % 4 != 1
    if rough:  # neighbouring bins differ, as in an unsmoothed spectrum: every value counts with its own weight
        S = S * r.random(len(S))
        tg += ("rough",)
    for m in r.permutation([-2, -1, 0, 1, 2, 3, 4, -3, 5, 6])[:5]:
        m = int(m)
        fmin, fmax, tb = bounds(r, f) if not rough or r.random() < 0.6 else (-1.0, -1.0, ["no bounds"])
        if np.isinf(fmax) and m >= 4:
            fmax = 2 * max(float(f[-1]), fmin)
        for q in tg + tuple(tb):
            c.tag(q)
        c.tag(f"order {m}")
        args = [fmin, fmax]
        if fmax == -1.0 and r.random() < 0.5:
            args = [fmin]
            if fmin == -1.0:
                args = []
        what = "moment = Simpson over the nearest grid band + f^-5 tail"
        got, s = check(c, f, S, m, fmin, fmax, what, args)
        lo, hi = gens.limits(f, fmin, fmax)
        if np.all(S >= 0):
            c.expect(got >= -1e-9 * s, "non-negative for non-negative density", f"{got!r}")
        if got != 0 and hi - lo > 2 * (f[1] - f[0]):
            c.nontrivial(S, m, fmin, fmax)


def w_linear(c):
    r = c.rng
    f, S1, tg = gens.spec(r, 3, 400)
    S2, _ = gens.density(r, f)
    a, b = r.uniform(-3, 3, 2)
    m = int(r.integers(-2, 4))
    fmin, fmax, tb = gens.band(r, f, 3)
    for q in tg + tuple(tb):
        c.tag(q)
    M = W.wavef.compute_moment
    m1, m2 = c.call(M, f, S1, m, fmin, fmax), c.call(M, f, S2, m, fmin, fmax)
    m12 = c.call(M, f, a * S1 + b * S2, m, fmin, fmax)
    c.close(m12, a * m1 + b * m2, "linear in the density", scale=abs(a * m1) + abs(b * m2), rtol=1e-9)
    c.close(c.call(M, f, 0 * S1, m, fmin, fmax), 0.0, "zero density has zero moments", rtol=0, atol=0)
    # default bounds, one at a time, are the ends of the axis
    lo, hi = gens.limits(f, fmin, fmax)
    c.close(c.call(M, f, S1, m, fmax=hi), c.call(M, f, S1, m, f[0], hi), "lower bound defaults to the start of the axis", rtol=1e-10)
    c.close(c.call(M, f, S1, m, fmin=lo), c.call(M, f, S1, m, lo, f[-1]), "upper bound defaults to the end of the axis", rtol=1e-10)
    c.close(c.call(M, f, S1, m), c.call(M, f, S1, m, f[0], f[-1]), "no bounds: the whole axis", rtol=1e-10)
    c.nontrivial(S1, m, fmin, fmax)


def w_tail(c):
    """Splitting an interval beyond the axis: tails add up exactly; closed form for a pure f^-5 spectrum."""
    r = c.rng
    df = 0.01
    f = np.arange(int(r.integers(20, 200))) * df + df * r.integers(1, 20)
    C = r.uniform(0.1, 5)
    S = C * f ** -5.0
    m = int(r.integers(-2, 8))
    m = m if m != 4 else 0
    M = W.wavef.compute_moment
    a = float(f[-1])
    b, d = a * r.uniform(1.1, 3), a * r.uniform(3.1, 9)
    whole = c.call(M, f, S, m, f[0], d)
    part = c.call(M, f, S, m, f[0], b) + c.call(M, f, S, m, b, d)
    c.close(whole, part, "tail intervals add up", rtol=1e-9)
    p = m - 4.0
    c.close(c.call(M, f, S, m, b, d), C / p * (d ** p - b ** p), "closed form of the tail", rtol=1e-9)
    if p < 0:
        c.close(c.call(M, f, S, m, a, np.inf), -C / p * a ** p, "closed form of the infinite tail", rtol=1e-9)
        c.close(c.call(M, f, S, m, b, np.inf), -C / p * b ** p, "closed form of the infinite tail", rtol=1e-9)
    c.close(c.call(M, f, S, 4, a, d), C * np.log(d / a), "closed form of the tail", rtol=1e-9)
    c.nontrivial(S, m)


WORKLOADS = {"moments": (w_moments, 15000, 60000), "linear": (w_linear, 3000, 10000), "tail": (w_tail, 1800, 5400),
             "far": (gens.far(w_moments), 48, 400)}
REQUIRED = {"moment = Simpson over the nearest grid band + f^-5 tail": 5000, "linear in the density": 200, "closed form of the tail": 200}
