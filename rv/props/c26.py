"""C26: skewness, asymmetry and sample statistics."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C26"
RULE = ("records from rv.gens (not constant), odd and even, with offsets up to 1e5 standard deviations; oracle: central "
        "moments and a Hilbert transform written from the definition; metamorphic: offset, scaling, negation, reversal; "
        "non-trivial: skewness or asymmetry above 0.01")


def w_stats(c):
    r = c.rng
    t, x, tg = gens.record(r, 3, 2500)
    for q in tg:
        c.tag(q)
    if r.random() < 0.3:
        e = x + 0.5 * (x - x.mean()) ** 2 / (np.std(x) or 1)  # skewed
        x = e
    if r.random() < 0.25:
        x = x + float(r.choice([-1, 1])) * 10 ** r.uniform(0, 6) * np.std(x)
        c.tag("large offset")
    sd, mx = np.std(x), np.max(np.abs(x))
    s = c.call(W.Series, t, x)
    top = float(mx) + 1e-300
    c.close(c.call(s.max), np.max(x), "max", rtol=0)
    c.close(c.call(s.min), np.min(x), "min", rtol=0)
    c.close(c.call(s.mean), np.sum(x) / len(x), "mean", rtol=1e-12, atol=1e-13 * top)
    c.close(c.call(s.var), np.sum((x - x.mean()) ** 2) / len(x), "var", rtol=1e-9, atol=1e-24 * top ** 2)
    for q in ("max", "min", "mean", "var"):
        c.expect(np.ndim(getattr(s, q)()) == 0, "scalar", q)
    if not sd > 1e-7 * top:
        c.tag("constant record")
        return
    # rounding of a two-pass evaluation, observed to stay within one unit: eps * top/sd * (1 + E|z|^3)
    unit = 2.3e-16 * (1 + top / sd) * (1 + float(np.mean(np.abs((x - x.mean()) / sd) ** 3)))
    tol = 500 * unit
    Sk, As = c.call(s.get_skewness), c.call(s.get_asymmetry)
    c.expect(np.ndim(Sk) == 0 and np.ndim(As) == 0, "scalar", f"{Sk!r} {As!r}")
    rs, ra = refs.skewness(x), refs.asymmetry(x)
    c.close(Sk, rs, "skewness: third central moment over variance^1.5", rtol=1e-11, atol=tol, detail=f"{tg}")
    c.close(As, ra, "asymmetry: third moment of the Hilbert transform over variance^1.5", rtol=1e-11, atol=tol, detail=f"{tg}")
    if max(abs(rs), abs(ra)) > 0.01:
        c.nontrivial(x)

    def both(y):
        q = c.call(W.Series, t, y)
        return np.array([c.call(q.get_skewness), c.call(q.get_asymmetry)])
    base = np.array([Sk, As])
    a, o = float(10 ** r.uniform(-3, 3)), float(r.uniform(-10, 10) * sd)
    at = 2 * tol
    c.close(both(a * x), base, "independent of positive scaling", rtol=1e-10, atol=at)
    c.close(both(x + o), base, "independent of an offset", rtol=1e-10, atol=(1 + 11 * sd / top) * at)
    c.close(both(-x), -base, "both flip sign when negated", rtol=1e-9, atol=at)
    c.close(both(x[::-1]), base * [1, -1], "time reversal keeps skewness, flips asymmetry", rtol=1e-10, atol=at)


def w_known(c):
    """Shapes with known values: sine 0/0, a wave with a phase-locked second harmonic."""
    r = c.rng
    m = int(r.integers(3, 20))
    n = int(r.choice([128, 200, 255, 301, 512]))
    th = 2 * np.pi * m * np.arange(n) / n + r.uniform(0, 6)
    a, b = 1.0, float(r.uniform(0.05, 0.5))
    if 4 * m >= n // 2:
        return
    t = np.arange(n) * 0.25
    v = (a * a + b * b) / 2
    for ph in (0.0, np.pi / 2, -np.pi / 2, np.pi, float(r.uniform(0, 6))):
        x = a * np.cos(th) + b * np.cos(2 * th + ph) + 3.0
        s = c.call(W.Series, t, x)
        c.close(c.call(s.get_skewness), 0.75 * a * a * b * np.cos(ph) / v ** 1.5, "second harmonic: skewness", rtol=1e-8, atol=1e-9)
        c.close(c.call(s.get_asymmetry), 0.75 * a * a * b * -np.sin(ph) / v ** 1.5, "second harmonic: asymmetry", rtol=1e-8, atol=1e-9)
    c.nontrivial(th, b)


WORKLOADS = {"stats": (w_stats, 6000, 25000), "known": (w_known, 500, 1500),
             "far": (gens.far(w_stats), 24, 240)}
REQUIRED = {"skewness: third central moment over variance^1.5": 800, "asymmetry: third moment of the Hilbert transform over variance^1.5": 800,
            "second harmonic: asymmetry": 200}
