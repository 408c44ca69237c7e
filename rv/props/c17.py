"""C17: the dispersion relation."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C17"
RULE = ("angular frequencies from 1e-8 to 1e4 and depths from 1e-4 to 1e6 (so kh from 1e-12 to beyond 1e9), regular and "
        "logarithmic axes, zero, negative, scalar, list, column and matrix input, infinite and negative depth; oracle: "
        "residual of the relation in extended precision and an independent Newton solution; non-trivial: kh between 1e-3 and 20")


def residual(w, k, h, g):
    L = np.longdouble
    w, k = np.abs(np.asarray(w, L)), np.abs(np.asarray(k, L))
    kh = k * L(h)
    rhs = L(g) * k * np.tanh(kh)
    with np.errstate(all="ignore"):
        return np.asarray(np.where(w > 0, np.abs(rhs - w * w) / np.where(w > 0, w * w, 1), np.abs(rhs)), float)


def freqs(c):
    r = c.rng
    k = r.random()
    n = gens.size(r, 1, 400, 0.5)
    if k < 0.3:
        w = 2 * np.pi * np.arange(n) * float(r.choice([0.01, 0.1, 1 / 3, 1e-4]))
        c.tag("regular axis from zero")
    elif k < 0.6:
        w = np.exp(r.uniform(np.log(1e-8), np.log(1e4), n))
        c.tag("any order")
    elif k < 0.8:
        w = np.logspace(-6, 3, n)
        c.tag("logarithmic")
    else:
        w = r.uniform(-5, 5, n)
        w[r.random(n) < 0.2] = 0.0
        c.tag("signs and zeros")
    return w


def depth(c):
    r = c.rng
    return float(r.choice([np.exp(r.uniform(np.log(1e-4), np.log(1e6))), r.uniform(0.1, 50), 10.0, 1.0]))


def check(c, w, k, h, g, what):
    k = np.asarray(k, float)
    c.expect(k.shape == w.shape, what + ": shape of the input", f"{k.shape} {w.shape}")
    c.expect(np.all(np.isfinite(k)), what + ": finite", f"h {h!r}")
    c.expect(np.all((k == 0) == (w == 0)) and np.all(np.sign(k) == np.sign(w)), what + ": zero at zero, sign of w", f"h {h!r}")
    res = residual(w, k, h, g)
    i = int(np.argmax(res)) if res.size else 0
    c.note["largest residual"] = float(res.max()) if res.size else 0.0
    c.expect(res.size == 0 or res[i] < 1e-11, what + ": w^2 = g k tanh(kh)", lambda: f"relative residual {res[i]!r} at w={w[i]!r} h={h!r} g={g!r} k={k[i]!r}")
    ref = np.sign(w) * refs.wavenumber(w, h, g)
    c.close(k, ref, what + ": the independent solution", rtol=1e-11, detail=f"h {h!r}")


def w_disper(c):
    r = c.rng
    w, h = freqs(c), depth(c)
    g = float(r.choice([9.81, 9.81, 9.81, 1.62, 9.8, r.uniform(1, 30), 32.174, 981.0, np.exp(r.uniform(np.log(1e-3), np.log(1e4)))]))
    args = (w, h) if g == 9.81 and r.random() < 0.5 else (w, h, g)
    k = c.call(W.disp.disper, *args)
    check(c, w, k, h, g, "disper")
    c.close(c.call(W.disp.disper, -w, *args[1:]), -np.asarray(k), "odd in w", rtol=0)
    i = int(r.integers(len(w)))
    one = c.call(W.disp.disper, float(w[i]), *args[1:])
    c.expect(np.shape(one) == (1,), "one element for a scalar", f"{np.shape(one)}")
    c.close(one[0], k[i], "same value alone and in an array", rtol=1e-14)
    p = r.permutation(len(w))
    c.close(c.call(W.disp.disper, w[p], *args[1:]), np.asarray(k)[p], "elementwise", rtol=1e-14)
    kh = np.abs(k) * h
    if np.any((kh > 1e-3) & (kh < 20)):
        c.nontrivial(w, h)
    c.tag("kh from 1e%d" % np.floor(np.log10(max(kh[kh > 0].min(), 1e-30))) if np.any(kh > 0) else "only zero")
    # monotone in w
    o = np.argsort(np.abs(w))
    c.expect(np.all(np.diff(np.abs(k)[o]) >= 0), "increases with frequency", f"h {h!r}")


def w_sweep(c):
    """A dense sweep through kh for one depth: no step, dip or gap."""
    h = depth(c)
    lo = -12 + 0.5 * (c.idx % 40)
    x = np.logspace(lo, lo + 0.5, 400)          # w^2 h / g
    w = np.sqrt(x * 9.81 / h)
    k = c.call(W.disp.disper, w, h)
    check(c, w, k, h, 9.81, "sweep")
    c.expect(np.all(np.diff(np.asarray(k)) > 0), "strictly increasing on a sweep", f"from kh^2 1e{lo}")
    c.nontrivial(h, lo)


def w_limits(c):
    r = c.rng
    w = freqs(c)
    g = float(r.choice([9.81, 1.62, r.uniform(1, 30), np.exp(r.uniform(np.log(1e-3), np.log(1e4)))]))
    args = (g,) if g != 9.81 else ()
    k = c.call(W.disp.disper, w, np.inf, *args)
    if np.all(w >= 0):
        c.close(k, w ** 2 / g, "infinite depth: deep water", rtol=1e-14)
    else:
        c.close(np.abs(k), w ** 2 / g, "infinite depth: deep water", rtol=1e-14)
    h = depth(c)
    c.close(c.call(W.disp.disper, w, -h, *args), w / np.sqrt(g * h), "negative depth: shallow water", rtol=1e-13)
    for v in (float(w[0]), np.float64(w[0])):
        c.close(c.call(W.disp.disper, abs(v), np.inf, *args), np.array([w[0] ** 2 / g]), "infinite depth: deep water", rtol=1e-14)
        c.close(c.call(W.disp.disper, v, -h, *args), np.array([w[0] / np.sqrt(g * h)]), "negative depth: shallow water", rtol=1e-13)
    # the general solution tends to the two limits
    big = c.call(W.disp.disper, np.abs(w), 1e9, *args)
    m = w ** 2 * 1e9 / g > 1e3
    c.close(np.asarray(big)[m], (w ** 2 / g)[m], "deep limit of the general solution", rtol=1e-11)
    small = c.call(W.disp.disper, np.abs(w), 1e-9, *args)
    m = w ** 2 * 1e-9 / g < 1e-13
    c.close(np.asarray(small)[m], (np.abs(w) / np.sqrt(g * 1e-9))[m], "shallow limit of the general solution", rtol=1e-11)
    c.nontrivial(w, h)


def w_shapes(c):
    r = c.rng
    n = int(r.integers(1, 30))
    w = r.uniform(0, 5, n)
    h = float(r.choice([10.0, 1.0, np.inf, -5.0]))
    base = np.asarray(c.call(W.disp.disper, w, h))
    c.expect(base.shape == (n,), "shape of the input", f"{base.shape}")
    for form in (list(w), tuple(w), [float(v) for v in w]):
        c.close(c.call(W.disp.disper, form, h), base, "lists and tuples", rtol=1e-14)
    col = c.call(W.disp.disper, w.reshape(-1, 1), h)
    c.expect(np.asarray(col).size == n, "column vector", f"{np.shape(col)}")
    c.close(np.asarray(col).ravel(), base, "column vector", rtol=1e-14)
    if n > 3:
        m = (n // 2) * 2
        mat = c.call(W.disp.disper, w[:m].reshape(2, -1), h)
        c.expect(np.shape(mat) == (2, m // 2), "matrix keeps its shape", f"{np.shape(mat)}")
        c.close(np.asarray(mat).ravel(), base[:m], "matrix values", rtol=1e-14)
    for v in (2, np.int64(2), np.float32(2.0)):
        one = c.call(W.disp.disper, v, h)
        c.expect(np.shape(one) == (1,), "one element for a scalar", f"{np.shape(one)}")
        c.close(one, c.call(W.disp.disper, float(v), h), "integer and other scalars", rtol=1e-3 if isinstance(v, np.float32) else 1e-14)
    wi = np.arange(n)
    c.close(c.call(W.disp.disper, wi, h), c.call(W.disp.disper, wi.astype(float), h), "integer arrays", rtol=1e-14)
    c.nontrivial(w, h)


WORKLOADS = {"disper": (w_disper, 9000, 40000), "sweep": (w_sweep, 1440, 4320), "limits": (w_limits, 2400, 8000), "shapes": (w_shapes, 1200, 3600),
             "far": (gens.far(w_disper), 24, 300)}
REQUIRED = {"disper: w^2 = g k tanh(kh)": 1000, "sweep: the independent solution": 200, "one element for a scalar": 500,
            "infinite depth: deep water": 400, "odd in w": 1000}
