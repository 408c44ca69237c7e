"""C21: the Battjes-Groenendijk distribution."""
import math

import numpy as np

from rv import refs
from rv.target import W

PROP = "C21"
RULE = ("Hm0, depth, slope, number of waves and tolerance chosen so that the normalised transition height runs from 0.03 to "
        "beyond 2.75; H1 is recovered from the returned P(Htr), put into the independently written second-moment equation and "
        "compared with its root; non-trivial: transition height below 2.75")


def cases(c):
    r = c.rng
    hm0 = float(np.exp(r.uniform(np.log(0.05), np.log(15)) if r.random() < 0.8 else r.uniform(np.log(1e-4), np.log(1e4))))
    ratio = float(np.exp(r.uniform(np.log(0.08), np.log(3.0))))
    d = hm0 / ratio
    cot = float(r.choice([20.0, 250.0, 100.0, r.uniform(20, 250), r.uniform(20, 250)]))
    n = int(r.choice([2, 3, 10, 100, 1000, 700, 50, 10 ** 5, int(np.exp(r.uniform(0.7, 12)))]))
    return hm0, d, cot, n


def is_warn(c, word):
    return [w for w in c.warned if issubclass(w.category, UserWarning) and word in str(w.message)]


def w_bg(c):
    r = c.rng
    hm0, d, cot, n = cases(c)
    tol = float(r.choice([1e-5, 1e-5, 1e-3, 1e-7, 1e-9]))
    kw = {} if tol == 1e-5 and r.random() < 0.5 else {"tolerance": tol}
    if not (cot == 250.0 and r.random() < 0.5):
        kw["cota_slope"] = cot
    sm0 = hm0 / 4
    Htr = (0.35 + 5.8 / cot) * d
    Hrms = sm0 * (2.69 + 3.24 * sm0 / d)
    htr = Htr / Hrms
    if abs(htr - 2.75) < 1e-9 or htr < 0.03:
        return
    fn = W.wavef.compute_BattjesGroenendijk_wave_height_distribution
    got = c.call(fn, hm0, n, d, **kw)
    c.expect(len(got) == 2, "two arrays", f"{got!r}")
    h, p = (np.asarray(v) for v in got)
    c.expect(not is_warn(c, "slope"), "no slope warning within 1:250-1:20", f"cot {cot!r}")
    if htr > 2.75:
        c.tag("transition above 2.75")
        c.expect(h.size == 0 and p.size == 0, "empty beyond the validity limit", f"htr {htr!r}: {h!r} {p!r}")
        c.expect(len(is_warn(c, "2.75")) >= 1, "warns beyond the validity limit", f"htr {htr!r}")
        return
    c.expect(not is_warn(c, "2.75"), "no warning below the validity limit", f"htr {htr!r}")
    c.expect(h.shape == (3,) and p.shape == (3,), "three points", f"{h!r} {p!r}")
    c.close(h[0], 0.0, "first point (0, 1)", rtol=0)
    c.close(p[0], 1.0, "first point (0, 1)", rtol=0)
    c.close(h[1], Htr, "transition height (0.35 + 5.8/cot) d", rtol=1e-12)
    c.close(p[2], 1 / n, "last point at 1/N", rtol=1e-12)
    c.expect(0 < p[1] < 1 or htr < 0.1, "P(Htr) is a probability", f"{p!r}")
    if not 1e-14 < p[1] < 1 - 1e-12:
        return
    H1n = htr / math.sqrt(-math.log(p[1]))
    acc = 4e-16 / p[1] / abs(math.log(p[1])) + 4e-16 / abs(math.log(p[1]))  # rounding of P itself
    slope = (refs.bg_equation(H1n * 1.0001, htr) - refs.bg_equation(H1n * 0.9999, htr)) / 2e-4
    eq = refs.bg_equation(H1n, htr) - 1
    c.note["largest residual over tolerance"] = abs(eq) / tol
    c.expect(abs(eq) <= tol * (1 + 1e-6) + 1e-12 + abs(slope) * acc, "normalised second moment is one within the tolerance",
             f"residual {eq!r} tolerance {tol!r}, htr {htr!r} H1n {H1n!r} (root {refs.bg(hm0, n, d, cot)['H1n']!r})")
    H1, H2n = H1n * Hrms, htr / (htr / H1n) ** (2 / 3.6)
    x1, x2 = H1 * math.sqrt(math.log(n)), H2n * Hrms * math.log(n) ** (1 / 3.6)
    cap = hm0 * math.sqrt(math.log(n) / 2)
    ok = [min(x1 if x1 < Htr else x2, cap)]
    if abs(x1 - Htr) < 1e-6 * Htr:
        ok = [min(x1, cap), min(x2, cap)]
    c.tag("last height capped by Rayleigh" if cap < min(x1 if x1 < Htr else x2, math.inf) else ("first Weibull" if x1 < Htr else "second Weibull"))
    c.expect(any(abs(h[2] - v) <= 1e-7 * v + acc * v for v in ok), "last height of the composite Weibull, capped by Rayleigh",
             f"got {h[2]!r} expected {ok} (first {x1!r} second {x2!r} cap {cap!r}) N {n} hm0 {hm0!r} d {d!r} cot {cot!r}")
    c.nontrivial(hm0, d, cot, n, tol)


def w_slope(c):
    """Slopes around and outside the validity range."""
    r = c.rng
    hm0, d, _, n = cases(c)
    cot = float(r.choice([r.uniform(5, 19.9), 19.999, r.uniform(251, 1000), 250.001, 20.0, 250.0, np.nextafter(250, 300), np.nextafter(20, 0)]))
    Hrms = hm0 / 4 * (2.69 + 3.24 * hm0 / 4 / d)
    htr = (0.35 + 5.8 / cot) * d / Hrms
    if abs(htr - 2.75) < 1e-9 or htr < 0.03:
        return
    h, p = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, hm0, n, d, cot)
    out = cot < 20 or cot > 250
    c.expect(bool(is_warn(c, "slope")) == out, "warns exactly outside 1:250-1:20", f"cot {cot!r}")
    c.expect(bool(is_warn(c, "2.75")) == (htr > 2.75), "warns exactly beyond the validity limit", f"htr {htr!r}")
    c.expect((np.size(h) == 0) == (htr > 2.75), "empty beyond the validity limit", f"{htr!r}")
    if htr <= 2.75:
        c.close(h[1], (0.35 + 5.8 / cot) * d, "transition height (0.35 + 5.8/cot) d", rtol=1e-12)
        c.nontrivial(hm0, d, cot)


def w_limit(c):
    """Normalised transition heights just below and above 2.75."""
    r = c.rng
    cot = float(r.uniform(20, 250))
    gam = 0.35 + 5.8 / cot
    d = float(r.uniform(0.5, 20))
    for htr in (2.75 - 10.0 ** -r.integers(2, 7), 2.75 + 10.0 ** -r.integers(2, 7), 2.7, 2.9, 5.0, 40.0):
        # gam d / (s (2.69 + 3.24 s/d)) = htr
        a, b, q = 3.24 / d, 2.69, -gam * d / htr
        s = (-b + math.sqrt(b * b - 4 * a * q)) / (2 * a)
        h, p = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, 4 * s, 500, d, cot)
        c.expect((np.size(h) == 0 and np.size(p) == 0) == (htr > 2.75), "empty beyond the validity limit", f"htr {htr!r} {h!r}")
        c.expect(bool(is_warn(c, "2.75")) == (htr > 2.75), "warns exactly beyond the validity limit", f"htr {htr!r}")
    c.nontrivial(cot, d)


WORKLOADS = {"bg": (w_bg, 2000, 9000), "slope": (w_slope, 800, 3000), "limit": (w_limit, 40, 500)}
REQUIRED = {"normalised second moment is one within the tolerance": 200, "last height of the composite Weibull, capped by Rayleigh": 200,
            "empty beyond the validity limit": 200, "warns exactly outside 1:250-1:20": 100}
