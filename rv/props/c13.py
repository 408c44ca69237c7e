"""C13: peak periods."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C13"
RULE = ("spectra with single, tied, flat, edge and interior peaks and bands that move the peak to the band edge; bands of "
        "1, 2, 3 and more bins; reference: highest tied bin (Tp), vertex of the three-point parabola (Tps), span of "
        "S >= 0.6 Smax (TpD); peaks at zero frequency are left out; non-trivial: interior peak")


def tol_tps(f, S, df):
    """Frequency tolerance of a vertex: conditioning of a quadratic through three nearby points."""
    top = float(np.max(S))
    i = int(np.argmax(S))
    j = min(max(i, 1), len(f) - 2)
    d2 = abs(S[j - 1] - 2 * S[j] + S[j + 1]) if len(f) > 2 else top
    amp = top / max(d2, 1e-300)
    return df * (1e-9 + 1e-14 * (f[-1] / df) ** 2 * amp)


def check(c, Tp, Tps, f, S, df, what):
    """f, S: the band."""
    top = S.max()
    ties = f[S == top]
    if ties[0] == 0 or top < 1e-9:
        c.tag("peak at zero frequency or no energy")
        return False
    if Tp is not None:
        c.close(Tp, 1 / ties[-1], what + ": Tp is the (highest) peak frequency", rtol=1e-13)
    if Tps is None:
        return True
    tol = tol_tps(f, S, df)
    ok = refs.tps(f, S)
    F = 1 / Tps
    # an exact vertex at the edge of the band may fall on either side by rounding
    if len(ties) == 1 and len(f) > 2:
        i = int(np.argmax(S))
        j = min(max(i, 1), len(f) - 2)
        v = refs.vertex(f[j - 1: j + 2], S[j - 1: j + 2])
        if v is not None and min(abs(v - f[0]), abs(v - f[-1])) < 10 * tol:
            ok = ok + [1 / v, 1 / ties[0]]
    c.expect(any(abs(F - 1 / v) <= tol for v in ok), what + ": Tps is the vertex of the peak parabola",
             lambda: f"got 1/Tps={F!r}, expected {[1/v for v in ok]} (tolerance {tol!r}); band {f[0]!r}..{f[-1]!r}, df {df!r}, "
                     f"peak bins {ties!r}, S near {S[max(0, int(np.argmax(S)) - 1): int(np.argmax(S)) + 3]!r}")
    c.expect(f[0] - tol <= F <= f[-1] + tol, what + ": Tps inside the band", f"{F!r} not in {f[0]!r}..{f[-1]!r}")
    i = int(np.argmax(S))
    if len(ties) == 1 and 0 < i < len(f) - 1:
        c.expect(abs(F - f[i]) <= df / 2 + tol, what + ": Tps within half a bin of an interior peak", f"{F!r} {f[i]!r} {df!r}")
        return True
    return False


def w_band(c):
    r = c.rng
    f, S, tg = gens.spec(r, 3, 500)
    df = f[1] - f[0]
    if r.random() < 0.2:
        S[int(r.integers(0, len(S)))] = S.max()
    fmin, fmax, tb = gens.band(r, f, 1)
    fb, Sb = gens.inside(f, S, fmin, fmax)
    if len(fb) == 0 or Sb.max() < 1e-9 or (fb[0] == 0 and Sb[0] == Sb.max()):
        return
    for q in tg + tuple(tb):
        c.tag(q)
    c.tag("band of %s bins" % (len(fb) if len(fb) < 4 else "many"))
    s = c.call(W.Spectrum, f, S)
    Tp, Tps = c.call(s.get_Tp, fmin, fmax), c.call(c.call(W.Spectrum, f, S).get_Tps, fmin, fmax)
    for v in (Tp, Tps):
        c.expect(np.ndim(v) == 0, "scalar", f"{v!r}")
    good = check(c, Tp, Tps, fb, Sb, df, "Spectrum")
    if len(fb) > 1:
        check(c, None, c.call(W.wavef.compute_tps, fb, Sb), fb, Sb, df, "compute_tps")
    got = c.call(W.wavef.compute_spectrum_params, f, S, fmin, fmax)
    if not np.isnan(got[0]):
        check(c, got[1], got[2], fb, Sb, df, "compute_spectrum_params")
    if good:
        c.nontrivial(fb, Sb)


def w_parabola(c):
    """Exact parabolas over the bins around the vertex are recovered exactly, also from coarse bins."""
    r = c.rng
    n = int(r.integers(5, 40))
    df = float(r.choice([0.01, 0.05, 0.1, 1 / 64]))
    f = df * r.integers(1, 20) + np.arange(n) * df
    k = int(r.integers(1, n - 1))
    fv = f[k] + df * r.uniform(-0.49, 0.49)
    S = 5.0 - ((f - fv) / df) ** 2 * r.uniform(0.1, 1)
    S = np.maximum(S, 0.0)
    T = c.call(W.wavef.compute_tps, f, S)
    c.close(1 / T, fv, "exact parabola recovered", rtol=0, atol=1e-6 * df, detail=f"n {n} k {k} df {df}")
    c.close(1 / c.call(c.call(W.Spectrum, f, S).get_Tps), fv, "exact parabola recovered", rtol=0, atol=1e-6 * df)
    # vertex beyond the band: fall back on the end bin
    g = f[: k + 1] if r.random() < 0.5 else f[k:]
    if len(g) >= 3:
        fv = (g[-1] + df * r.uniform(0.01, 3)) if g[0] == f[0] else (g[0] - df * r.uniform(0.01, 3))
        Z = 50.0 - ((g - fv) / df) ** 2 * 0.05
        Z = np.where(Z > 1e-3, Z, 1e-3)
        end = g[-1] if g[0] == f[0] else g[0]
        if np.argmax(Z) in (0, len(g) - 1):
            T = c.call(W.wavef.compute_tps, g, Z)
            c.close(1 / T, end, "vertex outside the band: end bin", rtol=0, atol=1e-6 * df)
    c.nontrivial(S)


def w_ties(c):
    """Two, three and more tied highest bins."""
    r = c.rng
    n = int(r.integers(4, 60))
    df = 0.02
    f = df * r.integers(1, 5) + np.arange(n) * df
    S = r.random(n) * 0.9
    k = int(r.integers(0, n - 1))
    m = int(r.integers(2, 5))
    i = np.arange(k, min(k + m, n)) if r.random() < 0.5 else np.sort(r.choice(n, min(m, n), replace=False))
    S[i] = 1.0
    c.tag(f"{len(i)} tied bins, " + ("adjacent" if len(i) == 2 and i[1] - i[0] == 1 else "block" if np.all(np.diff(i) == 1) else "apart"))
    s = c.call(W.Spectrum, f, S)
    check(c, c.call(s.get_Tp), c.call(s.get_Tps), f, S, df, "ties")
    if len(i) == 2 and i[1] - i[0] == 1:
        F = 1 / c.call(s.get_Tps)
        c.expect(f[i[0]] - 1e-9 <= F <= f[i[1]] + 1e-9, "two adjacent tied bins: between them", f"{F!r} {f[i]!r}")
    c.nontrivial(S)


def w_tpd(c):
    r = c.rng
    f, S, tg = gens.spec(r, 3, 500)
    df = f[1] - f[0]
    top = S.max()
    span = f[S >= 0.6 * top]
    if top <= 0 or span[0] == 0:
        return
    for q in tg:
        c.tag(q)
    T = c.call(W.wavef.tpd, f, S)
    c.expect(np.ndim(T) == 0 and np.isfinite(T), "TpD is a finite scalar", f"{T!r}")
    F = 1 / T
    c.expect(span[0] * (1 - 1e-9) <= F <= span[-1] * (1 + 1e-9), "TpD inside the span of S >= 0.6 Smax",
             f"1/TpD {F!r} not in {span[0]!r}..{span[-1]!r}, n {len(f)} df {df!r}")
    c.nontrivial(f[:2], S)


WORKLOADS = {"band": (w_band, 20000, 60000), "parabola": (w_parabola, 4000, 12000), "ties": (w_ties, 4000, 12000), "tpd": (w_tpd, 7200, 21600),
             "far": (gens.far(w_band), 100, 800), "far_tpd": (gens.far(w_tpd), 24, 200)}
REQUIRED = {"Spectrum: Tps is the vertex of the peak parabola": 1000, "exact parabola recovered": 500,
            "TpD inside the span of S >= 0.6 Smax": 400, "ties: Tp is the (highest) peak frequency": 300}
