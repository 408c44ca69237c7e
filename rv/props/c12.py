"""C12: Hm0, Tm-1,0, Tm01, Tm02 at every entry point."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C12"
RULE = ("spectra and bands from rv.gens (at least three bins, bounds on or clearly off the grid, either defaulted, beyond "
        "the axis or infinite); each parameter of the Spectrum methods and of compute_spectrum_params against moments of the "
        "reference model; non-trivial: non-zero energy in the band and a band that is not the whole axis")


def params(f, S, fmin, fmax):
    a = [None if v == -1.0 else v for v in (fmin, fmax)]
    m = {k: refs.moments(f, S, k, *a)[0][0] for k in (-1, 0, 1, 2)}
    return m


def w_params(c):
    r = c.rng
    f, S, tg = gens.spec(r, 3, 600)
    if f[0] == 0 and r.random() < 0.5:
        S[0] = 0.0
    fmin, fmax, tb = gens.band(r, f, 3)
    for q in tg + tuple(tb):
        c.tag(q)
    m = params(f, S, fmin, fmax)
    Hm0 = 4 * np.sqrt(m[0])
    if not 1e-5 < Hm0 or m[1] <= 0 or not np.isfinite(m[2]):
        if Hm0 < 0.9e-6:
            got = c.call(W.wavef.compute_spectrum_params, f, S, fmin, fmax)
            c.expect(len(got) == 6 and np.all(np.isnan(np.asarray(got, float))), "zero energy gives NaN", f"Hm0 {Hm0!r}: {got!r}")
        c.tag("band without energy")
        return
    want = [Hm0, None, None, m[-1] / m[0], m[0] / m[1], np.sqrt(m[0] / m[2])]
    got = c.call(W.wavef.compute_spectrum_params, f, S, fmin, fmax)
    c.expect(len(got) == 6, "six parameters", f"{got!r}")
    names = ["Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02"]
    for nm, g, w in zip(names, got, want):
        if w is not None:
            c.close(g, w, f"compute_spectrum_params {nm}", rtol=1e-8, detail=f"band {fmin!r} {fmax!r} n {len(f)}")
    for nm, g, w in zip(names, got, want):
        s = c.call(W.Spectrum, f, S)
        v = c.call(getattr(s, "get_" + nm), fmin, fmax)
        if w is not None:
            c.close(v, w, f"Spectrum.get_{nm}", rtol=1e-8, detail=f"band {fmin!r} {fmax!r} n {len(f)}")
        c.close(v, g, f"{nm} the same from both entry points", rtol=1e-9, detail=f"band {fmin!r} {fmax!r} n {len(f)}")
        c.close(getattr(s, nm), v, "attribute holds the value", rtol=0)
    # keyword and default forms
    if fmin == -1.0 and fmax == -1.0:
        g2 = c.call(W.wavef.compute_spectrum_params, f, S)
        c.close(np.array(g2, float), np.array(got, float), "default band is the whole axis", rtol=1e-12)
        lo, hi = gens.limits(f, fmin, fmax)
        g2 = c.call(W.wavef.compute_spectrum_params, f, S, fmin=lo, fmax=hi)
        c.close(np.array(g2, float), np.array(got, float), "default band is the whole axis", rtol=1e-9)
    else:
        c.nontrivial(S, fmin, fmax)


def w_zero(c):
    """Around the limit Hm0 = 1e-6."""
    r = c.rng
    f, S, tg = gens.spec(r, 3, 300, kind=str(r.choice(["jonswap", "pm", "white", "random", "swell"])))
    m = params(f, S, -1.0, -1.0)
    h = 4 * np.sqrt(m[0])
    if h <= 0:
        return
    for target, nan in ((0.5e-6, True), (0.9e-6, True), (0.0, True), (1e-12, True), (1.1e-6, False), (2e-6, False), (1e-3, False)):
        Z = S * (target / h) ** 2
        got = np.array(c.call(W.wavef.compute_spectrum_params, f, Z), float)
        if nan:
            c.expect(np.all(np.isnan(got)), "zero energy gives NaN", f"Hm0 {target!r}: {got!r}")
        else:
            c.close(got[0], target, "Hm0 above the limit is reported", rtol=1e-7)
            c.close(got[3], m[-1] / m[0], "periods above the limit are reported", rtol=1e-7)
            c.close(got[4], m[0] / m[1], "periods above the limit are reported", rtol=1e-7)
            c.close(got[5], np.sqrt(m[0] / m[2]), "periods above the limit are reported", rtol=1e-7)
    c.nontrivial(S)


def w_parts(c):
    """Adjacent bands: Hm0^2 adds up (bands that share a grid frequency, Simpson on even interval counts)."""
    r = c.rng
    n = 2 * int(r.integers(2, 100)) + 1
    f = np.arange(n) * 0.01 + 0.01 * r.integers(0, 5)
    S, _ = gens.density(r, f)
    i = 2 * int(r.integers(1, (n - 1) // 2))
    s = c.call(W.Spectrum, f, S)
    a, b, t = (c.call(s.get_Hm0, f[0], f[i]), c.call(s.get_Hm0, f[i], f[-1]), c.call(s.get_Hm0))
    c.close(a ** 2 + b ** 2, t ** 2, "energy of adjacent bands adds up", rtol=1e-8)
    c.nontrivial(S, i)


WORKLOADS = {"params": (w_params, 9000, 40000), "zero": (w_zero, 1500, 5000), "parts": (w_parts, 1500, 5000),
             "far": (gens.far(w_params), 32, 300)}
REQUIRED = {"compute_spectrum_params Hm0": 800, "Spectrum.get_Tm02": 800, "Tps the same from both entry points": 800, "zero energy gives NaN": 500}
