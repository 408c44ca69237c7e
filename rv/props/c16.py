"""C16: JONSWAP and Pierson-Moskowitz spectra."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C16"
RULE = ("axes from 0, below zero, above zero and far above zero, peak frequency on, between, below and beyond the grid, peak "
        "factors 1..10, both tail options; oracle: closed-form shape scaled by the reference m0 (Simpson, f^-5 tail to "
        "infinity when asked); non-trivial: peak inside the axis")


def shape(f, fp, hm0, gamma, tail):
    q = refs.jonswap_shape(f, fp, gamma)
    m0 = refs.moments(f, q, 0, f[0], np.inf if tail else f[-1])[0][0]
    return q * hm0 ** 2 / 16 / m0 if m0 > 0 else None


def w_shape(c):
    r = c.rng
    f, tf = gens.faxis(r, 3, 500)
    df = f[1] - f[0]
    if r.random() < 0.1:
        f = f - df * int(r.integers(1, 4))
        f[np.abs(f) < 1e-9 * df] = 0.0
        tf = "axis from below zero"
    k = r.random()
    if k < 0.4:
        fp = float(f[int(r.integers(len(f) // 8, len(f)))])
        c.tag("peak on the grid")
    elif k < 0.9:
        fp = float(f[0] + (f[-1] - f[0]) * r.uniform(0.05, 0.95))
        c.tag("peak between grid frequencies")
    else:
        fp = float(f[-1] * r.uniform(1.0, 1.5))
        c.tag("peak beyond the axis")
    if fp < df / 2 or fp <= 0 or f[-1] / fp > 400:
        fp = float(f[-1] / 2)
    hm0 = float(r.choice([1.0, 2.5, r.uniform(0.05, 12), 1e-3, np.exp(r.uniform(np.log(1e-6), np.log(1e5)))]))
    gam = float(r.choice([3.3, 1.0, 2.0, 7.0, r.uniform(1, 10), r.uniform(0.1, 1), np.exp(r.uniform(np.log(0.01), np.log(100)))]))
    tail = bool(r.random() < 0.4)
    c.tag(tf)
    c.tag("tail to infinity" if tail else "no tail")
    want = shape(f, fp, hm0, gam, tail)
    if want is None or not np.all(np.isfinite(want)):
        return
    V = W.wavef
    kw = {}
    if not (gam == 3.3 and r.random() < 0.5):
        kw["gammaPeak"] = gam
    if tail or r.random() < 0.5:
        kw["l_fmax"] = r.choice([1, 1.0]) if tail else r.choice([0, 0.0])
        kw["l_fmax"] = kw["l_fmax"].item()
    S = c.call(V.create_spectrum_jonswap, f, fp, hm0, **kw)
    # bins within rounding of the peak may fall on either side: sigma is discontinuous, the shape is not
    top = float(want.max())
    c.close(S, want, "JONSWAP shape scaled to the wave height", rtol=1e-9, atol=1e-13 * top, detail=f"fp {fp!r} hm0 {hm0!r} gamma {gam!r} {kw} df {df!r} f0 {f[0]!r}")
    c.expect(np.all(S[f <= 0] == 0), "zero at f <= 0", "")
    c.expect(np.all(S >= 0), "non-negative", "")
    m0 = refs.moments(f, np.asarray(S), 0, f[0], np.inf if tail else f[-1])[0][0]
    c.close(4 * np.sqrt(m0), hm0, "Hm0 is the imposed one", rtol=1e-9)
    o = c.call(V.create_spectrum_object_jonswap, f, fp, hm0, **kw)
    c.expect(isinstance(o, W.Spectrum), "object version", f"{type(o)}")
    c.close(o.sVarDens, S, "object carries the same densities", rtol=0)
    c.close(o.f, f, "object carries the same axis", rtol=0)
    if np.all(f >= 0):
        h = c.call(o.get_Hm0, fmax=np.inf) if tail else c.call(o.get_Hm0)
        c.close(h, hm0, "the package's own Hm0 is the imposed one", rtol=1e-9)
    # Pierson-Moskowitz: peak factor 1
    kp = {k: v for k, v in kw.items() if k == "l_fmax"}
    want1 = shape(f, fp, hm0, 1.0, tail)
    P = c.call(V.create_spectrum_piersonmoskowitz, f, fp, hm0, **kp)
    c.close(P, want1, "Pierson-Moskowitz is peak factor 1", rtol=1e-9, atol=1e-13 * float(want1.max()))
    o = c.call(V.create_spectrum_object_piersonmoskowitz, f, fp, hm0, **kp)
    c.close(o.sVarDens, P, "object carries the same densities", rtol=0)
    c.close(o.f, f, "object carries the same axis", rtol=0)
    # a peak factor given to the Pierson-Moskowitz constructors is a peak factor, in both versions
    P = c.call(V.create_spectrum_piersonmoskowitz, f, fp, hm0, gam, **kp)
    c.close(P, want, "Pierson-Moskowitz with a peak factor given", rtol=1e-9, atol=1e-13 * top)
    o = c.call(V.create_spectrum_object_piersonmoskowitz, f, fp, hm0, gammaPeak=gam, **kp)
    c.close(o.sVarDens, P, "object carries the same densities", rtol=0)
    if f[0] < fp < f[-1]:
        c.nontrivial(f[:2], len(f), fp, gam, tail)


def w_peak(c):
    """On a grid with a bin exactly at fp: sigma is 0.09 from the peak upwards, 0.07 below; values at single bins."""
    r = c.rng
    df = float(r.choice([0.01, 0.005, 0.0125, 1 / 64]))
    n = int(r.integers(40, 300))
    f = np.arange(n) * df
    j = int(r.integers(4, n - 5))
    fp = float(f[j])
    gam = float(r.uniform(1.5, 8))
    S = np.asarray(c.call(W.wavef.create_spectrum_jonswap, f, fp, 1.0, gam))
    P = np.asarray(c.call(W.wavef.create_spectrum_jonswap, f, fp, 1.0, 1.0))
    k = np.arange(max(1, j - 12), min(n, j + 12))
    k = k[P[k] > 1e-200]
    lam = np.log(S[k] / P[k])
    lam = lam - (np.log(S[j] / P[j]) - np.log(gam))
    sig = np.where(k < j, 0.07, 0.09)
    want = np.log(gam) * np.exp(-((f[k] / fp - 1) ** 2) / (2 * sig ** 2))
    c.close(lam, want, "peak enhancement around the peak", rtol=1e-7, atol=1e-7)
    c.close(c.call(W.wavef.create_spectrum_jonswap, f, fp, 2.0, gam), 4 * S, "proportional to the height squared", rtol=1e-10, atol=1e-300)
    c.nontrivial(f[:2], fp, gam)


def w_reject(c):
    r = c.rng
    f = np.arange(1, int(r.integers(5, 60))) * 0.01
    V = W.wavef
    for bad in (2, -1, 0.5, 3.0, np.nan, -0.001, 1.0001, 100):
        for fn in (V.create_spectrum_jonswap, V.create_spectrum_object_jonswap, V.create_spectrum_piersonmoskowitz,
                   V.create_spectrum_object_piersonmoskowitz):
            c.rejects(fn, f, 0.1, 1.0, l_fmax=bad, clause="other tail options rejected", what=f"l_fmax {bad!r}")
    for ok in (0, 1, 0.0, 1.0, False, True):
        c.call(V.create_spectrum_jonswap, f, 0.1, 1.0, l_fmax=ok, clause="documented tail options accepted")
    c.nontrivial(len(f))


WORKLOADS = {"shape": (w_shape, 5400, 20000), "peak": (w_peak, 1200, 4000), "reject": (w_reject, 12, 216),
             "far": (gens.far(w_shape), 12, 100)}
REQUIRED = {"JONSWAP shape scaled to the wave height": 500, "Pierson-Moskowitz is peak factor 1": 500, "peak enhancement around the peak": 150,
            "other tail options rejected": 300}
