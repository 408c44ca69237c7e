"""C14: high/low-frequency split and steepness."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C14"
RULE = ("spectra from rv.gens, default and explicit bounds, g from 1 to 30; default cut-offs within 2% of a bin of a midpoint "
        "between grid frequencies or beyond the last bin but two are left out; reference: moments of rv.refs with the cut-off "
        "0.45/Tm-1,0 of the whole spectrum; non-trivial: energy on both sides of the cut-off")

GETTERS = ["get_Hm0_HF", "get_Hm0_LF", "get_Tmm10_HF", "get_Tmm10_LF"]


def H(f, S, a, b):
    return 4 * np.sqrt(refs.moments(f, S, 0, a, b)[0][0])


def T(f, S, a, b):
    m0 = refs.moments(f, S, 0, a, b)[0][0]
    return refs.moments(f, S, -1, a, b)[0][0] / m0 if m0 > 0 else np.nan


def cut(f, S):
    m0 = refs.moments(f, S, 0)[0][0]
    return 0.45 * m0 / refs.moments(f, S, -1)[0][0]


def clear(f, v):
    df = f[1] - f[0]
    q = (v - f[0]) / df
    return abs(q - np.floor(q) - 0.5) > 0.02


def warned(c):
    return [w for w in c.warned if issubclass(w.category, UserWarning) and "utoff" in str(w.message)]


def usable(c, f, S):
    fc = cut(f, S)
    if not np.isfinite(fc) or not clear(f, fc) or fc > f[-1] - 3 * (f[1] - f[0]):
        return None
    if f[0] == 0 and fc < f[1] * 1.5:  # the bound 0..fc holds no bin of the m-1 integral
        return None
    return fc


def spectrum(c):
    kind = None if c.rng.random() < 0.5 else str(c.rng.choice(["jonswap", "double", "pm", "swell"]))
    f, S, tg = gens.spec(c.rng, 12, 600, kind=kind, fkind=None if c.rng.random() < 0.4 else str(c.rng.choice(["0", "df"])))
    if c.rng.random() < 0.5:  # energy on both sides of the cut-off
        S = S + S.max() * c.rng.uniform(0.01, 0.3) * c.rng.random(len(S))
    for q in tg:
        c.tag(q)
    return f, S


def w_split(c):
    r = c.rng
    f, S = spectrum(c)
    if S.sum() == 0:
        return
    fc = usable(c, f, S)
    if fc is None:
        c.tag("cut-off unusable")
        return
    if fc * 1.2 > f[-1]:
        c.tag("cut-off at the end of the axis")
        return
    g1, g2 = float(r.uniform(0, fc * 0.7)), float(r.uniform(fc * 1.2, f[-1]))
    ok = H(f, S, fc, f[-1]) > 1e-4 and H(f, S, f[0], fc) > 1e-4
    c.tag("energy on both sides" if ok else "one-sided energy")
    for name in GETTERS:
        ref = H if "Hm0" in name else T
        hf = "_HF" in name
        a, b = (fc, f[-1]) if hf else (f[0], fc)
        want = ref(f, S, a, b)
        s = c.call(W.Spectrum, f, S)
        got = c.call(getattr(s, name))
        # a warning names the cut-off it assumes
        c.expect(len(warned(c)) >= 1, "warns without explicit cut-off", name)
        if "Tmm10" not in name or H(f, S, a, b) > 1e-4:
            c.close(got, want, f"{name} splits at 0.45/Tm-1,0", rtol=1e-8, atol=1e-9 if "Hm0" in name else 0, detail=f"cut {fc!r} df {f[1]!r}")
            c.close(getattr(s, name[4:]), got, "attribute holds the value", rtol=0)
        # explicit bounds: exactly the given band, no default and no warning
        lo, hi = (g2 * 0.8, -1.0) if hf else (-1.0, g1 * 0.8 + 0.3 * fc)
        if r.random() < 0.5:
            lo, hi = gens.band(r, f, 3)[:2]
            if lo == -1.0:
                lo = float(f[0])
            if hi == -1.0:
                hi = float(f[-1])
        elif not (clear(f, hi if lo == -1.0 else lo)):
            continue
        a, b = gens.limits(f, lo, hi)
        if a >= b or H(f, S, a, b) < 1e-4:
            continue
        s = c.call(W.Spectrum, f, S)
        got = c.call(getattr(s, name), lo, hi)
        c.close(got, ref(f, S, a, b), f"{name} of an explicit band", rtol=1e-8, detail=f"{lo!r} {hi!r}")
        if (hf and lo != -1.0) or (not hf and hi != -1.0):
            c.expect(not warned(c), "no warning with an explicit cut-off", name)
    # one-sided explicit bound together with the default cut-off
    s = c.call(W.Spectrum, f, S)
    top = float(f[-1] * r.uniform(1.05, 3)) if r.random() < 0.5 else np.inf
    c.close(c.call(s.get_Hm0_HF, fmax=top), H(f, S, fc, top), "upper bound given, default cut-off", rtol=1e-8, atol=1e-9)
    if fc > f[0] + 4 * (f[1] - f[0]):
        lo = float(f[1] if r.random() < 0.5 else f[2])
        c.close(c.call(s.get_Hm0_LF, fmin=lo), H(f, S, lo, fc), "lower bound given, default cut-off", rtol=1e-8, atol=1e-9)
    if ok:
        c.nontrivial(f[:2], S)


def w_steep(c):
    r = c.rng
    f, S = spectrum(c)
    if S.sum() == 0:
        return
    g = float(r.choice([9.81, 9.81, 1.62, 9.7803, r.uniform(1, 30), 981.0, 32.174, 10 ** r.uniform(-3, 4)]))
    lo, hi, tb = gens.band(r, f, 5)
    for q in tb:
        c.tag(q)
    a, b = gens.limits(f, lo, hi)
    fb, Sb = gens.inside(f, S, lo, hi)
    if H(f, S, a, b) < 1e-3 or len(fb) < 3 or Sb.max() < 1e-9 or (fb[0] == 0 and Sb[0] == Sb.max()):
        return
    kw = {} if g == 9.81 and r.random() < 0.5 else {"g": g}
    s = c.call(W.Spectrum, f, S)
    h = H(f, S, a, b)
    got = c.call(s.get_smm10, lo, hi, **kw)
    c.close(got, 2 * np.pi * h / (g * T(f, S, a, b) ** 2), "steepness with Tm-1,0", rtol=1e-7, detail=f"{lo!r} {hi!r} {g!r}")
    ok = [2 * np.pi * h / (g * v ** 2) for v in refs.tps(fb, Sb)]
    got = c.call(c.call(W.Spectrum, f, S).get_s0p, lo, hi, **kw)
    from rv.props.c13 import tol_tps
    tol = 1e-7 + 4 * tol_tps(fb, Sb, f[1] - f[0]) / fb[-1] * (fb[-1] / max(fb[0], f[1] - f[0]))
    c.expect(any(abs(got - v) <= tol * v for v in ok), "steepness with Tps", f"got {got!r}, expected {ok}, {lo!r} {hi!r} {g!r}")
    # a steepness asked for one band after another band was used: the band of this call counts
    s = c.call(W.Spectrum, f, S)
    c.call(s.get_Hm0)
    c.call(s.get_Tmm10)
    c.call(s.get_Tps)
    c.close(c.call(s.get_smm10, lo, hi, **kw), 2 * np.pi * h / (g * T(f, S, a, b) ** 2), "steepness of the band of the call", rtol=1e-7)
    got = c.call(s.get_s0p, lo, hi, **kw)
    c.expect(any(abs(got - v) <= tol * v for v in ok), "steepness of the band of the call", f"got {got!r}, expected {ok}")
    # high-frequency steepness
    s = c.call(W.Spectrum, f, S)
    fc = usable(c, f, S)
    if fc is not None and H(f, S, fc, f[-1]) > 1e-3:
        got = c.call(s.get_smm10_HF, **kw)
        c.expect(len(warned(c)) >= 1, "warns without explicit cut-off", "smm10_HF")
        c.close(got, 2 * np.pi * H(f, S, fc, f[-1]) / (g * T(f, S, fc, f[-1]) ** 2), "high-frequency steepness, default cut-off", rtol=1e-7)
        c.close(s.smm10_HF, got, "attribute holds the value", rtol=0)
    if lo != -1.0:
        got = c.call(c.call(W.Spectrum, f, S).get_smm10_HF, lo, hi, **kw)
        c.close(got, 2 * np.pi * h / (g * T(f, S, a, b) ** 2), "high-frequency steepness, explicit band", rtol=1e-7)
    c.nontrivial(S, lo, hi, g)


WORKLOADS = {"split": (w_split, 3750, 40000), "steep": (w_steep, 3000, 30000),
             "far": (gens.far(w_split), 12, 100), "far_steep": (gens.far(w_steep), 12, 100)}
REQUIRED = {"get_Hm0_HF splits at 0.45/Tm-1,0": 400, "get_Tmm10_LF splits at 0.45/Tm-1,0": 150, "steepness with Tps": 500,
            "high-frequency steepness, default cut-off": 200, "warns without explicit cut-off": 500}
