"""C20: coherence."""
import numpy as np

from rv import gens, refs
from rv.props.c03 import desired
from rv.target import W

PROP = "C20"
RULE = ("pairs of complex spectra (independent, linearly related, partly correlated, with a random phase per bin, with "
        "silent bands) at resolutions from one bin to the whole axis; oracle: block averages of the reference model; "
        "statistics over at least 300 bands with thresholds of 8 standard deviations; non-trivial: blocks of several bins")


def ref(f, a, b, n):
    F, s11 = refs.block_average(f, np.abs(a) ** 2, n)
    _, s22 = refs.block_average(f, np.abs(b) ** 2, n)
    _, s12 = refs.block_average(f, a * np.conj(b), n)
    with np.errstate(all="ignore"):
        v = np.abs(s12) ** 2 / (s11 * s22)
    v[(s11 == 0) | (s22 == 0)] = 0.0
    return F, v, np.minimum(s11, s22)


def pair(c, n):
    r = c.rng
    a = r.standard_normal(n) + 1j * r.standard_normal(n)
    k = str(r.choice(["independent", "linear", "partly", "phase per bin", "silent", "real", "signals"]))
    if k == "linear":
        b = a * complex(*r.standard_normal(2))
    elif k == "partly":
        b = a * complex(*r.standard_normal(2)) + r.uniform(0.1, 2) * (r.standard_normal(n) + 1j * r.standard_normal(n))
    elif k == "phase per bin":
        b = np.abs(a) * np.exp(2j * np.pi * r.random(n))
    elif k == "real":
        a, b = a.real, r.standard_normal(n)
    elif k == "signals":
        x = r.standard_normal(2 * n - 1)
        y = np.roll(x, 3) + 0.3 * r.standard_normal(2 * n - 1)
        a, b = np.fft.rfft(x), np.fft.rfft(y)
    else:
        b = r.standard_normal(n) + 1j * r.standard_normal(n)
    if k == "silent":
        i, j = np.sort(r.integers(0, n + 1, 2))
        (a if r.random() < 0.5 else b)[i:j] = 0
        if r.random() < 0.3:
            a[: n // 2] = 0
            b[: n // 2] = 0
    s = 10 ** r.uniform(0, 4)
    return a * s, b * s * 10 ** r.uniform(-1, 1), k


def w_coh(c):
    r = c.rng
    f, tf = gens.faxis(r, 3, 1500)
    df = f[1] - f[0]
    a, b, kind = pair(c, len(f))
    c.tag(kind)
    d = desired(r, df, len(f))
    fn = W.spectral.coherence
    fc, coh = c.call(fn, f, a, b, d)
    fc, coh = np.asarray(fc), np.asarray(coh)
    why = []
    for n in refs.block_factors(df, d):
        F, v, e = ref(f, a, b, n)
        if F.shape != fc.shape or v.shape != coh.shape:
            why.append(f"block {n}: shapes {fc.shape} {coh.shape}, expected {F.shape}")
            continue
        use = (e == 0) | (e > 1e-6)
        if np.all(np.abs(fc - F) <= 1e-12 * np.abs(F) + 1e-12 * f[-1]) and np.all(np.abs(coh - v)[use] <= 1e-10):
            break
        i = int(np.argmax(np.abs(coh - v) * use)) if len(v) else 0
        why.append(f"block {n}: worst {coh[i]!r} expected {v[i]!r} at band {i}")
    else:
        c.fail("|<X1 X2*>|^2 / (<|X1|^2> <|X2|^2>)", f"desired {d!r} df {df!r} bins {len(f)} {kind}: " + "; ".join(why))
    c.count("|<X1 X2*>|^2 / (<|X1|^2> <|X2|^2>)")
    c.expect(np.isrealobj(coh) and np.all(np.isfinite(coh)), "real and finite", f"{coh.dtype}")
    c.expect(np.all(coh >= 0) and np.all(coh <= 1 + 1e-12), "between 0 and 1", lambda: f"{coh.min()!r} {coh.max()!r}")
    if np.any(e == 0):
        c.tag("band without energy")
        c.expect(np.all(coh[e == 0] == 0), "bands without energy give 0", f"{coh[e == 0]!r}")
    if n == 1 and np.all(use):
        c.close(coh[e > 0], np.ones(int(np.sum(e > 0))), "one-bin bands give 1", rtol=1e-10)
    if kind == "linear":
        c.close(coh, np.ones(len(coh)), "linearly related signals give 1", rtol=1e-10)
    # symmetry, scaling, common phase
    c.close(c.call(fn, f, b, a, d)[1], coh, "symmetric in its arguments", rtol=1e-10, atol=1e-12)
    z = complex(*r.uniform(0.5, 2, 2))
    c.close(np.asarray(c.call(fn, f, a * z, b, d)[1])[use], coh[use], "scaling and phase of one signal do not matter", rtol=1e-9, atol=1e-11)
    c.close(np.asarray(c.call(fn, f, a, b * np.conj(z), d)[1])[use], coh[use], "scaling and phase of one signal do not matter", rtol=1e-9, atol=1e-11)
    ph = np.exp(2j * np.pi * r.random(len(f)))
    c.close(np.asarray(c.call(fn, f, a * ph, b * ph, d)[1])[use], coh[use], "a phase common to both per bin does not matter", rtol=1e-9, atol=1e-11)
    if d == 0.0:
        c.close(c.call(fn, f, a, b)[1], coh, "default resolution", rtol=0)
    if n > 1:
        c.nontrivial(a, b, d)


def w_noise(c):
    """Independent signals: mean 1/n; no bias by a common amplitude shape."""
    r = c.rng
    n = int([2, 3, 5, 8, 16][c.idx % 5])
    m = 400
    N = n * m
    f = np.arange(N) * 0.01
    amp = 1 + 5 * (np.arange(N) // n % 3)
    a = amp * (r.standard_normal(N) + 1j * r.standard_normal(N))
    b = amp * (r.standard_normal(N) + 1j * r.standard_normal(N))
    _, coh = c.call(W.spectral.coherence, f, a, b, 0.01 * n)
    c.expect(len(coh) == m, "number of bands", f"{len(coh)}")
    sd = np.sqrt((n - 1) / (n * n * (n + 1)) / m)
    c.close(np.mean(coh), 1 / n, "independent signals average to 1/n", rtol=0, atol=8 * sd)
    c.note[f"mean coherence times n, n={n}"] = float(np.mean(coh) * n)
    c.nontrivial(a)


WORKLOADS = {"coherence": (w_coh, 3600, 40000), "noise": (w_noise, 40, 800),
             "far": (gens.far(w_coh), 12, 120)}
REQUIRED = {"|<X1 X2*>|^2 / (<|X1|^2> <|X2|^2>)": 1000, "linearly related signals give 1": 150, "bands without energy give 0": 60,
            "independent signals average to 1/n": 30}
