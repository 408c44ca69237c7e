"""C03: band averaging conserves variance."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C03"
RULE = ("real, complex and integer spectra of 2..3000 bins with desired resolutions below, at, between and above "
        "multiples of df (rounding ties accept both neighbours); non-trivial: block length above one and at least two "
        "blocks")


def desired(r, df, n):
    k = r.random()
    if k < 0.1:
        return 0.0
    if k < 0.2:
        return df * r.uniform(0.01, 0.9)
    if k < 0.5:
        return df * int(r.integers(1, max(2, min(n, 40))))
    if k < 0.6:
        return df * (int(r.integers(1, max(2, min(n, 20)))) + 0.5)
    if k < 0.9:
        return df * np.exp(r.uniform(0, np.log(max(2, n))))
    return df * r.uniform(0.5, 2.0) * n


def check_avg(c, f, S, d, got, clause="blocks"):
    df = f[1] - f[0]
    fc, Sc = got
    why = []
    S = np.asarray(S)
    scale = float(np.max(np.abs(S))) if S.size else 0.0
    for nb in refs.block_factors(df, d):
        F, A = refs.block_average(f, S, nb)
        if np.shape(fc) != F.shape or np.shape(Sc) != A.shape:
            why.append(f"block {nb}: shapes {np.shape(fc)} {np.shape(Sc)} expected {F.shape}")
            continue
        okf = np.all(np.abs(fc - F) <= 1e-12 * np.abs(F) + 1e-13 * np.abs(f[-1]))
        oks = np.all(np.abs(Sc - A) <= 1e-12 * np.abs(A) + 1e-13 * scale)
        if okf and oks:
            c.expect(True, clause + ": mean frequency and mean value of consecutive blocks")
            if len(F) > 1:
                c.close(np.diff(np.real(fc)), np.full(len(F) - 1, nb * df), clause + ": coarse axis uniform", rtol=1e-6)
            cov = nb * len(F)
            c.close(np.sum(Sc) * nb * df, np.sum(S[:cov]) * df, clause + ": variance of the covered band conserved",
                    rtol=1e-11, atol=1e-11 * df * float(np.sum(np.abs(S))))
            return nb, len(F)
        why.append(f"block {nb}: values differ (axis ok {bool(okf)}, values ok {bool(oks)})")
    c.fail(clause + ": mean frequency and mean value of consecutive blocks",
           f"df={df!r} desired={d!r} n={len(f)}: " + "; ".join(why))


def w_core(c):
    r = c.rng
    f, tf = gens.faxis(r, 2, 3000)
    n = len(f)
    df = f[1] - f[0]
    kind = str(r.choice(["real", "real", "complex", "int", "negative", "density", "float32"]))
    if kind == "complex":
        S = r.standard_normal(n) + 1j * r.standard_normal(n)
    elif kind == "int":
        S = r.integers(-9, 10, n)
    elif kind == "negative":
        S = r.standard_normal(n)
    elif kind == "density" and n > 3:
        S, _ = gens.density(r, f)
    elif kind == "float32":
        S = (r.integers(0, 200, n) / 8).astype(np.float32)
    else:
        S = r.random(n) * 10 ** r.uniform(-6, 6)
    d = desired(r, df, n)
    c.tag(kind)
    if kind == "float32":
        fc, Sc = c.call(W.spectral.frequency_averaging, f, S, d)
        nb = refs.block_factors(df, d)[0]
        ok = [np.shape(refs.block_average(f, S, b)[1]) == np.shape(Sc) and
              np.allclose(Sc, refs.block_average(f, S.astype(float), b)[1], rtol=1e-4, atol=1e-4)
              for b in refs.block_factors(df, d)]
        c.expect(any(ok), "float32 values averaged", f"block {nb} {d}")
        return
    nb, m = check_avg(c, f, S, d, c.call(W.spectral.frequency_averaging, f, S, d))
    if nb > 1 and m > 1:
        c.nontrivial(f[:2], S, d)
    if d == 0.0:
        got = c.call(W.spectral.frequency_averaging, f, S)
        c.close(got[0], f, "no desired resolution: unchanged", rtol=1e-14)
        c.close(got[1], S, "no desired resolution: unchanged", rtol=1e-14)
    # integer frequencies and lists
    if c.idx % 5 == 0:
        fi = np.arange(int(r.integers(0, 3)), n + 3)[:n]
        Si = r.integers(-9, 10, n)
        check_avg(c, fi.astype(float), Si, d / df, c.call(W.spectral.frequency_averaging, list(map(int, fi)), list(map(int, Si)), d / df),
                  "integers")


def w_series(c):
    """The three spectra of a record at a coarse resolution are the block averages of the raw one."""
    r = c.rng
    t, x, tg = gens.record(r, 6, 3000)
    n = len(x)
    f0, S0 = c.call(W.spectral.compute_spectrum_time_series, t, x)
    df = f0[1] - f0[0]
    d = desired(r, df, len(f0))
    nb, m = check_avg(c, f0, S0, d, c.call(W.spectral.compute_spectrum_time_series, t, x, d), "time series")
    fn, Xn, _ = c.call(W.spectral.time2freq_nyquist, t, x)
    f1, S1 = c.call(W.spectral.compute_spectrum_freq_series, fn, Xn, n)
    check_avg(c, f1, S1, d, c.call(W.spectral.compute_spectrum_freq_series, fn, Xn, n, d), "coefficients")
    if max(refs.block_factors(df, d)) * 2 <= len(f0):
        s = c.call(W.Series, t, x)
        sp = c.call(s.get_spectrum_raw, d)
        check_avg(c, f0, S0, d, (sp.f, sp.sVarDens), "Series")
    if max(refs.block_factors(df, 0.01)) * 2 <= len(f0):
        sp = c.call(c.call(W.Series, t, x).get_spectrum_raw)
        check_avg(c, f0, S0, 0.01, (sp.f, sp.sVarDens), "Series default 0.01 Hz")
    if nb > 1 and m > 1:
        c.nontrivial(x, d)


WORKLOADS = {"core": (w_core, 7500, 60000), "series": (w_series, 2700, 20000),
             "far": (gens.far(w_core), 16, 160), "far_series": (gens.far(w_series, 70000), 8, 64)}
REQUIRED = {"blocks: mean frequency and mean value of consecutive blocks": 1000,
            "Series: mean frequency and mean value of consecutive blocks": 200,
            "Series default 0.01 Hz: mean frequency and mean value of consecutive blocks": 100,
            "no desired resolution: unchanged": 100}
