"""C02: raw variance density carries exactly the signal's variance."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C02"
RULE = ("records from rv.gens and pure sinusoids on the frequency grid; non-trivial: record with variance above zero. "
        "The densities at zero frequency and at Nyquist are left open (not part of the property)")


def check(c, t, x):
    n = len(x)
    dt = (t[-1] - t[0]) / (n - 1)
    ft = gens.t_tol(t)
    df = 1 / (n * dt)
    f_ref, S_ref = refs.periodogram(x, dt)
    tolX = refs.dft_tol(x)
    X = refs.dft(x)[: n // 2 + 1]
    atol = 2 * (2 * np.abs(X) * tolX + tolX ** 2) / (df * n * n)
    inner = slice(1, n // 2 + n % 2)  # strictly between zero and Nyquist

    f, S = c.call(W.spectral.compute_spectrum_time_series, t, x)
    c.close(f, f_ref, "axis", rtol=1e-9 + ft)
    c.expect(len(S) == len(f), "one density per frequency", f"{len(S)} {len(f)}")
    c.close(S[inner], S_ref[inner], "density is 2|X|^2/(df N^2)", rtol=1e-9 + 2 * ft, atol=atol[inner])

    # conservation: the integral over frequency is the variance (Nyquist part counted once)
    nyq = (np.sum(x * (-1.0) ** np.arange(n)) / n) ** 2 if n % 2 == 0 else 0.0
    var = float(np.var(x))
    got = float(np.sum(S[inner]) * df) + nyq
    c.close(got, var, "integral over frequency is the variance", rtol=1e-8 + 4 * ft,
            atol=1e-12 * float(np.mean(x) ** 2) + 1e-13 * float(np.max(np.abs(x))) ** 2)

    # same from Fourier coefficients and from a Series
    fn, Xn, _ = c.call(W.spectral.time2freq_nyquist, t, x)
    f2, S2 = c.call(W.spectral.compute_spectrum_freq_series, fn, Xn, n)
    c.close(f2, f, "same axis from coefficients", rtol=1e-12)
    c.close(S2[inner], S[inner], "same density from coefficients", rtol=1e-9 + 2 * ft, atol=atol[inner])
    if n >= 3:
        s = c.call(W.Series, t, x)
        sp = c.call(s.get_spectrum_raw, 0.0)
        c.close(sp.f, f, "same axis from Series", rtol=1e-12)
        c.close(sp.sVarDens[inner], S[inner], "same density from Series", rtol=1e-9 + 2 * ft, atol=atol[inner])
    if var > 0:
        c.nontrivial(x, t[:2])
    return f, S, df


def w_records(c):
    t, x, tg = gens.record(c.rng)
    for q in tg:
        c.tag(q)
    check(c, t, x)


def w_small(c):
    n = 2 + c.idx % 100
    t, ta = gens.axis(c.rng, n, gens.step(c.rng))
    x, tx = gens.signal(c.rng, n)
    c.tag("N<=101")
    check(c, t, x)


def w_components(c):
    """Components of known amplitude on the grid: a^2/2 each, nothing elsewhere."""
    r = c.rng
    n = gens.size(r, 5, 4000)
    dt = gens.step(r)
    t, ta = gens.axis(r, n, dt, str(r.choice(["zero", "pos", "neg", "through0"])))
    hi = (n - 1) // 2
    m = int(min(hi, r.integers(1, 6)))
    ks = r.choice(np.arange(1, hi + 1), m, replace=False)
    a = r.uniform(0.05, 4, m)
    x = r.uniform(-3, 3) + sum(
        ai * np.cos(2 * np.pi * k * np.arange(n) / n + r.uniform(0, 6.3)) for ai, k in zip(a, ks))
    f, S, df = check(c, t, x)
    want = np.zeros(n // 2 + 1)
    want[ks] = a ** 2 / 2
    inner = slice(1, n // 2 + n % 2)
    c.close(np.asarray(S[inner]) * df, want[inner], "amplitude a contributes a^2/2 at its own frequency",
            rtol=1e-7, atol=1e-10 * np.max(a) ** 2 + 1e-20)
    c.tag("components")


def w_long(c):
    n = [65536, 100003, 131073, 20000, 50001][c.idx % 5]
    t, ta = gens.axis(c.rng, n, gens.step(c.rng))
    x, tx = gens.signal(c.rng, n, str(c.rng.choice(["noise", "jonswap", "noise+mean"])))
    c.tag("N>=20000")
    check(c, t, x)


WORKLOADS = {
    "records": (w_records, 1200, 20000),
    "small": (w_small, 600, 10000),
    "components": (w_components, 500, 10000),
    "long": (w_long, 8, 60),
}
REQUIRED = {"density is 2|X|^2/(df N^2)": 1000, "integral over frequency is the variance": 1000,
            "same density from Series": 500, "amplitude a contributes a^2/2 at its own frequency": 200}
