"""C01: Fourier pair - DFT by definition, folding, unfolding, exact inversion."""
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C01"
RULE = ("records from rv.gens (lengths 2..200k odd/even/prime/power of two, 18 signal kinds, 8 kinds of time axis, "
        "steps 1e-3..10) plus random folded spectra; non-trivial: not an all-zero record")
ASSUMPTIONS = ["reference DFT: the defining sum for N<=300, scipy.fft for longer records"]


def tags(c, t):
    for q in t:
        c.tag(q)


def pair(c, t, x):
    n = len(x)
    dt = (t[-1] - t[0]) / (n - 1)
    ft = gens.t_tol(t)
    tol = refs.dft_tol(x)
    want = refs.dft(x)
    k = np.arange(n)

    f, X = c.call(W.spectral.time2freq, t, x)
    c.close(f, k / (n * dt), "unfolded axis is k/(N dt)", rtol=ft + 1e-9)
    c.close(X, want, "coefficients are the DFT", rtol=0, atol=tol)

    fn, Xn, odd = c.call(W.spectral.time2freq_nyquist, t, x)
    m = n // 2 + 1
    c.close(fn, k[:m] / (n * dt), "folded axis", rtol=ft + 1e-9)
    c.close(Xn, want[:m], "folded coefficients", rtol=0, atol=tol)
    c.expect(bool(odd) == bool(n % 2), "parity flag", f"N={n} isOdd={odd!r}")

    fu, Xu = c.call(W.spectral.unfold_spectrum, fn, Xn, odd)
    c.close(fu, k / (n * dt), "unfolding restores the full axis", rtol=ft + 1e-9)
    c.close(Xu, want, "unfolding restores the full spectrum", rtol=0, atol=2 * tol)
    c.close(Xu[1:], np.conj(Xu[1:][::-1]), "conjugate symmetric", rtol=0, atol=2 * tol)

    amp = 4 * tol / n + 8 * refs.EPS * float(np.max(np.abs(x)))
    for src in (Xu, X):
        y = c.call(W.spectral.freq2time, src)
        c.expect(not np.iscomplexobj(y), "time signal is real", str(np.asarray(y).dtype))
        c.close(y, x, "inverse transform returns the record", rtol=0, atol=amp)
    if np.any(x):
        c.nontrivial(x, t[:2])
    return fn, Xn, odd, tol


def w_records(c):
    t, x, tg = gens.record(c.rng)
    tags(c, tg)
    fn, Xn, odd, tol = pair(c, t, x)
    # Series gives the same components
    if len(t) > 1:
        s = c.call(W.Series, t, x)
        fs, Xs, odds = c.call(s.get_fourier_comp)
        c.close(fs, fn, "Series axis", rtol=1e-12)
        c.close(Xs, Xn, "Series coefficients", rtol=0, atol=tol)
        c.expect(bool(odds) == bool(odd), "Series parity flag", f"{odds!r}")
    # column vectors, as the decomposition passes them
    fu, Xu = c.call(W.spectral.unfold_spectrum, fn.reshape(-1, 1), Xn.reshape(-1, 1), odd)
    c.close(Xu, refs.dft(x), "unfolding column vectors", rtol=0, atol=2 * tol)


def w_small(c):
    """Every length 2..129, several signals each."""
    n = 2 + c.idx % 128
    t, ta = gens.axis(c.rng, n, gens.step(c.rng))
    x, tx = gens.signal(c.rng, n)
    tags(c, (ta, tx, "N<=129"))
    pair(c, t, x)


def w_spectra(c):
    """From an arbitrary folded spectrum to time and back."""
    r = c.rng
    n = gens.size(r, 2, 2000)
    dt = gens.step(r)
    m = n // 2 + 1
    X = (r.standard_normal(m) + 1j * r.standard_normal(m)) * 10 ** r.uniform(-2, 3)
    X[0] = X[0].real
    if n % 2 == 0:
        X[-1] = X[-1].real
    f = np.arange(m) / (n * dt)
    tol = 4e-13 * float(np.sum(np.abs(X))) * np.sqrt(n)
    fu, Xu = c.call(W.spectral.unfold_spectrum, f, X, bool(n % 2))
    c.expect(len(fu) == n and len(Xu) == n, "unfolded length is N", f"{len(fu)} {len(Xu)} N={n}")
    c.close(Xu[:m], X, "unfolding keeps the given half", rtol=1e-14)
    want = np.fft.irfft(X, n)
    x = c.call(W.spectral.freq2time, Xu)
    c.close(x, want, "freq2time is the inverse DFT", rtol=0, atol=tol / n)
    t = np.arange(n) * dt
    f2, X2, odd = c.call(W.spectral.time2freq_nyquist, t, x)
    c.close(X2, X, "spectrum -> time -> spectrum", rtol=0, atol=tol)
    c.close(f2, f, "folded axis", rtol=1e-9)
    c.expect(bool(odd) == bool(n % 2), "parity flag", f"{odd}")
    c.nontrivial(X)
    c.tag("spectrum first")


def w_long(c):
    n = [65536, 100003, 131073, 20000, 50001, 199999, 16384, 30030][c.idx % 8]
    t, ta = gens.axis(c.rng, n, gens.step(c.rng))
    x, tx = gens.signal(c.rng, n, str(c.rng.choice(["noise", "jonswap", "quantised", "walk", "noise+mean"])))
    tags(c, (ta, tx, "N>=16384"))
    pair(c, t, x)


WORKLOADS = {
    "records": (w_records, 6000, 30000),
    "small": (w_small, 2560, 20000),
    "spectra": (w_spectra, 2000, 10000),
    "long": (w_long, 16, 400),
}
REQUIRED = {"coefficients are the DFT": 1000, "inverse transform returns the record": 1000, "parity flag": 1000,
            "unfolding restores the full spectrum": 1000}
