"""C06: series synthesised from a spectrum."""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.target import W

PROP = "C06"
RULE = ("spectra from rv.gens on axes that start at, above or far above zero, time axes that start anywhere and end on or "
        "between steps, seeded and unseeded, through the function, the object version and Spectrum.create_series; the "
        "realised spectrum is compared bin by bin (even number of samples; an odd one must be the even realisation "
        "without its last sample). Bins on the very end of the target's range are left open. Non-trivial: at least two "
        "bins carry energy. Phase statistics use thresholds with false-alarm probability below 1e-12 per test")
ASSUMPTIONS = ["phases are drawn from numpy's global generator, which the harness seeds per case"]


def target(c, lo=3, hi=400):
    f, S, tg = gens.spec(c.rng, lo, hi)
    for q in tg:
        c.tag(q)
    return f, S


def axis_args(r, f):
    """tInit, tEnd, dt with a Nyquist frequency around the target's range."""
    fN = f[-1] * float(np.exp(r.uniform(np.log(0.3), np.log(3.0))))
    dt = float(0.5 / fN)
    if r.random() < 0.4:
        dt = float(f"{dt:.1g}")
    n = gens.size(r, 2, 3000, 0.2)
    t0 = float(r.choice([0.0, 0.0, r.uniform(0, 100), -r.uniform(0, 100), 1000.0, -12.5]))
    k = r.random()
    m = n - 1
    if k < 0.5:
        t1 = t0 + m * dt
    elif k < 0.9:
        t1 = t0 + (m - r.uniform(0.01, 0.99)) * dt if m > 1 else t0 + m * dt
    else:
        t1 = t0 + m * dt
        t1 = float(f"{t1:.6f}")
    return t0, float(t1), dt


def check_axis(c, t, t0, t1, dt):
    t = np.asarray(t)
    big = max(abs(t0), abs(t1), dt)
    tol = 1e-9 * dt + 8 * refs.EPS * big
    c.expect(len(t) >= 1 and abs(t[0] - t0) <= tol, "starts at the requested time", f"{t[0]!r} {t0!r}")
    if len(t) > 1:
        c.close(np.diff(t), np.full(len(t) - 1, dt), "uniform requested step", rtol=0, atol=2 * tol)
    r = (t1 - t0) / dt
    lo = int(np.ceil(r - 1e-3)) + 1
    hi = int(np.ceil(r + 1e-6 * 0)) + 1
    near = abs(r - np.round(r)) < 1e-3
    if near and abs(r - np.round(r)) < 1e-6 + 8 * refs.EPS * big / dt:  # a whole number of steps
        ok = [int(np.round(r)) + 1]
    elif near:
        ok = [lo, hi, int(np.round(r)) + 1, int(np.round(r)) + 2]
    else:
        ok = [int(np.ceil(r)) + 1]
    c.expect(len(t) in ok, "ends at the first step at or after the requested end",
             f"{len(t)} samples, expected {ok}: start {t0!r} end {t1!r} step {dt!r}, last {t[-1]!r}")
    return len(t)


def check_spectrum(c, x, f, S, dt, what):
    """Own spectrum of x equals the interpolated target below Nyquist (even N)."""
    n = len(x)
    X = scipy.fft.rfft(x)
    df = 1 / (n * dt)
    got = 2 * np.abs(X) ** 2 / (df * n * n)
    g = np.arange(len(got)) * df
    want = np.interp(g, f, S, left=0, right=0)
    j = slice(1, n // 2)
    top = float(np.max(S))
    # rounding of the grid frequency times the steepness of the target
    slope = float(np.max(np.abs(np.diff(S)))) / (f[1] - f[0]) if len(f) > 1 else 0.0
    atol = 1e-11 * top + 1e-12 * slope * g
    ends = (np.abs(g - f[0]) <= 1e-9 * g + 1e-12) | (np.abs(g - f[-1]) <= 1e-9 * g)
    m = np.zeros(len(g), bool)
    m[j] = True
    m &= ~ends
    c.close(got[m], want[m], what + ": own spectrum equals the target on its own grid", rtol=1e-8, atol=atol[m] * 10)
    c.expect(abs(X[0]) / n <= 1e-12 * np.sqrt(n * top * df + 1e-300) * 10 + 1e-300, what + ": zero mean", f"{X[0] / n!r}")
    return X, int(np.sum(want[m] > 1e-9 * top))


def w_series(c):
    r = c.rng
    f, S = target(c)
    t0, t1, dt = axis_args(r, f)
    seed = int(r.choice([-1, 0, 1, 2, 12345, int(r.integers(0, 2 ** 31))]))
    np.random.seed(int(r.integers(2 ** 31)))
    route = int(r.integers(3)) if c.idx % 2 else 0
    if route == 0:
        t, x = c.call(W.spectral.spectrum2timeseries, f, S, t0, t1, dt, seed)
    elif route == 1 and (t1 - t0) / dt > 1.5:
        s = c.call(W.spectral.spectrum2timeseries_object, f, S, t0, t1, dt, seed)
        t, x = s.time, s.xTime
    elif (t1 - t0) / dt > 1.5:
        sp = c.call(W.Spectrum, f, S)
        s = c.call(sp.create_series, t0, t1, dt)
        t, x, seed = s.time, s.xTime, -1
    else:
        t, x = c.call(W.spectral.spectrum2timeseries, f, S, t0, t1, dt, seed)
    c.tag(["function", "object", "create_series"][route])
    c.tag("seed -1" if seed < 0 else "seed 0" if seed == 0 else "seed > 0")
    n = check_axis(c, t, t0, t1, dt)
    c.expect(np.shape(x) == (n,) and not np.iscomplexobj(x), "one real value per time", f"{np.shape(x)} for {n}")
    if n % 2 == 0:
        _, k = check_spectrum(c, x, f, S, dt, "even")
        if k > 1:
            c.nontrivial(f, S, n, dt, seed)
    elif seed >= 0:
        t2, x2 = c.call(W.spectral.spectrum2timeseries, f, S, t0, t0 + n * dt, dt, seed)
        if len(t2) == n + 1:
            c.close(x, x2[:n], "odd: even realisation without the last sample", rtol=0,
                    atol=1e-10 * float(np.max(np.abs(x2))) + 1e-300)
            check_spectrum(c, x2, f, S, dt, "even")
            c.nontrivial(f, S, n, dt, seed)
    if seed >= 0:
        np.random.seed(int(r.integers(2 ** 31)))
        np.random.rand(int(r.integers(1, 9)))
        ta, xa = c.call(W.spectral.spectrum2timeseries, f, S, t0, t1, dt, seed)
        c.close(xa, x, "same non-negative seed, same series", rtol=0, atol=0)
        c.close(ta, t, "same non-negative seed, same axis", rtol=0, atol=0)


def w_seeds(c):
    """Seeded calls repeat, unseeded calls differ, different seeds differ."""
    r = c.rng
    n = int(r.integers(20, 400)) * 2
    dt = 0.5
    f = np.arange(0, 101) * 0.01
    S, _ = gens.density(r, f, "jonswap")
    end = (n - 1) * dt

    def gen(seed=None):
        a = (f, S, 0.0, end, dt)
        return c.call(W.spectral.spectrum2timeseries, *(a if seed is None else a + (seed,)))[1]

    def same(a, b):
        return a.shape == b.shape and np.array_equal(a, b)

    np.random.seed(int(r.integers(2 ** 31)))
    s0 = [0, 1, int(r.integers(2, 2 ** 32 - 1)), np.int64(7)][c.idx % 4]
    a = gen(s0)
    u1, u2 = gen(), gen()
    b = gen(s0)
    u3, u4 = gen(-1), gen(-1)
    c.expect(same(a, b), "same non-negative seed, same series", f"seed {s0}")
    c.expect(not same(u1, u2) and not same(u3, u4) and not same(u2, a), "unseeded calls differ", f"n={n}")
    d = gen(int(s0) + 1)
    c.expect(not same(a, d), "different seeds differ", f"{s0}")
    for k in r.choice(np.arange(3, 32), 6, replace=False):
        s1 = int(s0) ^ (1 << int(k))
        c.expect(not same(a, gen(s1)), "different seeds differ", f"{s0} and {s1}")
    # unseeded calls follow the caller's generator state
    k = int(r.integers(2 ** 31))
    np.random.seed(k)
    v1 = gen()
    v2 = gen()
    c.expect(not same(v1, v2), "unseeded calls differ", "consecutive")
    sp = c.call(W.Spectrum, f, S)
    x1 = c.call(sp.create_series, 0.0, end, dt).xTime
    x2 = c.call(sp.create_series, 0.0, end, dt).xTime
    c.expect(not same(x1, x2), "unseeded calls differ", "create_series")
    for x in (a, u1, u2, d, v1, x1, x2):
        check_spectrum(c, x, f, S, dt, "even")
    c.nontrivial(a, u1)


def w_phases(c):
    """Phases of one long realisation: uniform, and independent between neighbouring bins."""
    r = c.rng
    n = int(r.choice([4096, 8192, 20000, 65536, 150000]))
    dt = 0.5
    f = np.array([0.0, 0.5, 1.0, 1.5]) * 1.0
    S = np.array([1.0, 2.0, 1.0, 1.0])
    np.random.seed(int(r.integers(2 ** 31)))
    seed = int(r.choice([-1, 0, int(r.integers(2 ** 31))]))
    t, x = c.call(W.spectral.spectrum2timeseries, f, S, 0.0, (n - 1) * dt, dt, seed)
    c.expect(len(x) == n, "ends at the first step at or after the requested end", f"{len(x)} {n}")
    X = scipy.fft.rfft(x)[1: n // 2]
    e = X / np.abs(X)
    m = len(e)
    lim = 6.0 / np.sqrt(m)
    for h in (1, 2, 3, 4):
        c.expect(abs(np.mean(e ** h)) < lim, "phases uniform", f"harmonic {h}: {abs(np.mean(e ** h)):.4f} limit {lim:.4f}")
    for lag in (1, 2, 3, 5, m // 2):
        v = abs(np.mean(e[lag:] * np.conj(e[:-lag])))
        c.expect(v < 6.0 / np.sqrt(m - lag), "phases independent", f"lag {lag}: {v:.4f}")
        v = abs(np.mean(e[lag:] * e[:-lag]))
        c.expect(v < 6.0 / np.sqrt(m - lag), "phases independent", f"sum at lag {lag}: {v:.4f}")
    # all lags at once: |sum|^2 / m is exponential, pairs count twice in the sum phases
    A = np.abs(np.fft.ifft(np.abs(np.fft.fft(e)) ** 2)[1: m // 2 + 1]) / np.sqrt(m)
    B = np.abs(np.fft.ifft(np.fft.fft(e) ** 2)) / np.sqrt(2 * m)
    c.expect(np.max(A) < 7, "phases independent", lambda: f"lag {int(np.argmax(A)) + 1} of {m}: {np.max(A):.2f}")
    c.expect(np.max(B) < 7, "phases independent", lambda: f"sum of phases, lag {int(np.argmax(B))} of {m}: {np.max(B):.2f}")
    u = np.sort(np.angle(e) / (2 * np.pi) % 1.0)
    D = max(np.max(np.arange(1, m + 1) / m - u), np.max(u - np.arange(m) / m))
    c.expect(D * np.sqrt(m) < 3.8, "phases uniform", f"Kolmogorov-Smirnov {D * np.sqrt(m):.2f}")
    c.nontrivial(x)


def w_long(c):
    r = c.rng
    f = np.arange(0, 201) * 0.005
    S, _ = gens.density(r, f, str(r.choice(["jonswap", "double", "white", "random"])))
    n = [65536, 30000, 100002, 50001][c.idx % 4]
    np.random.seed(int(r.integers(2 ** 31)))
    t0 = float(r.choice([0.0, -500.0, 12.25]))
    t, x = c.call(W.spectral.spectrum2timeseries, f, S, t0, t0 + (n - 1) * 0.5, 0.5, 3)
    check_axis(c, t, t0, t0 + (n - 1) * 0.5, 0.5)
    if n % 2 == 0:
        check_spectrum(c, x, f, S, 0.5, "even")
    c.nontrivial(f, S, n)


WORKLOADS = {"series": (w_series, 12000, 40000), "seeds": (w_seeds, 720, 2160), "phases": (w_phases, 60, 1500),
             "long": (w_long, 8, 144),
             "far": (gens.far(w_series), 16, 160)}
REQUIRED = {"even: own spectrum equals the target on its own grid": 800,
            "ends at the first step at or after the requested end": 1000, "same non-negative seed, same series": 400,
            "unseeded calls differ": 100, "phases uniform": 100, "phases independent": 100}
