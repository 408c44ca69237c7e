"""Workload generators: records, spectra, axes, containers.

Everything takes a numpy Generator and returns plain float arrays plus a short tag saying which
kind of situation it is (collected as evidence of what was driven).
"""
import array
import functools

import numpy as np

SIZES_EDGE = [2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 31, 32, 33, 63, 64, 65, 97, 127, 128, 129, 255, 256, 257]


FAR = [16384, 16385, 20011, 30030, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70001, 100000, 131073]
_far = [0]


def far(workload, cap=140000):
    """The workload with every length drawn from FAR: records and spectra of tens of thousands of values."""
    @functools.wraps(workload)
    def run(c):
        _far[0] = cap
        try:
            return workload(c)
        finally:
            _far[0] = 0
    return run


def is_far():
    return _far[0] > 0


def size(rng, lo=2, hi=3000, edge=0.4, big=0.02, cap=None):
    """Record length: small/edge/prime/power of two or log-uniform up to hi; now and then far beyond (up to cap)."""
    if _far[0]:
        return int(rng.choice([n for n in FAR if n <= _far[0]]))
    if rng.random() < big:
        return int(np.exp(rng.uniform(np.log(hi), np.log(cap or max(2 * hi, min(30 * hi, 12000))))))
    if rng.random() < edge:
        c = [n for n in SIZES_EDGE if lo <= n <= hi]
        if c:
            return int(rng.choice(c))
    n = int(np.exp(rng.uniform(np.log(lo), np.log(hi + 1))))
    return int(min(max(n, lo), hi))


def step(rng):
    return float(rng.choice([0.1, 0.05, 0.25, 1.0, 0.5, 2.0, 1e-3, 0.01, 10.0, 1 / 3, 0.7, 1 / 7, rng.uniform(0.01, 3.0)]))


def axis(rng, n, dt, kind=None):
    """Uniform time axis of n samples; returns t, tag."""
    kind = kind or rng.choice(["zero", "zero", "pos", "neg", "through0", "late", "epoch", "linspace"])
    if kind == "zero":
        return np.arange(n) * dt, "start=0"
    if kind == "pos":
        return rng.uniform(0.1, 50) + np.arange(n) * dt, "start>0"
    if kind == "neg":
        return -rng.uniform(0.1, 2.0) * n * dt + np.arange(n) * dt, "start<0"
    if kind == "through0":
        return (np.arange(n) - int(rng.integers(0, n))) * dt, "through 0"
    if kind == "late":
        return np.floor(rng.uniform(1e3, 1e5)) + np.arange(n) * dt, "start 1e3..1e5"
    if kind == "epoch":
        return np.floor(rng.uniform(1e8, 1.7e9)) + np.arange(n) * max(dt, 0.01), "epoch start"
    return np.linspace(0.0, (n - 1) * dt, n), "linspace"


SIGNALS = ["noise", "sines", "noise+mean", "quantised", "plateaus", "constant", "zeros", "onesided",
           "impulse", "ramp", "alternating", "tiny", "huge", "sine", "jonswap", "walk", "zerocross", "int"]


def signal(rng, n, kind=None):
    """Real record of n samples; returns x, tag."""
    kind = kind or str(rng.choice(SIGNALS))
    t = np.arange(n)
    if kind == "noise":
        x = rng.standard_normal(n) * 10 ** rng.uniform(-2, 1)
    elif kind == "sines":
        x = sum(rng.uniform(0.1, 2) * np.cos(2 * np.pi * rng.uniform(0, 0.5) * t + rng.uniform(0, 6.3)) for _ in range(4))
    elif kind == "sine":
        k = int(rng.integers(0, n // 2 + 1))
        x = rng.uniform(0.1, 3) * np.cos(2 * np.pi * k * t / n + rng.uniform(0, 6.3))
    elif kind == "noise+mean":
        x = rng.standard_normal(n) + rng.uniform(-20, 20)
    elif kind == "quantised":
        x = np.round(rng.standard_normal(n) * rng.choice([1.0, 2.0, 0.7])) * rng.choice([1.0, 0.5, 0.1])
    elif kind == "plateaus":
        x = np.repeat(np.round(rng.standard_normal(n)), rng.integers(1, 5, n))[:n].astype(float)
    elif kind == "constant":
        x = np.full(n, float(rng.choice([1.0, -2.5, 1e-3])))
    elif kind == "zeros":
        x = np.zeros(n)
    elif kind == "onesided":
        x = rng.choice([-1.0, 1.0]) * rng.uniform(0.1, 2, n)
    elif kind == "impulse":
        x = np.zeros(n)
        x[int(rng.integers(0, n))] = rng.choice([-1.0, 1.0]) * rng.uniform(0.5, 3)
    elif kind == "ramp":
        x = rng.uniform(-1, 1) + rng.uniform(-0.1, 0.1) * t
    elif kind == "alternating":
        x = rng.uniform(0.5, 2) * (-1.0) ** t
    elif kind == "tiny":
        x = rng.standard_normal(n) * 1e-9
    elif kind == "huge":
        x = rng.standard_normal(n) * 1e7
    elif kind == "walk":
        x = np.cumsum(rng.standard_normal(n)) * 0.3
        x -= x.mean()
    elif kind == "zerocross":  # exact zeros and signed zeros between positive and negative samples
        x = rng.choice([-1.0, -0.5, 0.0, -0.0, 0.0, 0.5, 1.0], n)
    elif kind == "int":
        x = rng.integers(-3, 4, n).astype(float)
    elif kind == "jonswap":
        x = sea(rng, n)
    else:
        raise KeyError(kind)
    return np.asarray(x, dtype=float), kind


def sea(rng, n, nu0=None):
    """Random-phase sea with a peak period of 8..20 samples."""
    f = np.fft.rfftfreq(n)
    f0 = nu0 or 1 / rng.uniform(8, 20)
    with np.errstate(all="ignore"):
        S = np.where(f > 0, np.where(f > 0, f, 1) ** -5.0 * np.exp(-1.25 * (np.where(f > 0, f, 1) / f0) ** -4.0), 0)
    X = np.sqrt(S) * np.exp(2j * np.pi * rng.random(len(f)))
    x = np.fft.irfft(X, n) if n > 1 else np.zeros(n)
    s = x.std()
    return x / s if s > 0 else x


def record(rng, lo=2, hi=3000, kind=None, akind=None):
    n = size(rng, lo, hi)
    dt = step(rng)
    t, ta = axis(rng, n, dt, akind)
    x, tx = signal(rng, n, kind)
    return t, x, ("n odd" if n % 2 else "n even", ta, tx)


def t_tol(t):
    """Relative accuracy of a step or duration taken from the axis values."""
    d = (t[-1] - t[0]) / (len(t) - 1)
    return 1e-12 + 8 * np.finfo(float).eps * float(np.max(np.abs(t))) / d


# ------------------------------------------------------------------------- spectra
SPECTRA = ["jonswap", "pm", "double", "single bin", "ties", "white", "random", "monotone up", "monotone down",
           "plateau", "swell", "two bins", "notch", "scaled small", "scaled big"]


def faxis(rng, lo=3, hi=800, kind=None):
    n = size(rng, lo, hi)
    kind = kind or rng.choice(["0", "0", "0", "df", "offset", "late"])
    df = float(rng.choice([0.01, 0.005, 0.05, 0.1, 1 / 64, 1 / 3000, 0.5, rng.uniform(1e-3, 0.2)]))
    if kind == "0":
        return np.arange(n) * df, "f0=0"
    if kind == "df":
        return np.arange(1, n + 1) * df, "f0=df"
    if kind == "offset":
        return df * rng.uniform(0.2, 0.9) + np.arange(n) * df, "f0 offset"
    return df * rng.integers(2, 40) + np.arange(n) * df, "f0>>df"


def density(rng, f, kind=None):
    kind = kind or str(rng.choice(SPECTRA))
    n = len(f)
    df = f[1] - f[0]
    fp = f[0] + rng.uniform(0.1, 0.7) * (f[-1] - f[0]) + 0.1 * df
    ff = np.where(f > 0, f, 1.0)
    with np.errstate(all="ignore"):
        pm = np.where(f > 0, ff ** -5.0 * np.exp(-1.25 * (ff / fp) ** -4.0), 0.0)
    if pm.max() > 0:
        pm = pm / pm.max()
    gauss = np.exp(-0.5 * ((f - fp) / (0.1 * (f[-1] - f[0]) + df)) ** 2)
    if kind == "pm":
        S = pm
    elif kind == "jonswap":
        S = pm * 3.3 ** np.exp(-((f / fp - 1) ** 2) / (2 * np.where(f < fp, 0.07, 0.09) ** 2))
    elif kind == "double":
        S = pm + 0.8 * np.exp(-0.5 * ((f - 0.5 * fp) / (3 * df)) ** 2)
    elif kind == "single bin":
        S = np.zeros(n)
        S[int(rng.integers(1 if f[0] == 0 else 0, n))] = 1.0
    elif kind == "two bins":
        S = np.zeros(n)
        S[rng.integers(1 if f[0] == 0 else 0, n, 2)] = rng.uniform(0.5, 1, 2)
    elif kind == "ties":
        S = np.round(gauss * 4) / 4 + 0.0
    elif kind == "plateau":
        S = np.minimum(gauss, 0.6)
    elif kind == "white":
        S = np.ones(n)
    elif kind == "random":
        S = rng.random(n)
    elif kind == "monotone up":
        S = np.linspace(0.1, 1, n)
    elif kind == "monotone down":
        S = np.linspace(1, 0.1, n)
    elif kind == "swell":
        S = np.exp(-0.5 * ((f - fp) / (2 * df)) ** 2)
    elif kind == "notch":
        S = gauss * (rng.random(n) > 0.3)
        if S.max() == 0:
            S = gauss
    elif kind == "scaled small":
        S = gauss * 1e-6
    elif kind == "scaled big":
        S = gauss * 1e6
    else:
        raise KeyError(kind)
    S = S * rng.uniform(0.2, 5)
    return np.asarray(S, dtype=float), kind


def spec(rng, lo=3, hi=800, kind=None, fkind=None):
    f, tf = faxis(rng, lo, hi, fkind)
    S, ts = density(rng, f, kind)
    return f, S, (tf, ts, "nf odd" if len(f) % 2 else "nf even")


# ---------------------------------------------------------------------- containers
class Column:
    """An array-like of another library (as a column of a table is): a sequence that converts itself."""

    def __init__(self, x):
        self.x = np.array(x)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.x, dtype=dtype)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]

    def __iter__(self):
        return iter(self.x)


class Mapped(np.ndarray):
    """A subclass of numpy's array (as memory-mapped files are)."""


def containers(x, ints=False, column=True):
    """(tag, object) holding the same numbers as the float array x in other containers."""
    x = np.asarray(x)
    out = [("list", [v.item() for v in x]), ("tuple", tuple(v.item() for v in x)), ("npfloat list", list(x))]
    if x.dtype == float:
        out += [("array of the standard library", array.array("d", x)), ("memoryview", memoryview(x.copy())), ("array-like object", Column(x)), ("subclass", x.copy().view(Mapped))]
        if len(x) > 2 and np.all(x == np.round(x)) and np.all(np.diff(x) == x[1] - x[0]) and x[1] != x[0] and np.all(np.abs(x) < 1e9):
            out.append(("range", range(int(x[0]), int(x[0]) + len(x) * int(x[1] - x[0]), int(x[1] - x[0]))))
    buf = np.empty(2 * len(x) + 1, dtype=x.dtype)
    buf[:] = 7
    buf[1::2][: len(x)] = x
    out.append(("strided", buf[1::2][: len(x)]))
    out.append(("reversed view", x[::-1].copy()[::-1]))
    ro = x.copy()
    ro.setflags(write=False)
    out.append(("readonly", ro))
    out.append(("big endian", x.astype(x.dtype.newbyteorder(">"))))
    m = np.empty((len(x), 3), dtype=x.dtype)
    m[:] = 5
    m[:, 1] = x
    out.append(("matrix column view", m[:, 1]))
    if column:
        out.append(("column (n,1)", x.reshape(-1, 1).copy()))
        out.append(("fortran column", np.asfortranarray(x.reshape(-1, 1))))
        out.append(("readonly column", ro.reshape(-1, 1)))
        out.append(("list of one-element lists", [[v.item()] for v in x]))
    if ints:
        out.append(("int64", x.astype(np.int64)))
        out.append(("int32", x.astype(np.int32)))
        out.append(("int list", [int(v) for v in x]))
        out.append(("int16", x.astype(np.int16)))
    return out


# --------------------------------------------------------------------------- bands
def off_grid(r, f, i):
    """A value whose nearest grid frequency is clearly f[i]."""
    df = f[1] - f[0]
    return float(f[i] + df * r.uniform(-0.45, 0.45))


def band(r, f, min_bins=3, tail=True):
    """fmin, fmax (either may be the default -1.0) with at least min_bins bins strictly between; never near
    a midpoint of two grid frequencies, so 'nearest grid frequency' is unambiguous."""
    n = len(f)
    tags = []
    k = min(min_bins, n)
    lo = int(r.integers(0, n - k + 1))
    hi = int(r.integers(min(lo + k, n) - 1, n))
    u = r.random()
    if u < 0.2:
        fmin, lo = -1.0, 0
    elif u < 0.6:
        fmin = float(f[lo])
        tags.append("fmin on grid")
    else:
        fmin = max(off_grid(r, f, lo), 0.0) if f[lo] > 0 else float(abs((f[1] - f[0]) * r.uniform(0, 0.45)))
        tags.append("fmin off grid")
    u = r.random()
    if u < 0.2:
        fmax, hi = -1.0, n - 1
    elif u < 0.5:
        fmax = float(f[hi])
        tags.append("fmax on grid")
    elif u < 0.8 or not tail:
        fmax = off_grid(r, f, hi)
        if hi == n - 1 and not tail:
            fmax = float(f[hi] - 0.3 * (f[1] - f[0]) * r.random())
        tags.append("fmax off grid")
    elif u < 0.9:
        fmax = float(f[-1] * r.uniform(1.01, 6.0))
        tags.append("fmax beyond axis")
    else:
        fmax = np.inf
        tags.append("fmax infinite")
    if -1.0 not in (fmin, fmax) and fmin > fmax:
        fmin, fmax = fmax, fmin
    if fmax == -1.0 and fmin > f[-1]:
        fmin = float(f[-1])
    if fmin == -1.0 and fmax < f[0]:
        fmax = float(f[0])
    if fmin == -1.0 and fmax == -1.0:
        tags.append("whole axis")
    elif -1.0 in (fmin, fmax):
        tags.append("one bound only")
    return fmin, fmax, tags


def limits(f, fmin, fmax):
    """Replaces the default -1.0 by the ends of the axis."""
    return (float(f[0]) if fmin == -1.0 else fmin), (float(f[-1]) if fmax == -1.0 else fmax)


def inside(f, S, fmin, fmax):
    """The bins with fmin <= f <= fmax."""
    lo, hi = limits(f, fmin, fmax)
    m = (f >= lo) & (f <= hi)
    return f[m], S[m]
