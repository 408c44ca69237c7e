"""Independent reference models: what the documentation says the results are.

Nothing here imports the package under test.
"""
import math

import numpy as np
import scipy.fft
import scipy.optimize
import scipy.special

EPS = np.finfo(float).eps


# ---------------------------------------------------------------- Fourier, spectra
def dft(x):
    """sum x_n exp(-2 pi i k n / N), by definition for short records."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    if n <= 300:
        kn = np.outer(np.arange(n), np.arange(n)) % n
        return np.exp(-2j * np.pi * kn / n) @ x
    return scipy.fft.fft(x)


def dft_tol(x):
    """Absolute tolerance for a Fourier coefficient of x."""
    x = np.asarray(x, dtype=float)
    return 4e-13 * float(np.sum(np.abs(x))) + 1e-300


def periodogram(x, dt):
    """f, 2|X|^2/(df N^2) on k/(N dt), k = 0..N//2."""
    n = len(x)
    X = scipy.fft.rfft(np.asarray(x, dtype=float))
    df = 1.0 / (n * dt)
    return np.arange(n // 2 + 1) * df, 2 * np.abs(X) ** 2 / (df * n * n)


def block_factors(df, df_desired):
    """Admissible block lengths max(1, round(df_desired/df)) (two of them at a rounding tie)."""
    if not df_desired:
        return [1]
    r = df_desired / df
    c = {max(1, int(np.round(r)))}
    if abs(r - np.floor(r) - 0.5) < 1e-7 * max(1.0, r):
        c |= {max(1, int(np.floor(r))), max(1, int(np.ceil(r)))}
    return sorted(c)


def block_average(f, S, n):
    f, S = np.asarray(f), np.asarray(S)
    m = len(f) // n
    return f[: m * n].reshape(m, n).mean(axis=1), S[: m * n].reshape(m, n).mean(axis=1)


def welch(x, dt, nperseg, noverlap, nfft, window):
    """Average of one-sided, constant-detrended, windowed periodograms; window: array."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    step = nperseg - noverlap
    starts = range(0, n - nperseg + 1, step)
    acc = 0.0
    cnt = 0
    fs = 1.0 / dt
    for s in starts:
        seg = x[s: s + nperseg]
        seg = (seg - seg.mean()) * window
        X = scipy.fft.rfft(seg, nfft)
        P = np.abs(X) ** 2 / (fs * np.sum(window ** 2))
        if nfft % 2:
            P[1:] *= 2
        else:
            P[1:-1] *= 2
        acc = acc + P
        cnt += 1
    return np.arange(nfft // 2 + 1) / (nfft * dt), acc / cnt, cnt


def bandpass(x, dt, flow, fhigh):
    """Filter with (keep everything strictly inside), plus the list of boundary bins left open."""
    n = len(x)
    X = scipy.fft.rfft(np.asarray(x, dtype=float))
    f = np.arange(len(X)) / (n * dt)
    df = 1.0 / (n * dt)
    tol = 1e-6 * df + 1e-9 * f
    inside = (f > flow + tol) & (f < fhigh - tol)
    edge = ((np.abs(f - flow) <= tol) | (np.abs(f - fhigh) <= tol)) & (f > 0)
    inside[0] = False
    edge[0] = False
    return X, f, inside, edge


# --------------------------------------------------------------------- time domain
def crossings(t, x, kind):
    t, x = np.asarray(t, dtype=float), np.asarray(x)
    a, b = x[:-1], x[1:]
    i = np.nonzero((a >= 0) & (b < 0) if kind == "down" else (a <= 0) & (b > 0))[0]
    a, b = a[i].astype(float), b[i].astype(float)
    return i, t[i] + (t[i + 1] - t[i]) * a / (a - b)


def waves(t, x, i, tc):
    """Per wave between crossings i[k] and i[k+1]: height, period, crest, trough, tCrest, tTrough."""
    out = []
    for k in range(len(i) - 1):
        lo = i[k] + 1 if tc[k] > t[i[k]] else i[k]
        seg = x[lo: i[k + 1] + 1]
        a, b = int(np.argmax(seg)), int(np.argmin(seg))
        out.append((seg[a] - seg[b], tc[k + 1] - tc[k], seg[a], seg[b], t[lo + a], t[lo + b]))
    return np.array(out, dtype=float).reshape(-1, 6)


def floors(v):
    """Admissible values of floor(v) when v is a rounded product."""
    r = round(v)
    if abs(v - r) < 1e-9 * max(1.0, abs(v)):
        return sorted({math.floor(v), int(r), int(r) - 1} & {int(r), int(r) - 1})
    return [math.floor(v)]


# ---------------------------------------------------------------- spectral moments
def simpson_weights(n, h):
    """Weights of the composite Simpson rule on n equidistant points (Cartwright's
    correction on the last interval when the number of intervals is odd)."""
    if n <= 1:
        return np.zeros(n)
    if n == 2:
        return np.array([0.5, 0.5]) * h
    w = np.zeros(n)
    m = n if n % 2 else n - 1
    for i in range(0, m - 2, 2):
        w[i: i + 3] += np.array([1.0, 4.0, 1.0]) * h / 3
    if n % 2 == 0:
        w[-1] += 5 * h / 12
        w[-2] += 8 * h / 12
        w[-3] -= h / 12
    return w


def nearest(f, v):
    """Indices of the grid point(s) nearest to v (two at a tie)."""
    d = np.abs(f - v)
    m = d.min()
    df = f[1] - f[0] if len(f) > 1 else 1.0
    return [int(i) for i in np.nonzero(d <= m + 1e-9 * df + 4 * EPS * np.max(np.abs(f)))[0]]


def moments(f, S, m, fmin=None, fmax=None):
    """All admissible values of the m-th moment over [fmin, fmax] (several only when a bound lies
    midway between grid points), each with the sum of absolute contributions."""
    f, S = np.asarray(f, dtype=float), np.asarray(S, dtype=float)
    if m < 0 and f[0] == 0:
        f, S = f[1:], S[1:]
    y = f ** float(m) * S
    # Simpson's rule is exact in the step only to the accuracy of the axis values
    lo = [0] if fmin is None else nearest(f, max(fmin, f[0]))
    above = fmax is not None and fmax > f[-1]
    hi = [len(f) - 1] if fmax is None or above else nearest(f, fmax)
    out = []
    for a in lo:
        for b in hi:
            if b < a:
                v, s = 0.0, 0.0
            else:
                ff = f[a: b + 1]
                h = (ff[-1] - ff[0]) / max(1, len(ff) - 1)
                w = simpson_weights(len(ff), h)
                v = math.fsum(w * y[a: b + 1])
                s = math.fsum(np.abs(w * y[a: b + 1]))
            if above:
                C = S[-1] * f[-1] ** 5
                start = f[-1] if fmin is None else max(fmin, f[-1])
                p = m - 4.0
                if p == 0:
                    tail = C * math.log(fmax / start) if np.isfinite(fmax) else (math.inf if C > 0 else 0.0)
                else:
                    top = 0.0 if np.isinf(fmax) and p < 0 else fmax ** p
                    with np.errstate(all="ignore"):
                        tail = C / p * (top - np.float64(start) ** p)
                v += tail
                s += abs(tail)
            out.append((np.float64(v), np.float64(s)))  # so that ratios may be 0/0
    return out


def tps(f, S):
    """Admissible smoothed peak periods of the band f, S (list)."""
    f, S = np.asarray(f, dtype=float), np.asarray(S, dtype=float)
    n = len(f)
    top = S.max()
    im = np.nonzero(S == top)[0]
    if n == 1:
        return [1 / f[0]]
    if n == 2:
        return [1 / f[im[0]]] if len(im) == 1 else [2 / (f[0] + f[1])]
    if len(im) == 1:
        j = min(max(int(im[0]), 1), n - 2)
        v = vertex(f[j - 1: j + 2], S[j - 1: j + 2])
        if v is None or not f[0] <= v <= f[-1]:
            return [1 / f[im[0]]]
        return [1 / v]
    if len(im) == 2 and im[1] - im[0] == 1:
        out = []
        for j in {min(max(int(im[0]), 1), n - 2), min(max(int(im[1]), 1), n - 2)}:
            v = vertex(f[j - 1: j + 2], S[j - 1: j + 2])
            if v is not None:
                out.append(1 / v)
        return out
    return [1 / f[i] for i in im]


def vertex(f, S):
    """Vertex of the parabola through three equidistant points; None when not a maximum."""
    h = (f[2] - f[0]) / 2
    d2 = S[0] - 2 * S[1] + S[2]
    if not d2 < 0:
        return None
    return f[1] + h * (S[0] - S[2]) / (2 * d2)


def jonswap_shape(f, fp, gamma):
    f = np.asarray(f, dtype=float)
    out = np.zeros(len(f))
    p = f > EPS
    fq = f[p]
    nu = fq / fp
    sig = np.where(fq < fp, 0.07, 0.09)
    with np.errstate(all="ignore"):
        out[p] = fq ** -5.0 * np.exp(-1.25 * nu ** -4.0) * gamma ** np.exp(-((nu - 1) ** 2) / (2 * sig ** 2))
    return out


# --------------------------------------------------------------- dispersion, gauges
def wavenumber(w, h, g=9.81):
    """Newton iterations in extended precision on k h tanh(k h) = w^2 h / g."""
    L = np.longdouble
    w = np.abs(np.asarray(w, dtype=L))
    y = w * w * L(h) / L(g)
    q = np.where(y < 1, np.sqrt(y), y)
    q = np.maximum(q, np.sqrt(y))
    for _ in range(60):
        th = np.tanh(q)
        d = th + q * (1 - th * th)
        q = np.where(y > 0, q - (q * th - y) / np.where(d == 0, 1, d), 0)
    return np.asarray(q / L(h), dtype=float)


def decompose(x, dt, h, xloc, wloc, det_lim, sloppy=1e-7):
    """Weighted least squares per frequency.

    Returns incident, reflected coefficient arrays, and a mask of frequencies whose determinant is
    too close to the limit to predict on which side the code puts them."""
    x = np.asarray(x, dtype=float)
    n, m = x.shape
    X = scipy.fft.rfft(x, axis=0)
    f = np.arange(X.shape[0]) / (n * dt)
    k = wavenumber(2 * np.pi * f, h)
    d = np.asarray(xloc, dtype=float) - xloc[0]
    wl = np.asarray(wloc, dtype=float)
    E = np.exp(-1j * k[:, None] * d[None, :])
    inc = np.zeros(len(f), complex)
    ref = np.zeros(len(f), complex)
    A = np.abs(np.sum(wl * E ** 2, axis=1)) ** 2
    det = np.abs(0.25 * (A - wl.sum() ** 2))
    on = det > det_lim
    r = np.sqrt(wl)
    for i in np.nonzero(on)[0]:
        M = np.stack([E[i], np.conj(E[i])], axis=1) * r[:, None]
        sol = np.linalg.lstsq(M, X[i] * r, rcond=None)[0]
        inc[i], ref[i] = sol
    near = np.abs(det - det_lim) < sloppy * (1 + wl.sum() ** 2)
    return inc, ref, det, on, near


# --------------------------------------------------------------- Battjes-Groenendijk
def bg_equation(H1, Htr):
    """Normalised mean of squared heights of the composite Weibull distribution."""
    k2 = 3.6
    H2 = Htr / (Htr / H1) ** (2 / k2)
    X = (Htr / H1) ** 2
    a2 = 2 / k2 + 1
    return H1 ** 2 * scipy.special.gammainc(2, X) * 1.0 + H2 ** 2 * scipy.special.gamma(a2) * scipy.special.gammaincc(a2, X)


def bg(hm0, nwave, depth, cot):
    sm0 = hm0 / 4
    Htr = (0.35 + 5.8 / cot) * depth
    Hrms = sm0 * (2.69 + 3.24 * sm0 / depth)
    htr = Htr / Hrms
    lo, hi = 1e-3, 200.0
    H1 = scipy.optimize.brentq(lambda v: bg_equation(v, htr) - 1, lo, hi, xtol=1e-14, rtol=1e-14)
    H2 = htr / (htr / H1) ** (2 / 3.6)
    return dict(Htr=Htr, Hrms=Hrms, htr=htr, H1=H1 * Hrms, H2=H2 * Hrms, H1n=H1, H2n=H2)


# ------------------------------------------------------------------------ statistics
def skewness(x):
    d = np.asarray(x, dtype=float) - np.mean(x)
    return np.mean(d ** 3) / np.mean(d ** 2) ** 1.5


def hilbert_imag(x):
    x = np.asarray(x, dtype=float)
    n = len(x)
    X = scipy.fft.fft(x)
    k = np.arange(n)
    s = np.zeros(n)
    s[(k > 0) & (k < n / 2)] = -1
    s[(k > n / 2)] = 1
    return np.real(scipy.fft.ifft(1j * s * X))


def asymmetry(x):
    d = np.asarray(x, dtype=float) - np.mean(x)
    return np.mean(hilbert_imag(x) ** 3) / np.mean(d ** 2) ** 1.5
