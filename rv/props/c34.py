"""C34: results are local - every wave, bin and frequency depends on its own data only.

Metamorphic monitor: data outside the part a result belongs to are changed, cut off or extended, and the result is
observed again.
"""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.props import c18
from rv.target import W

PROP = "C34"
RULE = ("records cut anywhere, extended, joined and changed before or after a crossing; spectra changed outside a band or a block of bins; "
        "frequencies evaluated alone, in part and in another order; gauge signals changed at other frequencies; wave lists pooled; "
        "non-trivial: the changed part holds at least as much as the observed part, which is not empty")
ASSUMPTIONS = ["changed values are finite and of any size; bands are at least three bins wide"]


def det(c, s, kind, **kw):
    return [np.asarray(v, float).ravel() for v in c.call(s._determine_individual_waves, kind, **kw)]


def w_time(c):
    r = c.rng
    t, x, tg = gens.record(r, 6, 2000)
    for q in tg:
        c.tag(q)
    n = len(t)
    dt = (t[-1] - t[0]) / (n - 1)
    for kind in ("down", "up"):
        i, tc = refs.crossings(t, x, kind)
        whole = c.call(W.time.determine_zero_crossing, t, x, kind)
        full = [np.asarray(v, float).ravel() for v in c.call(W.time.determine_params_individual_waves, np.asarray(whole[1], float).ravel(), t, x)] if len(tc) > 1 else None
        k = int(r.integers(2, n + 1))  # the first k samples
        m = int(np.sum(i <= k - 2))
        got = c.call(W.time.determine_zero_crossing, t[:k], x[:k], kind)
        c.expect(got[0] == max(m - 1, 0), "cut off: number of waves", f"{got[0]} of the first {k} of {n} samples, expected {max(m - 1, 0)}")
        c.close(np.asarray(got[1], float).ravel(), np.asarray(whole[1], float).ravel()[:m], "cut off: the same crossings", rtol=0)
        if full is not None and m > 1:
            part = [np.asarray(v, float).ravel() for v in c.call(W.time.determine_params_individual_waves, np.asarray(got[1], float).ravel(), t[:k], x[:k])]
            for u, v, q in zip(part, full, ("height", "period", "crest", "trough", "crest time", "trough time")):
                c.close(u, v[: m - 1], "cut off: the same waves", rtol=0, detail=q)
            # everything from crossing j on changed, up to there kept
            j = int(r.integers(1, m))
            y = x.copy()
            a = i[j] + 2
            if a < n:
                y[a:] = gens.signal(r, n, str(r.choice(["noise", "huge", "zeros", "tiny", "onesided"])))[0][a:]
                g2 = c.call(W.time.determine_zero_crossing, t, y, kind)
                c.close(np.asarray(g2[1], float).ravel()[: j + 1], tc[: j + 1], "later samples changed: earlier crossings kept", rtol=0,
                        atol=1e-9 * dt + 8 * refs.EPS * np.max(np.abs(t)))
                p2 = [np.asarray(v, float).ravel() for v in c.call(W.time.determine_params_individual_waves, np.asarray(g2[1], float).ravel(), t, y)]
                for u, v, q in zip(p2, full, ("height", "period", "crest", "trough", "crest time", "trough time")):
                    c.close(u[:j], v[:j], "later samples changed: earlier waves kept", rtol=0, detail=q)
            # everything before crossing j changed
            y = x.copy()
            y[: i[j]] = gens.signal(r, n, str(r.choice(["noise", "huge", "zeros", "tiny", "onesided"])))[0][: i[j]]
            g2 = c.call(W.time.determine_zero_crossing, t, y, kind)
            nc = len(tc) - j
            c.close(np.asarray(g2[1], float).ravel()[-nc:], np.asarray(whole[1], float).ravel()[-nc:], "earlier samples changed: later crossings kept", rtol=0)
            p2 = [np.asarray(v, float).ravel() for v in c.call(W.time.determine_params_individual_waves, np.asarray(g2[1], float).ravel(), t, y)]
            if nc > 1:
                for u, v, q in zip(p2, full, ("height", "period", "crest", "trough", "crest time", "trough time")):
                    c.close(u[-(nc - 1):], v[-(nc - 1):], "earlier samples changed: later waves kept", rtol=0, detail=q)
            c.nontrivial(x, kind, k)
            c.tag("cut inside the record" if k < n else "nothing cut")
    # Series level: cut and joined
    if n >= 8:
        k = int(r.integers(4, n - 3))
        if r.random() < 0.4 and np.max(np.abs(x)) < 1e100:
            x = x.copy()
            x[k:] *= 10 ** r.uniform(-14, 14)
            c.tag("parts of very different height")
        s, a, b = c.call(W.Series, t, x), c.call(W.Series, t[:k], x[:k]), c.call(W.Series, t[k:], x[k:])
        na, nb, ns = a.nwave, b.nwave, s.nwave
        c.expect(na + nb <= ns <= na + nb + 3, "joined: the waves of the parts and at most three more", f"{na} + {nb} against {ns}; cut {k}/{n}")
        hs, ts = np.ravel(s.hwave), np.ravel(s.twave)
        e = 1e-9 * dt + 16 * refs.EPS * np.max(np.abs(t))
        if na:
            c.close(np.ravel(a.hwave), hs[:na], "joined: the waves of the first part come first", rtol=0)
            c.close(np.ravel(a.twave), ts[:na], "joined: the waves of the first part come first", rtol=0, atol=e)
        if nb:
            c.close(np.ravel(b.hwave), hs[-nb:], "joined: the waves of the second part come last", rtol=0)
            c.close(np.ravel(b.twave), ts[-nb:], "joined: the waves of the second part come last", rtol=0, atol=e)
        c.close(max(c.call(a.max), c.call(b.max)), c.call(s.max), "joined: extremes", rtol=0)
        c.close(min(c.call(a.min), c.call(b.min)), c.call(s.min), "joined: extremes", rtol=0)
        c.close((k * a.mean() + (n - k) * b.mean()) / n, c.call(s.mean), "joined: mean", rtol=0, atol=1e-12 * np.max(np.abs(x)))


def w_band(c):
    """Parameters of a band do not see what is outside the band."""
    r = c.rng
    f, S, tg = gens.spec(r, 8, 500)
    for q in tg:
        c.tag(q)
    n = len(f)
    df = f[1] - f[0]
    lo = int(r.integers(1 if f[0] == 0 else 0, n - 4))
    hi = int(r.integers(lo + 3, n))
    fmin, fmax = float(f[lo]), float(f[hi])
    G = S.copy()
    other = gens.density(r, f)[0] * 10 ** r.uniform(-4, 6)
    G[:lo], G[hi + 1:] = other[:lo], other[hi + 1:]
    if not np.any(S[lo: hi + 1] > 1e-8):
        return
    a, b = c.call(W.Spectrum, f, S), c.call(W.Spectrum, f, G)
    for m in ("get_Hm0", "get_Tmm10", "get_Tm01", "get_Tm02", "get_Tps", "get_Tp"):
        u, v = c.call(getattr(a, m), fmin, fmax), c.call(getattr(b, m), fmin, fmax)
        c.close(v, u, "bins outside the band do not matter: " + m, rtol=1e-12, detail=f"band {lo}..{hi} of {n}")
    u, v = c.call(W.wavef.compute_spectrum_params, f, S, fmin, fmax), c.call(W.wavef.compute_spectrum_params, f, G, fmin, fmax)
    c.close(np.asarray(v, float), np.asarray(u, float), "bins outside the band do not matter: compute_spectrum_params", rtol=1e-12)
    for m in range(-2, 5):
        u, v = c.call(W.wavef.compute_moment, f, S, m, fmin, fmax), c.call(W.wavef.compute_moment, f, G, m, fmin, fmax)
        c.close(v, u, "bins outside the band do not matter: moments", rtol=1e-12)
        # the band cut out of the axis gives the same
        w = c.call(W.wavef.compute_moment, f[lo: hi + 1], S[lo: hi + 1], m)
        c.close(w, u, "the band on its own gives the same moment", rtol=1e-9, atol=1e-300)
    cut = c.call(W.Spectrum, f[lo: hi + 1], S[lo: hi + 1])
    for m in ("get_Hm0", "get_Tmm10", "get_Tm01", "get_Tm02", "get_Tp", "get_Tps"):
        c.close(c.call(getattr(cut, m)), c.call(getattr(a, m), fmin, fmax), "the band on its own gives the same parameters", rtol=1e-9, detail=m)
    # two adjacent bands of an even number of intervals each add up
    if hi - lo >= 4:
        mid = lo + 2 * int(r.integers(1, (hi - lo) // 2))
        end = mid + 2 * ((hi - mid) // 2)
        if end > mid:
            for m in (0, 1, 2, -1):
                p, q, w = [c.call(W.wavef.compute_moment, f, S, m, float(f[i]), float(f[j])) for i, j in ((lo, mid), (mid, end), (lo, end))]
                c.close(p + q, w, "adjacent bands add up", rtol=1e-9, atol=1e-300)
    # tail: only the last sample counts
    top = float(f[-1] * r.uniform(1.2, 8))
    G2 = S.copy()
    G2[:-1] = other[:-1]
    for m in (-1, 0, 1):
        u = c.call(W.wavef.compute_moment, f, S, m, -1.0, top) - c.call(W.wavef.compute_moment, f, S, m)
        v = c.call(W.wavef.compute_moment, f, G2, m, -1.0, top) - c.call(W.wavef.compute_moment, f, G2, m)
        big = c.call(W.wavef.compute_moment, f, S + G2, abs(m)) + c.call(W.wavef.compute_moment, f, S + G2, m)
        c.close(v, u, "the tail depends on the last sample only", rtol=1e-9, atol=1e-11 * abs(big))
    c.nontrivial(f, S, lo, hi)


def w_blocks(c):
    """Averaging and coherence: a band does not see the others; padding adds bands only."""
    r = c.rng
    n = gens.size(r, 6, 900)
    df = float(r.choice([0.01, 0.1, 0.004, r.uniform(1e-3, 1)]))
    f = np.arange(n) * df
    nb = int(r.integers(1, max(2, n // 3)))
    d = nb * df * float(r.uniform(0.9, 1.1) if nb < 4 else 1.0)
    nb = refs.block_factors(df, d)
    if len(nb) > 1:
        return
    nb = nb[0]
    m = n // nb
    if m < 2:
        return
    X = r.standard_normal(n) + 1j * r.standard_normal(n)
    Y = X * r.uniform(0.2, 2) + r.standard_normal(n) + 1j * r.standard_normal(n)
    j = int(r.integers(0, m))
    X2, Y2 = [10.0 ** r.uniform(-2, 6) * (r.standard_normal(n) + 1j * r.standard_normal(n)) for _ in range(2)]
    sl = slice(j * nb, (j + 1) * nb)
    X2[sl], Y2[sl] = X[sl], Y[sl]
    u, v = c.call(W.spectral.coherence, f, X, Y, d), c.call(W.spectral.coherence, f, X2, Y2, d)
    c.expect(len(u[1]) == m == len(v[1]), "number of bands", f"{len(u[1])} {len(v[1])} {m}")
    c.close(v[1][j], u[1][j], "coherence of a band does not depend on the others", rtol=1e-9)
    S, S2 = np.abs(X) ** 2, np.abs(X2) ** 2
    u, v = c.call(W.spectral.frequency_averaging, f, S, d), c.call(W.spectral.frequency_averaging, f, S2, d)
    c.close(v[1][j], u[1][j], "average of a band does not depend on the others", rtol=1e-12)
    k = int(r.integers(max(2, nb), n + 1))
    v = c.call(W.spectral.frequency_averaging, f[:k], S[:k], d)
    c.close(np.asarray(v[1]), np.asarray(u[1])[: k // nb], "cut off: the same bands", rtol=1e-12)
    c.close(np.asarray(v[0]), np.asarray(u[0])[: k // nb], "cut off: the same bands", rtol=1e-12)
    c.nontrivial(X, nb)


def w_frequency(c):
    """Dispersion relation, filter and decomposition treat every frequency on its own."""
    r = c.rng
    h = float(np.exp(r.uniform(np.log(0.1), np.log(500))))
    n = gens.size(r, 2, 300)
    w = r.choice([-1.0, 1.0, 1.0], n) * np.exp(r.uniform(np.log(1e-4), np.log(60), n))
    w[r.random(n) < 0.05] = 0.0
    k = np.asarray(c.call(W.disp.disper, w, h))
    p = r.permutation(n)
    c.close(np.asarray(c.call(W.disp.disper, w[p], h)), k[p], "wave numbers in another order", rtol=1e-11)
    j = int(r.integers(0, n))
    c.close(np.ravel(c.call(W.disp.disper, float(w[j]), h)), k[j: j + 1], "wave number of one frequency alone", rtol=1e-11)
    a, b = np.sort(r.integers(0, n + 1, 2))
    if b > a:
        c.close(np.asarray(c.call(W.disp.disper, w[a:b], h)), k[a:b], "wave numbers of some frequencies", rtol=1e-11)
    # decomposition
    t, dt, h, loc = c18.setup(r, 160)
    n, g = len(t), len(loc)
    wl = c18.weights(r, g)
    x = r.standard_normal((n, g)) if r.random() < 0.5 else c18.gauges(t, dt, h, loc, *c18.waves(r, n))[0]
    lim = 0.125 if r.random() < 0.6 else float(r.choice([0.03, 0.5]))
    D = W.decomp.decompose_linear_ZS
    A = [scipy.fft.rfft(np.asarray(v)) for v in c.call(D, t, x, h, loc, wl, lim)]
    X = scipy.fft.rfft(x, axis=0)
    keep = np.zeros(len(X), bool)
    a, b = np.sort(r.integers(0, len(X) + 1, 2))
    keep[a:b] = True
    Z = scipy.fft.rfft(r.standard_normal((n, g)), axis=0) * float(10 ** r.uniform(-2, 1))
    y = scipy.fft.irfft(np.where(keep[:, None], X, Z), n, axis=0)
    B = [scipy.fft.rfft(np.asarray(v)) for v in c.call(D, t, y, h, loc, wl, lim)]
    _, _, dt_, on, near = refs.decompose(x, dt, h, loc, wl, lim)
    use = keep & ~near
    if n % 2 == 0:
        use[-1] = False
    s = float(np.max(np.abs(X)) + np.max(np.abs(Z)))
    amp = (1 + 1 / np.sqrt(np.maximum(dt_, lim)))[use]
    for u, v in zip(A, B):
        if use.any():
            c.close(v[use] / amp, u[use] / amp, "other frequencies do not matter to the decomposition", rtol=0, atol=1e-10 * s)
    if use.sum() >= 3:
        c.nontrivial(x, a, b)
    # filter
    x = gens.signal(r, n, "noise")[0]
    z = gens.signal(r, n, "noise")[0] * 10 ** r.uniform(-1, 2)
    lo, hi = np.sort(r.uniform(0, 0.5 / dt, 2))
    Xf, f, ins, edge = refs.bandpass(x, dt, lo, hi)
    if not edge.any():
        y = scipy.fft.irfft(np.where(ins, Xf, scipy.fft.rfft(z)), n)
        u, v = c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t, y, lo, hi)
        c.close(v, u, "frequencies outside the band do not matter to the filter", rtol=0, atol=1e-11 * (np.max(np.abs(x)) + np.max(np.abs(z))))


def w_pool(c):
    """Pooled wave lists."""
    r = c.rng
    n, m = gens.size(r, 1, 300), gens.size(r, 1, 300)
    h, T = np.abs(r.standard_normal(n + m)) * 10 ** r.uniform(-2, 2), r.uniform(1, 20, n + m)
    if r.random() < 0.3:
        h = np.round(h, 1)
    a, b, s = c.call(W.WaveHeights, h[:n], T[:n]), c.call(W.WaveHeights, h[n:], T[n:]), c.call(W.WaveHeights, h, T)
    c.close(max(c.call(a.get_Hmax), c.call(b.get_Hmax)), c.call(s.get_Hmax), "pooled: Hmax", rtol=0)
    c.close(np.sqrt((n * c.call(a.get_Hrms) ** 2 + m * c.call(b.get_Hrms) ** 2) / (n + m)), c.call(s.get_Hrms), "pooled: Hrms", rtol=1e-11)
    u, v = c.call(a.highest_waves, 1.0), c.call(b.highest_waves, 1.0)
    w = c.call(s.highest_waves, 1.0)
    c.close((n * np.asarray(u, float) + m * np.asarray(v, float)) / (n + m), np.asarray(w, float), "pooled: mean of all waves", rtol=1e-11)
    hs, ha, hb = c.call(s.get_Hs)[0], c.call(a.get_Hs)[0], c.call(b.get_Hs)[0]
    k, ka, kb = (n + m) // 3, n // 3, m // 3
    if ka and kb:
        c.expect(k * hs >= (ka * ha + kb * hb) * (1 - 1e-12), "pooled: the highest third is at least as high as the thirds of the parts", f"{hs} {ha} {hb}")
    # lowest waves do not matter to what is above them; adding small waves shifts ranks only
    small = np.full(int(r.integers(1, 200)), 0.5 * h.min())
    d = c.call(W.WaveHeights, np.concatenate([h, small]), np.concatenate([T, np.ones(len(small))]))
    N, M = n + m, n + m + len(small)
    for j in (1, N, int(r.integers(1, N + 1))):
        u, v = c.call(s.highest_waves, min((j + 1e-6) / N, 1.0)), c.call(d.highest_waves, min((j + 1e-6) / M, 1.0))
        c.close(v[0], u[0], "smaller waves added: the highest stay", rtol=1e-11, detail=f"{j} of {N}, {M}")
        u, v = (c.call(o.get_exceedance_waveheight, min(100 * (j + 1e-6) / q, 100.0)) for o, q in ((s, N), (d, M)))
        c.close(v, u, "smaller waves added: the highest stay", rtol=0, detail=f"{j} of {N}, {M}")
    c.nontrivial(h, n)


WORKLOADS = {"time": (w_time, 1500, 15000), "band": (w_band, 800, 8000), "blocks": (w_blocks, 1000, 10000), "frequency": (w_frequency, 600, 6000),
             "pool": (w_pool, 600, 6000),
             "far": (gens.far(w_time, 33000), 4, 40), "far_band": (gens.far(w_band), 8, 80), "far_blocks": (gens.far(w_blocks), 8, 80)}
REQUIRED = {"cut off: the same waves": 2000, "later samples changed: earlier waves kept": 2000, "earlier samples changed: later waves kept": 2000,
            "bins outside the band do not matter: moments": 3000, "coherence of a band does not depend on the others": 400,
            "other frequencies do not matter to the decomposition": 300, "pooled: Hrms": 500, "joined: mean": 1000}
