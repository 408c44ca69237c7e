"""C32: mirror symmetries - sign of the elevation, direction of time and space, origin of a periodic record.

Metamorphic monitor: the same analysis is run on a record and on its mirror image and the two observed results are
compared with each other; no reference value is needed.
"""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.props import c18, c20
from rv.target import W

PROP = "C32"
RULE = ("records of all kinds (exact zeros, plateaus, ties, one-sided) negated, reversed and rotated; gauge arrays, consistent or not, reversed in "
        "time, mirrored in space and rotated; wave lists permuted and duplicated; non-trivial: at least three waves, or "
        "at least four resolvable frequencies")
ASSUMPTIONS = ["reversal of individual waves is compared for records without samples that are exactly zero, where the two kinds of crossing mirror each other",
               "first of tied extremes becomes the last one when time is reversed, so their times are compared only when unique"]


def specs(c, a, b, t, x, what, reverse=False):
    """All spectra of the Series a and its mirror b."""
    r = c.rng
    n = len(t)
    dt = (t[-1] - t[0]) / (n - 1)
    df = 1 / (n * dt)
    s = 2 * float(np.sum(np.square(x))) * dt + 1e-300  # bound of any density
    k = float(r.choice([0.0, 1.0, 2.0, 3.4]))
    if n // 2 + 1 >= 8:
        u, v = c.call(a.get_spectrum_raw, k * df), c.call(b.get_spectrum_raw, k * df)
        c.close(v.f, u.f, what + ": raw spectrum", rtol=1e-12)
        c.close(v.sVarDens, u.sVarDens, what + ": raw spectrum", rtol=1e-9, atol=1e-12 * s)
    if n >= 8:
        win = str(r.choice(["hann", "hamming", "boxcar"]))
        nps = int(r.integers(4, n + 1))
        nov = int(r.integers(1, nps))
        if reverse:  # only then do the segments of the mirrored record mirror each other
            win = "boxcar"
            m = int(r.integers(1, 5))
            hop = int(r.integers(1, max(2, (n - 4) // m)))
            nps = n - m * hop
            nov = nps - hop
            if nps < 4 or nov < 1:
                return
        u, v = [c.call(o.get_spectrum, nperseg=nps, noverlap=nov, windows_type=win, use_dfDesired=False) for o in (a, b)]
        c.close(v.f, u.f, what + ": Welch spectrum", rtol=1e-12)
        c.close(v.sVarDens, u.sVarDens, what + ": Welch spectrum", rtol=1e-9, atol=1e-12 * s)


def shape(c, a, b, x, sk, asy, what):
    if np.var(x) > 1e-12 * np.max(np.square(x)) and np.std(x) > 1e-100:
        e = 1e-9 * (np.max(np.abs(x - np.mean(x))) / np.std(x)) ** 3 + 1e-13 * (np.max(np.abs(x)) / np.std(x)) ** 3 * len(x)
        c.close(c.call(b.get_skewness), sk * np.asarray(c.call(a.get_skewness)), what + ": skewness", rtol=0, atol=e)
        c.close(c.call(b.get_asymmetry), asy * np.asarray(c.call(a.get_asymmetry)), what + ": asymmetry", rtol=0, atol=e)


def w_negate(c):
    r = c.rng
    t, x, tg = gens.record(r, 4, 1500)
    for q in tg:
        c.tag(q)
    dt = (t[-1] - t[0]) / (len(t) - 1)
    tt = 1e-9 * dt + 8 * refs.EPS * np.max(np.abs(t))
    a, b = c.call(W.Series, t, x), c.call(W.Series, t, -x)
    for k, m in (("down", "up"), ("up", "down")):
        (n1, c1), (n2, c2) = c.call(a.get_crossing, k), c.call(b.get_crossing, m)
        c.expect(n1 == n2, "negated: up-crossings become down-crossings", f"{n1} waves against {n2}")
        c.close(np.asarray(c2, float).ravel(), np.asarray(c1, float).ravel(), "negated: up-crossings become down-crossings", rtol=0, atol=tt)
        u = [np.asarray(v, float).ravel() for v in c.call(a._determine_individual_waves, k)]
        v = [np.asarray(v, float).ravel() for v in c.call(b._determine_individual_waves, m)]
        c.close(v[0], u[0], "negated: same heights", rtol=0)
        c.close(v[1], u[1], "negated: same periods", rtol=0, atol=2 * tt)
        c.close(v[2], -u[3], "negated: crests become troughs", rtol=0)
        c.close(v[3], -u[2], "negated: crests become troughs", rtol=0)
        c.close(v[4], u[5], "negated: crest times become trough times", rtol=0)
        c.close(v[5], u[4], "negated: crest times become trough times", rtol=0)
        if len(u[0]) > 2:
            c.nontrivial(x, k)
        fc = float(r.uniform(0, 0.5)) / dt * float(r.choice([0.1, 0.3, 1.0]))
        u = c.call(a._determine_individual_waves, k, fcutoff=fc)
        v = c.call(b._determine_individual_waves, m, fcutoff=fc)
        X, f, ins, edge = refs.bandpass(x, dt, 0.0, fc)
        y = x - np.fft.irfft(np.where(ins, X, 0), len(x))
        if not edge.any() and np.min(np.abs(y)) > 1e-9 * np.max(np.abs(x)) + 1e-300:
            c.close(v[0], u[0], "negated: same heights relative to the low-passed record", rtol=0)
            c.close(v[2], -np.asarray(u[3]), "negated: same heights relative to the low-passed record", rtol=0)
    c.close(c.call(b.max), -c.call(a.min), "negated: largest and smallest sample", rtol=0)
    c.close(c.call(b.min), -c.call(a.max), "negated: largest and smallest sample", rtol=0)
    c.close(c.call(b.mean), -c.call(a.mean), "negated: mean", rtol=1e-13)
    c.close(c.call(b.var), c.call(a.var), "negated: variance", rtol=1e-13)
    shape(c, a, b, x, -1, -1, "negated")
    specs(c, a, b, t, x, "negated")
    lo, hi = np.sort(r.uniform(0, 0.5 / dt, 2))
    hi = hi if r.random() < 0.7 else 1 / dt      # the Nyquist component passes
    u, v = c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t, -x, lo, hi)
    c.close(v, -np.asarray(u), "negated: filter", rtol=0, atol=1e-11 * np.max(np.abs(x)))


def w_reverse(c):
    r = c.rng
    t, x, tg = gens.record(r, 4, 1500)
    for q in tg:
        c.tag(q)
    n = len(t)
    y = x[::-1].copy()
    dt = (t[-1] - t[0]) / (n - 1)
    tt = 1e-9 * dt + 16 * refs.EPS * np.max(np.abs(t))
    mir = lambda v: (t[0] + t[-1]) - np.asarray(v, float).ravel()[::-1]  # noqa: E731
    rev = lambda v: np.asarray(v, float).ravel()[::-1]  # noqa: E731
    a, b = c.call(W.Series, t, x), c.call(W.Series, t, y)
    if not np.any(x == 0):
        for k, m in (("down", "up"), ("up", "down")):
            (n1, c1), (n2, c2) = c.call(a.get_crossing, k), c.call(b.get_crossing, m)
            c.expect(n1 == n2, "reversed: up-crossings become down-crossings", f"{n1} waves against {n2}")
            c.close(np.asarray(c2, float).ravel(), mir(c1), "reversed: up-crossings become down-crossings", rtol=0, atol=tt)
            u = [np.asarray(v, float).ravel() for v in c.call(a._determine_individual_waves, k)]
            v = [np.asarray(v, float).ravel() for v in c.call(b._determine_individual_waves, m)]
            # a crossing within rounding of a sample may give that sample to either wave
            i, tc = refs.crossings(t, x, k)
            if len(tc) and np.min(np.abs(tc[:, None] - np.stack([t[i], t[i + 1]], axis=1))) < 4 * tt:
                c.tag("crossing at a sample")
                continue
            for j, what in ((0, "heights"), (2, "crests"), (3, "troughs")):
                c.close(v[j], rev(u[j]), "reversed: waves in reverse order", rtol=0, detail=what)
            c.close(v[1], rev(u[1]), "reversed: waves in reverse order", rtol=0, atol=2 * tt, detail="periods")
            if len(np.unique(x)) == n:
                c.close(v[4], mir(u[4]), "reversed: times of crests and troughs", rtol=0, atol=tt)
                c.close(v[5], mir(u[5]), "reversed: times of crests and troughs", rtol=0, atol=tt)
            if len(u[0]) > 2:
                c.nontrivial(x, k)
    shape(c, a, b, x, 1, -1, "reversed")
    specs(c, a, b, t, x, "reversed", reverse=True)
    lo, hi = np.sort(r.uniform(0, 0.5 / dt, 2))
    hi = hi if r.random() < 0.7 else 1 / dt      # the Nyquist component passes
    u, v = c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t, y, lo, hi)
    if not refs.bandpass(x, dt, lo, hi)[3].any():
        c.close(v, rev(u), "reversed: filter", rtol=0, atol=1e-11 * np.max(np.abs(x)))
    # rotation of the record regarded as periodic
    k = int(r.integers(1, n))
    z = np.roll(x, k)
    d = c.call(W.Series, t, z)
    shape(c, a, d, x, 1, 1, "rotated")
    df = 1 / (n * dt)
    q = float(r.choice([0.0, 2.0, 3.4])) * df
    s = 2 * float(np.sum(np.square(x))) * dt + 1e-300
    if n >= 16:
        u, v = c.call(a.get_spectrum_raw, q), c.call(d.get_spectrum_raw, q)
        c.close(v.sVarDens, u.sVarDens, "rotated: raw spectrum", rtol=1e-9, atol=1e-12 * s)
        x2 = gens.signal(r, n, "noise")[0] + x * float(r.choice([0.0, 1.0]))
        f, X, _ = W.spectral.time2freq_nyquist(t, x)
        _, X2, _ = W.spectral.time2freq_nyquist(t, x2)
        F = scipy.fft.rfft
        use = None
        for nb in refs.block_factors(df, q):
            e = c20.ref(f, F(x), F(x2), nb)[2]
            use = (e > 1e-6 * max(1.0, float(np.max(np.abs(F(x))) ** 2 + np.max(np.abs(F(x2))) ** 2) * 1e-18)) if use is None else None
        if use is not None:
            co = c.call(W.spectral.coherence, f, X, X2, q)[1]
            if len(co) == len(use):
                big = max(np.max(np.abs(x)), 1e-300) / max(np.min(np.sqrt(e[use])) if use.any() else 1.0, 1e-300)
                for what, tr in (("rotated", lambda v: np.roll(v, k)), ("reversed", lambda v: v[::-1].copy()), ("negated", lambda v: -v)):
                    _, Y, _ = W.spectral.time2freq_nyquist(t, tr(x))
                    _, Y2, _ = W.spectral.time2freq_nyquist(t, tr(x2))
                    v = c.call(W.spectral.coherence, f, Y, Y2, q)[1]
                    c.close(np.asarray(v)[use], np.asarray(co)[use], what + ": coherence", rtol=0, atol=1e-9 + 1e-13 * n * big)
    u, v = c.call(W.spectral.bandpassfilter, t, x, lo, hi), c.call(W.spectral.bandpassfilter, t, z, lo, hi)
    c.close(v, np.roll(np.asarray(u), k), "rotated: filter", rtol=0, atol=1e-11 * np.max(np.abs(x)))


def w_gauges(c):
    r = c.rng
    t, dt, h, loc = c18.setup(r, 300)
    n, g = len(t), len(loc)
    w = c18.weights(r, g)
    if r.random() < 0.5:
        x = c18.gauges(t, dt, h, loc, *c18.waves(r, n))[0]
    else:
        x = r.standard_normal((n, g))
    lim = float(r.choice([0.125, 0.125, 0.03, 0.5]))
    D = W.decomp.decompose_linear_ZS
    a, b = [np.asarray(v) for v in c.call(D, t, x, h, loc, w, lim)]
    _, _, det, on, near = refs.decompose(x, dt, h, loc, w, lim)
    L = float(loc[-1] - loc[0])
    k = refs.wavenumber(2 * np.pi * np.arange(n // 2 + 1) / (n * dt), h)
    scale = float(np.max(np.abs(scipy.fft.rfft(x, axis=0))))
    tol = 1e-9 * (1 + float(k[-1]) * L * 0.01) + 1e-12 * n
    A, B = scipy.fft.rfft(a), scipy.fft.rfft(b)
    what = f"n {n} gauges {g} weights {w!r} h {h!r}"

    def check(got, wantI, wantR, clause):
        c18.compare(c, got[0], wantI, n, det, on, near, scale, tol, clause, what)
        c18.compare(c, got[1], wantR, n, det, on, near, scale, tol, clause, what)
    u = c.call(D, t, x[::-1].copy(), h, loc, w, lim)
    check(u, scipy.fft.rfft(b[::-1]), scipy.fft.rfft(a[::-1]), "time reversed: incident and reflected waves exchanged")
    u = c.call(D, t, x[:, ::-1].copy(), h, loc[-1] - loc[::-1], w[::-1].copy(), lim)
    ph = np.exp(1j * k * L)
    check(u, B * ph, A / ph, "array mirrored: incident and reflected waves exchanged, at the other end of the array")
    j = int(r.integers(1, n))
    u = c.call(D, t, np.roll(x, j, axis=0), h, loc, w, lim)
    check(u, scipy.fft.rfft(np.roll(a, j)), scipy.fft.rfft(np.roll(b, j)), "rotated: gauge array")
    u = c.call(D, t, -x, h, loc, w, lim)
    check(u, -A, -B, "negated: gauge array")
    # the order in which inner gauges are processed has no meaning: reference at any gauge gives the same wave there
    if g > 2:
        keep = np.arange(1, g)
        w2 = np.concatenate([[0.0], np.ones(g - 1)])
        p = c.call(D, t, x, h, loc, w2, lim)
        if g - 1 >= 2:
            q = c.call(D, t, x[:, keep].copy(), h, loc[keep], np.ones(g - 1), lim)
            _, _, det2, on2, near2 = refs.decompose(x, dt, h, loc, w2, lim)
            ph = np.exp(1j * k * (loc[1] - loc[0]))
            for v, s, sg in zip(p, q, (1, -1)):
                c18.compare(c, s, scipy.fft.rfft(v) * ph ** (-sg), n, det2, on2, near2, scale, tol,
                            "reference at another gauge: the same waves there", what)
    if np.sum(on[1:]) >= 4:
        c.nontrivial(x, loc)


def w_lists(c):
    r = c.rng
    n = gens.size(r, 1, 400, cap=6000)
    h = np.abs(r.standard_normal(n)) * 10 ** r.uniform(-3, 3)
    T = r.uniform(1, 20, n)
    a = c.call(W.WaveHeights, h, T)
    p = r.permutation(n)
    dup = int(r.integers(2, 5))
    b, d = c.call(W.WaveHeights, h[p], T[p]), c.call(W.WaveHeights, np.tile(h, dup), np.tile(T, dup))
    asks = [("get_Hs", ()), ("get_Hrms", ()), ("get_Hmax", ()), ("get_H2p_Rayleigh", ()), ("highest_waves", (float(r.random()),)),
            ("get_exceedance_waveheight", (float(r.uniform(0, 100)),))]
    for i in r.permutation(len(asks)):
        m, arg = asks[i]
        u, v = c.call(getattr(a, m), *arg), c.call(getattr(b, m), *arg)
        c.close(np.asarray(v, float), np.asarray(u, float), "permuted: statistics do not depend on the order of the waves", rtol=1e-11, detail=m)
    for k in {0, n, int(r.integers(0, n + 1)), int(r.integers(0, n + 1))}:
        q = min((k + 1e-6) / n, 1.0)
        u, v = c.call(a.highest_waves, q), c.call(d.highest_waves, q)
        c.close(np.asarray(v, float), np.asarray(u, float), "every wave repeated: highest waves", rtol=1e-11, detail=f"k {k} of {n}, {dup} times")
        u, v = c.call(a.get_exceedance_waveheight, 100 * q), c.call(d.get_exceedance_waveheight, 100 * q)
        c.close(v, u, "every wave repeated: exceeded height", rtol=0, detail=f"k {k} of {n}, {dup} times")
    for m in ("get_Hrms", "get_Hmax"):
        c.close(c.call(getattr(d, m)), c.call(getattr(a, m)), "every wave repeated: Hrms and Hmax", rtol=1e-12)
    o1, o2 = np.lexsort((T, h)), None
    c.call(b.sort)
    o2 = np.lexsort((b.twave, b.hwave))
    c.close(np.asarray(b.hwave)[o2], h[o1], "permuted: same pairs when sorted", rtol=0)
    c.close(np.asarray(b.twave)[o2], T[o1], "permuted: same pairs when sorted", rtol=0)
    if n > 2:
        c.nontrivial(h, T)


WORKLOADS = {"negate": (w_negate, 1600, 16000), "reverse": (w_reverse, 1600, 16000), "gauges": (w_gauges, 500, 5000), "lists": (w_lists, 800, 8000),
             "far": (gens.far(w_negate, 33000), 4, 40), "far_reverse": (gens.far(w_reverse, 33000), 4, 40), "far_lists": (gens.far(w_lists), 8, 80)}
REQUIRED = {"negated: crests become troughs": 2000, "negated: asymmetry": 800, "reversed: waves in reverse order": 2000, "reversed: Welch spectrum": 500,
            "rotated: raw spectrum": 500, "rotated: coherence": 300, "time reversed: incident and reflected waves exchanged": 600,
            "array mirrored: incident and reflected waves exchanged, at the other end of the array": 600,
            "every wave repeated: highest waves": 1000}
