"""C27: energy through the whole chain."""
import numpy as np
import scipy.fft

from rv import gens, refs
from rv.target import W

PROP = "C27"
RULE = ("JONSWAP, Pierson-Moskowitz, double-peaked and swell spectra resolved with at least 25 bins below the peak, synthesised "
        "(seeded and unseeded, even and odd) with a Nyquist frequency beyond the energy, then taken back through the raw and "
        "Welch spectra, band filters and the decomposition; exact identities at 1e-9, resolution effects within 1-3%, "
        "statistical ones within 6 standard deviations or more; non-trivial: every case")


def target(c):
    r = c.rng
    fp = float(r.uniform(0.05, 0.25))
    hm0 = float(np.exp(r.uniform(np.log(0.05), np.log(8))))
    df = fp / float(r.uniform(25, 80))
    f = np.arange(int(np.ceil(5 * fp / df)) + 1) * df
    kind = str(r.choice(["jonswap", "pm", "double", "from fmin"]))
    if kind == "jonswap":
        sp = c.call(W.wavef.create_spectrum_object_jonswap, f, fp, hm0, float(r.uniform(1, 6)))
    elif kind == "pm":
        sp = c.call(W.wavef.create_spectrum_object_piersonmoskowitz, f, fp, hm0)
    elif kind == "from fmin":
        f = f[f > 0.4 * fp]
        sp = c.call(W.wavef.create_spectrum_object_jonswap, f, fp, hm0)
    else:
        a = np.asarray(c.call(W.wavef.create_spectrum_jonswap, f, fp, hm0))
        b = np.asarray(c.call(W.wavef.create_spectrum_jonswap, f, 1.8 * fp, hm0 * 0.7))
        sp = c.call(W.Spectrum, f, a + b)
        hm0 = hm0 * np.sqrt(1 + 0.49)
    c.tag(kind)
    return sp, fp, hm0


def w_chain(c):
    r = c.rng
    sp, fp, hm0 = target(c)
    f, S = np.asarray(sp.f), np.asarray(sp.sVarDens)
    c.close(c.call(sp.get_Hm0), hm0, "the target has its wave height", rtol=1e-8)
    dt = 1 / (f[-1] * float(r.uniform(2.2, 6)))
    n = int(np.ceil(r.uniform(60, 250) / fp / dt))
    if r.random() < 0.75:
        n += n % 2
    t0 = float(r.choice([0.0, 0.0, r.uniform(-100, 100)]))
    sd = None
    if r.random() < 0.5:
        sd = int(r.integers(0, 10 ** 6))
        s = c.call(W.spectral.spectrum2timeseries_object, f, S, t0, t0 + (n - 1) * dt, dt, sd)
    else:
        np.random.seed(int(r.integers(0, 2 ** 31)))
        s = c.call(sp.create_series, t0, t0 + (n - 1) * dt, dt)
    x = np.asarray(s.xTime)
    c.expect(len(x) == n, "length of the series", f"{len(x)} {n}")
    even = n % 2 == 0
    c.tag("even" if even else "odd")
    # own grid of the realisation against the resolution of the target
    m = n + n % 2
    g = np.arange(1, m // 2) / (m * dt)
    I = float(np.sum(np.interp(g, f, S, left=0, right=0))) / (m * dt)
    res = abs(I - hm0 ** 2 / 16) / (hm0 ** 2 / 16)
    std = np.sqrt(c.call(s.var))
    if even:
        c.close(std ** 2, I, "variance is the energy of the target on the grid of the series", rtol=1e-6)
    if res < 0.02:
        tol = 0.012 if even else 0.012 + 4 / np.sqrt(n)
        c.close(std, hm0 / 4, "standard deviation Hm0/4", rtol=tol, detail=f"n {n} seed {sd}")
    # raw spectrum
    raw = c.call(s.get_spectrum_raw, 0.0)
    if even and res < 0.02:
        c.close(c.call(raw.get_Hm0), hm0, "raw spectrum gives back Hm0", rtol=0.02)
        c.close(c.call(raw.get_Tmm10), c.call(sp.get_Tmm10), "raw spectrum gives back Tm-1,0", rtol=0.02)
        c.close(c.call(raw.get_Tm02), c.call(sp.get_Tm02), "raw spectrum gives back Tm02", rtol=0.03)
        d = 1 / (n * dt)
        fpk = f[S == S.max()]
        c.expect(np.min(np.abs(1 / c.call(raw.get_Tp) - fpk)) <= d + (f[1] - f[0]), "raw spectrum gives back the peak",
                 f"{1/raw.get_Tp()!r} {fpk!r} resolution {d!r}")
    # band averaging
    k = int(r.integers(2, 8))
    co = c.call(s.get_spectrum_raw, k / (n * dt))
    nc = len(co.f)
    tot = float(np.sum(np.asarray(raw.sVarDens)[: nc * k])) / (n * dt)
    c.close(float(np.sum(co.sVarDens)) * k / (n * dt), tot, "band averaging keeps the energy", rtol=1e-9)
    # band filter
    lo, hi = float(fp * r.uniform(0.6, 1.0)), float(fp * r.uniform(1.05, 2.2))
    v = [float(c.call(c.call(s.get_bandpassfilter, a, b).var)) for a, b in ((0.0, lo), (lo, hi), (hi, 10 * f[-1]))]
    c.close(sum(v), std ** 2, "bands add up to the whole", rtol=1e-9 if min(abs(np.round(q * n * dt) - q * n * dt) for q in (lo, hi)) > 1e-6 else 1)
    if even:
        for (a, b), q in zip(((0.0, lo), (lo, hi), (hi, np.inf)), v):
            e = float(np.sum(np.interp(g, f, S, left=0, right=0)[(g > a) & (g < b)])) / (m * dt)
            gap = min(np.min(np.abs(g - lo)), np.min(np.abs(g - hi))) * m * dt
            if gap > 1e-6:
                c.close(q, e, "band variance is the spectrum's energy in the band", rtol=1e-6, atol=1e-7 * I)
    if even and res < 0.02:
        h = c.call(sp.get_Hm0, lo, hi)
        c.close(v[1], h ** 2 / 16, "band variance is the Hm0 of the band", rtol=0, atol=(0.03 + 3 * ((f[1] - f[0]) + 1 / (n * dt)) / fp) * I)
    # Welch
    if n * dt > 60 / fp:
        dfd = fp / 8
        we = c.call(s.get_spectrum, dfDesired=dfd)
        nseg = n * dt * dfd
        slack = 6 * 1.2 / np.sqrt(nseg * 3)
        c.close(c.call(we.get_Hm0), hm0, "Welch gives back Hm0 within its accuracy", rtol=0.05 + slack / 2)
        c.close(c.call(we.get_Tmm10), c.call(sp.get_Tmm10), "Welch gives back Tm-1,0 within its accuracy", rtol=0.1 + slack / 2)
        fpk = f[S == S.max()][0]
        if c.note is not None:
            c.note["Welch Hm0 over target"] = float(we.get_Hm0() / hm0)
    c.nontrivial(x)


def w_coarse(c):
    """A series coarser than the spectrum asks for keeps its axis and the energy below its Nyquist frequency."""
    r = c.rng
    sp, fp, hm0 = target(c)
    f, S = np.asarray(sp.f), np.asarray(sp.sVarDens)
    dt = 1 / (f[-1] * float(np.exp(r.uniform(np.log(0.4), np.log(2.2)))))
    if r.random() < 0.3:
        dt = float(r.choice([0.5, 1.0, 2.0, 0.25]))
    n = 2 * int(r.integers(4, 900))
    t0 = float(r.choice([0.0, 0.0, r.uniform(-100, 100), 3600.0]))
    np.random.seed(int(r.integers(0, 2 ** 31)))
    s = c.call(sp.create_series, t0, t0 + (n - 1) * dt, dt)
    c.expect(len(s.xTime) == n, "coarse series has the axis asked for", f"{len(s.xTime)} samples, expected {n} of {dt!r}")
    c.close(s.time, t0 + np.arange(n) * dt, "coarse series has the axis asked for", rtol=1e-12, atol=1e-9 * dt)
    g = np.arange(1, n // 2 + 1) / (n * dt)
    q = np.interp(g, f, S, left=0, right=0)
    I = float(np.sum(q[:-1])) / (n * dt)
    top = q[-1] / (n * dt)  # the component at the Nyquist frequency depends on its phase
    v = float(c.call(s.var))
    c.expect(I * (1 - 1e-6) - 1e-12 * hm0 ** 2 <= v <= (I + 2 * top) * (1 + 1e-6) + 1e-12 * hm0 ** 2, "coarse series carries the energy below its Nyquist frequency",
             f"variance {v!r}, expected {I!r} (+ {2 * top!r})")
    c.nontrivial(s.xTime)


def w_array(c):
    """Two synthesised series meeting in a gauge array."""
    r = c.rng
    fp = float(r.uniform(0.08, 0.3))
    h = float(np.exp(r.uniform(np.log(2), np.log(40))))
    df = fp / 30
    f = np.arange(int(3.2 * fp / df) + 1) * df
    hi_, hr_ = float(r.uniform(0.5, 4)), float(r.uniform(0.1, 3))
    dt = 1 / (f[-1] * float(r.uniform(2.2, 3.5)))
    n = 2 * int(r.uniform(40, 120) / fp / dt / 2)
    out = []
    for hm in (hi_, hr_):
        sp = c.call(W.wavef.create_spectrum_object_jonswap, f, fp, hm)
        np.random.seed(int(r.integers(0, 2 ** 31)))
        out.append(c.call(sp.create_series, 0.0, (n - 1) * dt, dt))
    I, R = (scipy.fft.rfft(np.asarray(s.xTime)) for s in out)
    t = np.asarray(out[0].time)
    fx = np.arange(len(I)) / (n * dt)
    k = refs.wavenumber(2 * np.pi * fx, h)
    L = 2 * np.pi / refs.wavenumber(2 * np.pi * fp, h)
    g = int(r.integers(3, 6))
    loc = np.concatenate([[0.0], np.cumsum(L * r.uniform(0.06, 0.22, g - 1))])
    w = np.ones(g)
    E = np.exp(-1j * k[:, None] * loc[None, :])
    x = scipy.fft.irfft(I[:, None] * E + R[:, None] * np.conj(E), n, axis=0)
    det = np.abs(0.25 * (np.abs(np.sum(E ** 2, axis=1)) ** 2 - g ** 2))
    on = det > 0.125
    ser = [c.call(W.Series, t, x[:, j]) for j in range(g)]
    a, b = c.call(W.decomp.decompose_linear_ZS_series, ser, h, loc, w, raw=True)
    for got, A, hm, nm in ((a, I, hi_, "incident"), (b, R, hr_, "reflected")):
        e = np.abs(A) ** 2
        v = 2 * float(np.sum(e[1:-1][on[1:-1]])) / n ** 2
        lost = 1 - v / (2 * float(np.sum(e[1:-1])) / n ** 2)
        near = np.abs(det - 0.125) < 1e-6
        if not np.any(near):
            c.close(c.call(got.var), v, f"{nm} energy at resolvable frequencies", rtol=1e-6, atol=1e-9 * hm ** 2)
        if lost < 0.01:
            c.close(4 * np.sqrt(c.call(got.var)), hm, f"{nm} wave height recovered", rtol=0.03)
            rs = c.call(got.get_spectrum_raw, 0.0)
            c.close(c.call(rs.get_Hm0), hm, f"{nm} wave height recovered", rtol=0.04)
        else:
            c.tag("part of the energy not resolvable")
    c.nontrivial(x)


WORKLOADS = {"chain": (w_chain, 700, 8000), "coarse": (w_coarse, 600, 6000), "array": (w_array, 240, 2500)}
REQUIRED = {"coarse series has the axis asked for": 300, "coarse series carries the energy below its Nyquist frequency": 200, "standard deviation Hm0/4": 200, "raw spectrum gives back Hm0": 150, "Welch gives back Hm0 within its accuracy": 200,
            "band variance is the spectrum's energy in the band": 500, "incident wave height recovered": 80}
