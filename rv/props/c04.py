"""C04: get_spectrum is the Welch estimate."""
import numpy as np
from scipy.signal import get_window

from rv import gens, refs
from rv.target import W

PROP = "C04"
RULE = ("records of 4..6000 samples, default call, desired resolutions, explicit nperseg/noverlap/nfft/window; reference "
        "Welch estimator written from its definition; non-trivial: at least two segments averaged. noverlap=0 may mean "
        "'no overlap' or scipy's default half segment (both accepted)")
WINDOWS = ["hann", "hamming", "boxcar", "blackman", ("kaiser", 8.6), "bartlett", ("tukey", 0.25)]


def match(c, x, dt, cands, got, ft, what):
    f, S = got
    why = []
    big = float(np.max(np.abs(x)))
    for nper, nov, nfft, win in cands:
        F, P, cnt = refs.welch(x, dt, nper, nov, nfft, get_window(win, nper))
        if np.shape(f) != F.shape or np.shape(S) != P.shape:
            why.append(f"(nperseg {nper}, noverlap {nov}, nfft {nfft}): {np.shape(f)} frequencies, expected {F.shape}")
            continue
        tol = 1e-8 * float(np.max(P)) + (1e-12 * big) ** 2 * nper * dt * 10
        okf = np.all(np.abs(f - F) <= (1e-9 + ft) * F[-1])
        d = np.abs(S - P)
        if okf and np.all(d <= tol + (1e-8 + 2 * ft) * P):
            c.expect(True, what)
            c.expect(np.all(np.asarray(S) >= 0), "density non-negative")
            return cnt
        why.append(f"(nperseg {nper}, noverlap {nov}, nfft {nfft}): axis ok {bool(okf)}, largest difference {d.max():.3g} "
                   f"of {P.max():.3g}")
    c.fail(what, "; ".join(why))


def rounds(v):
    r = {int(np.round(v))}
    if abs(v - np.floor(v) - 0.5) < 1e-6 * max(1, v):
        r |= {int(np.floor(v)), int(np.ceil(v))}
    return sorted(r)


def default_cands(n, dt, d, nfft=0, win="hann"):
    out = []
    for nper in rounds(1 / dt / d):
        nper = min(nper, n)
        for nov in sorted({nper // 2, (nper + 1) // 2}):
            if nov < nper and nper >= 1:
                out.append((nper, nov, nfft or nper, win))
    return out


def rec(c, lo, hi):
    r = c.rng
    n = gens.size(r, lo, hi, 0.25)
    dt = gens.step(r)
    t, ta = gens.axis(r, n, dt)
    x, tx = gens.signal(r, n)
    c.tag(tx)
    c.tag(ta)
    dt = (t[-1] - t[0]) / (n - 1)
    return t, x, dt


def w_default(c):
    r = c.rng
    if c.idx % 3 == 0:  # dt chosen so that several 0.01 Hz segments fit
        n = int(r.integers(800, 6000))
        dt = float(r.choice([0.5, 1.0, 0.25, 2.0, 0.7]))
        t = np.arange(n) * dt + float(r.choice([0.0, -30.0, 1000.0]))
        x, _ = gens.signal(r, n, str(r.choice(["noise", "jonswap", "noise+mean", "quantised"])))
        dt = (t[-1] - t[0]) / (n - 1)
        c.tag("several segments at 0.01 Hz")
    else:
        t, x, dt = rec(c, 4, 3000)
    n = len(x)
    s = c.call(W.Series, t, x)
    cands = default_cands(n, dt, 0.01)
    if min(q[0] for q in cands) < 2:
        return
    sp = c.call(s.get_spectrum)
    cnt = match(c, x, dt, cands, (sp.f, sp.sVarDens), gens.t_tol(t), "default is the 0.01 Hz Welch estimate")
    if min(rounds(1 / dt / 0.01)) > n:
        c.tag("record shorter than one segment")
    if cnt > 1:
        c.nontrivial(x, dt)


def w_desired(c):
    r = c.rng
    t, x, dt = rec(c, 4, 4000)
    n = len(x)
    k = r.random()
    if k < 0.6:
        nper = float(np.exp(r.uniform(np.log(2), np.log(n * 1.2))))
    elif k < 0.8:
        nper = float(r.integers(2, n + 1))
    else:
        nper = float(r.integers(2, 12)) + r.choice([0.0, 0.5])
    d = 1 / dt / nper
    cands = default_cands(n, dt, d)
    if min(q[0] for q in cands) < 2:
        return
    s = c.call(W.Series, t, x)
    win = "hann"
    kw = {}
    nfft = 0
    if r.random() < 0.3:
        win = WINDOWS[int(r.integers(len(WINDOWS)))]
        kw["windows_type"] = win
    if r.random() < 0.25:
        nfft = max(q[0] for q in cands) + int(r.integers(0, 50))
        kw["nfft"] = nfft
    if r.random() < 0.2:  # explicit lengths are ignored when a resolution is asked for
        kw["nperseg"] = int(r.integers(2, n + 1))
    sp = c.call(s.get_spectrum, dfDesired=d, **kw)
    cands = default_cands(n, dt, d, nfft, win)
    cnt = match(c, x, dt, cands, (sp.f, sp.sVarDens), gens.t_tol(t), "Welch estimate at the asked resolution")
    if nfft == 0 and cnt > 1 and len(cands) == 1:
        c.close(sp.f[1] - sp.f[0], 1 / (cands[0][0] * dt), "axis step 1/(segment x dt)", rtol=1e-8 + gens.t_tol(t))
    if cnt > 1:
        c.nontrivial(x, dt, d)


def w_explicit(c):
    r = c.rng
    t, x, dt = rec(c, 4, 4000)
    n = len(x)
    nper = int(min(n, max(2, np.exp(r.uniform(np.log(2), np.log(n))))))
    u = r.random()
    if u < 0.1:
        nper = n
    elif u < 0.35:  # the lengths people type
        typed = [k for k in (16, 32, 50, 64, 100, 128, 200, 256, 256, 512, 1000, 1024, 2048) if k <= n]
        nper = int(r.choice(typed)) if typed else nper
    nov = 0 if r.random() < 0.3 else int(r.integers(1, nper))
    nfft = 0 if r.random() < 0.5 else nper + int(r.integers(0, nper + 3))
    win = WINDOWS[int(r.integers(len(WINDOWS)))]
    novs = [nov] if nov else [nper // 2, 0]
    cands = [(nper, v, nfft or nper, win) for v in novs]
    if min(nfft or nper, nper) < 2:
        return
    s = c.call(W.Series, t, x)
    sp = c.call(s.get_spectrum, nperseg=nper, noverlap=nov, nfft=nfft, windows_type=win, use_dfDesired=False)
    cnt = match(c, x, dt, cands, (sp.f, sp.sVarDens), gens.t_tol(t), "explicit segment length, overlap, FFT length")
    f2, S2 = c.call(W.spectral.compute_spectrum_welch_wrapper, x, dt, nperseg=nper, noverlap=nov, nfft=nfft, window_type=win)
    match(c, x, dt, cands, (f2, S2), gens.t_tol(t), "core wrapper, explicit")
    c.tag("nfft > nperseg" if nfft > nper else "nfft = nperseg")
    c.tag("nperseg odd" if nper % 2 else "nperseg even")
    if cnt > 1:
        c.nontrivial(x, dt, nper, nov, nfft)


def w_short(c):
    """Shorter than one segment: used as a single segment, through both routes."""
    r = c.rng
    n = int(r.integers(4, 300))
    dt = gens.step(r)
    t = np.arange(n) * dt
    x, tx = gens.signal(r, n)
    s = c.call(W.Series, t, x)
    d = 1 / dt / (n * r.uniform(1.05, 20))
    sp = c.call(s.get_spectrum, dfDesired=d)
    match(c, x, dt, [(n, v, n, "hann") for v in (n // 2, (n + 1) // 2)], (sp.f, sp.sVarDens), 1e-12,
          "short record is a single segment")
    nper = n + int(r.integers(1, 500))
    f2, S2 = c.call(W.spectral.compute_spectrum_welch_wrapper, x, dt, nperseg=nper)
    match(c, x, dt, [(n, n // 2, n, "hann")], (f2, S2), 1e-12, "short record is a single segment (explicit)")
    c.nontrivial(x, d)


WORKLOADS = {"default": (w_default, 1500, 8000), "desired": (w_desired, 2700, 16000), "explicit": (w_explicit, 2700, 16000),
             "short": (w_short, 900, 6000),
             "far": (gens.far(w_desired), 12, 120), "far_explicit": (gens.far(w_explicit), 12, 120)}
REQUIRED = {"default is the 0.01 Hz Welch estimate": 250, "Welch estimate at the asked resolution": 400,
            "explicit segment length, overlap, FFT length": 400, "short record is a single segment": 100}
