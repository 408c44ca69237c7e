"""C10: history independence of WaveHeights and Series."""
import os

import numpy as np

from rv import core, gens
from rv.target import W

PROP = "C10"
RULE = ("histories of 3..40 random public calls (queries, sorts, plots, filters) on one object; after every call the result "
        "is compared with the same call on a freshly built object, and the stored record, crossings and wave pairs with "
        "their initial value; non-trivial: history that contains a sorting call followed by another query")


def flat(v):
    """Comparable numeric content of any result."""
    import matplotlib.figure
    if isinstance(v, (tuple, list)):
        return [q for u in v for q in flat(u)]
    if isinstance(v, matplotlib.figure.Figure):
        out = []
        for ax in v.axes:
            for ln in ax.lines:
                out += [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]
            out += [np.array([p.get_x(), p.get_width(), p.get_height()]) for p in ax.patches]
        return out
    if v is None:
        return []
    if isinstance(v, W.Spectrum):
        return [np.asarray(v.f), np.asarray(v.sVarDens)]
    if isinstance(v, W.Series):
        return [np.asarray(v.time), np.asarray(v.xTime), np.sort(np.asarray(v.hwave).ravel())]
    return [np.asarray(v)]


def wave_ops(r):
    e, p = float(r.uniform(0, 100)), float(r.random())
    k = int(r.integers(0, 101))
    return [
        ("get_Hrms", lambda o: o.get_Hrms()),
        ("get_Hmax", lambda o: o.get_Hmax()),
        ("get_Hs", lambda o: o.get_Hs()),
        ("get_H2p_Rayleigh", lambda o: o.get_H2p_Rayleigh()),
        (f"get_exceedance_waveheight({e})", lambda o: o.get_exceedance_waveheight(e)),
        (f"get_exceedance_waveheight({k})", lambda o: o.get_exceedance_waveheight(k)),
        (f"highest_waves({p})", lambda o: o.highest_waves(p)),
        ("highest_waves(1)", lambda o: o.highest_waves(1.0)),
        ("highest_waves(0.1)", lambda o: o.highest_waves(0.1)),
        ("sort", lambda o: o.sort()),
        ("str", lambda o: [len(str(o)), len(repr(o))]),
    ]


def plot_ops(r):
    return [
        ("plot_exceedance_waveheight", lambda o: o.plot_exceedance_waveheight()),
        ("plot_exceedance_waveheight_Rayleigh", lambda o: o.plot_exceedance_waveheight_Rayleigh()),
        ("plot_exceedance_waveheight_Rayleigh(normalize)", lambda o: o.plot_exceedance_waveheight_Rayleigh(normalize=True)),
        ("plot_exceedance_waveheight_Rayleigh(BG)",
         lambda o: o.plot_exceedance_waveheight_Rayleigh(plot_BG=True, water_depth=5.0, cota_slope=100.0, hm0=3.0)),
        ("plot_hist_waveheight", lambda o: o.plot_hist_waveheight()),
    ]


def series_ops(r, n, dt):
    fN = 0.5 / dt
    lo, hi = np.sort(r.uniform(0, fN, 2))
    nper = int(r.integers(2, n + 1))
    d = 1 / (dt * max(2.0, n / r.uniform(1, 6)))
    return [
        ("get_crossing", lambda o: o.get_crossing()),
        ("get_crossing(up)", lambda o: o.get_crossing("up")),
        ("get_skewness", lambda o: o.get_skewness()),
        ("get_asymmetry", lambda o: o.get_asymmetry()),
        (f"get_spectrum(dfDesired={d})", lambda o: o.get_spectrum(dfDesired=d)),
        (f"get_spectrum(nperseg={nper})", lambda o: o.get_spectrum(nperseg=nper, use_dfDesired=False)),
        ("get_spectrum_raw(0)", lambda o: o.get_spectrum_raw(0.0)),
        ("max", lambda o: o.max()),
        ("min", lambda o: o.min()),
        ("mean", lambda o: o.mean()),
        ("var", lambda o: o.var()),
        (f"get_bandpassfilter({lo},{hi})", lambda o: o.get_bandpassfilter(lo, hi)),
        ("get_fourier_comp", lambda o: o.get_fourier_comp()),
        ("_determine_individual_waves", lambda o: o._determine_individual_waves()),
    ]


def series_plots(r):
    return [("plot", lambda o: o.plot()), ("plot(crossing)", lambda o: o.plot(plot_crossing=True))]


def outcome(c, obj, name, op, scribble=False):
    """('ok', arrays) or ('raised', type)."""
    op.__name__ = op.__qualname__ = type(obj).__name__ + "." + name.split("(")[0]
    op.__module__ = "history"
    c.events.append({"on": "object", "op": name}) if len(c.events) < 40 else None
    res, exc, _ = c.observe(op, obj, raw=True)
    if exc is not None:
        return "raised", type(exc).__name__, str(exc)
    out = ("ok", flat(res))
    if scribble and not os_fig(res):
        own = [getattr(obj, k) for k in ("time", "xTime", "hwave", "twave", "tCross") if hasattr(obj, k)]
        out = ("ok", [np.array(v, copy=True) for v in out[1]])
        for v in flat(res):
            if v.size and v.flags.writeable and v.dtype.kind in "fc" and not any(np.shares_memory(v, w) for w in own):
                v[...] = 77.0
                c.tag("result overwritten by the caller")
    return out


def os_fig(v):
    import matplotlib.figure
    return isinstance(v, matplotlib.figure.Figure)


def pairs(o):
    h, T = np.asarray(o.hwave).ravel(), np.asarray(o.twave).ravel()
    k = np.lexsort((T, h))
    return h[k], T[k]


def same(c, a, b, clause, detail):
    c.expect(a[0] == b[0], clause, f"{detail}: {a[:2] if a[0] == 'raised' else 'returned'} on the used object, "
                                   f"{b[:2] if b[0] == 'raised' else 'returned'} on a fresh one; {a[1:] if a[0] == 'raised' else b[1:]}")
    if a[0] == "raised":
        c.tag("raises both on used and fresh object")
        return
    c.expect(len(a[1]) == len(b[1]), clause, f"{detail}: {len(a[1])} values, fresh object {len(b[1])}")
    for u, v in zip(a[1], b[1]):
        s = float(np.max(np.abs(v[np.isfinite(v)]))) if v.size and np.issubdtype(v.dtype, np.number) and np.any(np.isfinite(v)) else 1.0
        c.close(u, v, clause, rtol=1e-10, atol=1e-12 * s, detail=detail)


def history(c, mk, ops, plots, keep, n_ops):
    r = c.rng
    o = mk()
    first = {k: np.array(getattr(o, k), copy=True) for k in keep}
    hp, Tp = pairs(o)
    names = []
    sorted_before = False
    for _ in range(n_ops):
        pool = plots if plots and r.random() < 0.12 else ops
        name, op = pool[int(r.integers(len(pool)))]
        names.append(name)
        got = outcome(c, o, name, op, r.random() < 0.3)
        want = outcome(c, mk(), name, op)
        same(c, got, want, "same answer as a fresh object", f"{name} after {names[:-1]}")
        h, T = pairs(o)
        c.close(h, hp, "stored heights stay the same set", rtol=0, detail=f"after {names}")
        c.close(T, Tp, "stored periods stay the same pairs", rtol=0, detail=f"after {names}")
        for k, v in first.items():
            c.close(np.asarray(getattr(o, k)), v, "stored record untouched", rtol=0, detail=f"{k} after {names}")
        if sorted_before:
            c.tag("query after a sorting call")
        if any(q in name for q in ("sort", "Hs", "highest", "exceed", "H2p")):
            sorted_before = True
    if sorted_before:
        c.nontrivial(names, hp)


def w_waveheights(c):
    r = c.rng
    n = int(r.choice([0, 1, 2, 3, 5, 9, 17, 40, 200]))
    h = np.round(r.rayleigh(1.0, n) * 3) / 3 + (0 if r.random() < 0.5 else r.random(n))
    T = r.uniform(2, 15, n)
    as_list = r.random() < 0.3

    def mk():
        return c.call(W.WaveHeights, list(h) if as_list and n else h, list(T) if as_list and n else T)

    history(c, mk, wave_ops(r), plot_ops(r) if n > 3 and c.idx % 3 == 0 else [], ["nwave"], int(r.integers(3, 30)))


def w_series(c):
    r = c.rng
    t, x, tg = gens.record(r, 6, 250)
    for q in tg:
        c.tag(q)
    dt = t[1] - t[0]

    def mk():
        return c.call(W.Series, t, x)

    ops = wave_ops(r) + series_ops(r, len(t), dt)
    plots = series_plots(r) + (plot_ops(r) if len(mk().hwave) > 3 else [])
    history(c, mk, ops, plots if c.idx % 3 == 0 else [], ["time", "xTime", "nt", "dt", "nwave", "tCross"], int(r.integers(4, 25)))


def w_caller(c):
    """The caller's arrays are what the object keeps working with: results for identical content do not
    depend on other objects queried in between (loosely keyed caches, shared class state)."""
    r = c.rng
    n = int(r.integers(16, 120))
    dt = 0.5
    t = np.arange(n) * dt
    xs = [r.standard_normal(n)]
    xs.append(xs[0][::-1].copy())            # same sum, same extremes
    xs.append(r.permutation(xs[0]))          # same multiset
    y = xs[0].copy()
    y[n // 2] += 1.0                          # one interior sample
    xs.append(y)
    objs = [c.call(W.Series, t, x) for x in xs]
    ops = wave_ops(r) + series_ops(r, n, dt)
    for _ in range(12):
        k = int(r.integers(len(objs)))
        name, op = ops[int(r.integers(len(ops)))]
        got = outcome(c, objs[k], name, op, r.random() < 0.3)
        want = outcome(c, c.call(W.Series, t, xs[k]), name, op)
        same(c, got, want, "not influenced by other objects", f"{name} on object {k}")
        c.close(objs[k].xTime, xs[k], "stored record untouched", rtol=0)
    c.nontrivial(xs[0])


WORKLOADS = {"waveheights": (w_waveheights, 1000, 9000), "series": (w_series, 800, 6000), "caller": (w_caller, 300, 2500),
             "far": (gens.far(w_series, 33000), 4, 40)}
REQUIRED = {"same answer as a fresh object": 3000, "stored heights stay the same set": 3000, "stored record untouched": 3000}
