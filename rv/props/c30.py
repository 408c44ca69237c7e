"""C30: redetermining the waves of a Series with a crossing type, low-pass cut-off or minimum height."""
import numpy as np

from rv import gens, refs
from rv.props import c08
from rv.target import W

PROP = "C30"
RULE = ("histories of 2..8 determinations on one record with both crossing types, minimum heights (zero, exactly a wave's height, "
        "between heights, above all) and cut-off frequencies between the Fourier bins, interleaved with statistics, sorting and "
        "plots; cases in which the filtered record comes within rounding of zero are left out; non-trivial: some but not all "
        "waves are removed, or a cut-off changes the crossings")
ASSUMPTIONS = ["heights and periods are returned first, then crests, troughs and their times, as the constructor uses them"]


def setting(r, t, x):
    n = len(t)
    dt = (t[-1] - t[0]) / (n - 1)
    kind = str(r.choice(["down", "up"]))
    fc = 0.0
    if r.random() < 0.5:
        fc = (int(r.integers(0, max(n // int(r.choice([2, 4, 16])), 1))) + float(r.uniform(0.1, 0.9))) / (n * dt)
    return kind, fc


def reference(c, t, x, kind, fc):
    """Crossings of the record relative to its low-passed part; None when they are not determined."""
    y = x
    if fc:
        dt = (t[-1] - t[0]) / (len(t) - 1)
        X, f, inside, edge = refs.bandpass(x, dt, 0.0, fc)
        y = x - np.fft.irfft(np.where(inside, X, 0), len(x))
        if edge.any() or np.min(np.abs(y)) < 1e-9 * np.max(np.abs(x)):
            c.tag("filtered record within rounding of zero")
            return None
        c.tag("cut-off")
    return refs.crossings(t, y, kind)


def state(s):
    return [np.array(v, dtype=float).ravel() for v in (s.hwave, s.twave, s.tCross)]


def w_history(c):
    r = c.rng
    t, x, tg = gens.record(r, 4, 600)
    for q in tg:
        c.tag(q)
    s = c.call(W.Series, t, x)
    first = state(s)
    keep = x.copy()
    dt = t[1] - t[0]
    tol = 1e-9 * dt + 8 * refs.EPS * np.max(np.abs(t))
    for _ in range(int(r.integers(2, 9))):
        kind, fc = setting(r, t, x)
        ref = reference(c, t, x, kind, fc)
        if ref is None:
            continue
        kw = {"fcutoff": fc} if fc else {}
        full = c.call(s._determine_individual_waves, kind, **kw)
        h, T, cr, tr, tcr, ttr, tc = [np.asarray(v, dtype=float).ravel() for v in full]
        what = kind + (" relative to the low-passed record" if fc else "")
        c.expect(len(tc) == len(ref[1]), what + ": crossings", f"{len(tc)}, expected {len(ref[1])}; cut-off {fc!r}")
        c.close(tc, ref[1], what + ": crossings", rtol=0, atol=tol)
        nw = c08.check(c, full[:6], t, x, tc, what)
        c.close(state(s)[0], h, "the object carries the determined heights", rtol=0)
        c.close(state(s)[1], T, "the object carries the determined periods", rtol=0)
        c.expect(s.nwave == nw, "the object carries the determined number", f"{s.nwave} {nw}")
        c.close(state(s)[2], tc, "the object carries the determined crossings", rtol=0)
        # minimum height
        k = r.random()
        if nw == 0 or k < 0.15:
            mn = 0
        elif k < 0.5:
            mn = float(r.choice(h))
        elif k < 0.6:
            mn = float(np.nextafter(r.choice(h), np.inf))
        elif k < 0.9:
            mn = float(r.uniform(0, 1.1 * h.max()))
        else:
            mn = float(2 * h.max() + 1)
        part = c.call(s._determine_individual_waves, kind, minimum_wave=mn, **kw)
        sel = h >= mn
        for name, a, b in zip(("heights", "periods", "crests", "troughs", "crest times", "trough times"), part[:6], (h, T, cr, tr, tcr, ttr)):
            c.close(np.asarray(a, dtype=float).ravel(), b[sel], "exactly the waves not below the minimum height: " + name, rtol=0,
                    detail=f"minimum {mn!r}, {kind}")
        hs, Ts, cs = state(s)
        c.close(hs, h[sel], "the object carries the remaining heights", rtol=0)
        c.close(Ts, T[sel], "the object carries the remaining periods", rtol=0)
        c.expect(s.nwave == int(sel.sum()), "the object carries the remaining number", f"{s.nwave} {int(sel.sum())}")
        want = np.delete(tc, np.nonzero(~sel)[0])
        c.close(cs, want, "the object carries the crossings without the starts of removed waves", rtol=0)
        if 0 < sel.sum() < nw or (fc and nw > 1):
            c.nontrivial(x, kind, fc, mn)
        c.tag("some removed" if 0 < sel.sum() < nw else "none removed" if sel.all() else "all removed")
        # statistics, in any order, refer to these waves
        w = W.WaveHeights(h[sel], T[sel])
        asks = ["get_Hs", "get_Hrms", "get_Hmax", "get_H2p_Rayleigh", "highest_waves", "get_exceedance_waveheight", "sort"]
        for q in r.permutation(asks)[: int(r.integers(1, 5))]:
            arg = {"highest_waves": (0.25,), "get_exceedance_waveheight": (20.0,)}.get(q, ())
            a = c.call(getattr(s, q), *arg)
            b = getattr(w, q)(*arg)
            if q != "sort":
                c.close(np.asarray(a, float), np.asarray(b, float), "statistics refer to the determined waves", rtol=1e-12, detail=q)
            else:
                o = np.lexsort((T[sel], h[sel]))
                k = np.lexsort((state(s)[1], state(s)[0]))
                c.close(state(s)[0][k], h[sel][o], "statistics refer to the determined waves", rtol=0)
                c.close(state(s)[1][k], T[sel][o], "statistics refer to the determined waves", rtol=0)
        if r.random() < 0.05:
            fig = c.call(s.plot, plot_crossing=True)
            L = [q for q in fig.axes[0].lines if q.get_label() == "crossing"]
            c.expect(len(L) == 1, "plotted crossings are the determined ones", f"{len(L)} crossing lines")
            c.close(np.asarray(L[0].get_xdata(), float), want, "plotted crossings are the determined ones", rtol=0)
            c.close(np.asarray(L[0].get_ydata(), float), 0 * want, "plotted crossings are the determined ones", rtol=0)
        c.close(s.xTime, keep, "record unchanged", rtol=0)
        c.close(s.time, t, "record unchanged", rtol=0)
        if r.random() < 0.3:
            c.call(s._determine_individual_waves)
            for a, b, q in zip(state(s), first, ("heights", "periods", "crossings")):
                c.close(a, b, "default options restore the initial state", rtol=0, detail=q)


WORKLOADS = {"history": (w_history, 2400, 24000),
             "far": (gens.far(w_history, 33000), 4, 40)}
REQUIRED = {"the object carries the remaining heights": 2000, "default options restore the initial state": 800,
            "statistics refer to the determined waves": 3000, "down relative to the low-passed record: crossings": 200}
