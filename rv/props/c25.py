"""C25: plots show the object's data."""
import os
import tempfile

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

from rv import gens, refs
from rv.target import W

PROP = "C25"
RULE = ("plotting methods of Series, WaveHeights and Spectrum on random objects, before and after other calls, with another "
        "figure open and current; the artists of the returned figure are read back and compared with the reference data; "
        "files in the (fresh) working directory are listed before and after; non-trivial: at least 3 waves or 10 frequencies")


class Sandbox:
    """Runs the plot in an empty working directory and reports the files that appeared."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="plot", dir=os.environ.get("RV_SCRATCH"))

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.dir)
        return self

    def files(self):
        return sorted(os.path.join(os.path.relpath(d, self.dir), f) for d, _, fs in os.walk(self.dir) for f in fs)

    def __exit__(self, *a):
        os.chdir(self.old)
        for d, _, fs in os.walk(self.dir, topdown=False):
            for f in fs:
                os.unlink(os.path.join(d, f))
            os.rmdir(d)


def draw(c, fn, *a, **kw):
    """Calls a plotting method with and without a path; returns the figure."""
    r = c.rng
    with Sandbox() as sb:
        other, oa, how = None, None, str(r.choice(["curve", "empty", "empty axes", "none", "closed"]))
        if how != "none":
            other = plt.figure()
        if how in ("curve", "empty axes"):
            oa = other.gca()
        if how == "curve":
            oa.plot([1, 2], [3, 4])
        if how == "closed":
            plt.close(other)
        c.tag("current figure: " + how)
        open_before = set(plt.get_fignums())
        save = r.random() < 0.35
        if save:
            name = str(r.choice(["a.png", "b.pdf", "c.svg"])) if r.random() < 0.3 else "plot.png"
            if r.random() < 0.3:
                name = os.path.join(sb.dir, name)
            kw = dict(kw, savepath=name)
        fig = c.call(fn, *a, **kw)
        c.expect(isinstance(fig, matplotlib.figure.Figure), "returns a figure", f"{type(fig)}")
        c.expect(fig is not other and (other is None or len(other.axes) == (oa is not None)) and (oa is None or (
            len(oa.lines) == (how == "curve") and len(oa.patches) == 0)), "draws in a figure of its own", how)
        files = sb.files()
        if save:
            want = [os.path.join(".", os.path.basename(name))]
            c.expect(files == want, "writes exactly the requested file", f"{files} expected {want}")
            p = os.path.join(sb.dir, os.path.basename(name))
            c.expect(os.path.getsize(p) > 500, "the file has content", name)
            with open(p, "rb") as fh:
                head = fh.read(8)
            good = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[name[-3:]]
            c.expect(head.startswith(good), "the file is of the requested type", f"{head!r}")
        else:
            c.expect(files == [], "writes no file without a path", f"{files}")
        c.expect(len(fig.axes) == 1, "one pair of axes", f"{len(fig.axes)}")
        new = set(plt.get_fignums()) - open_before
        c.expect(len(new) <= 1, "one new figure", f"{new}")
    return fig, fig.axes[0]


def xy(ln):
    return np.asarray(ln.get_xdata(orig=True), float).ravel(), np.asarray(ln.get_ydata(orig=True), float).ravel()


def shown(c, ax):
    """The default view shows all of the data and not mainly empty space."""
    d = np.concatenate([xy(q)[0] for q in ax.lines])
    lo, hi = ax.get_xlim()
    span = np.ptp(d)
    c.expect(lo <= d.min() + 1e-6 * span and hi >= d.max() - 1e-6 * span, "the view shows all data", f"axis {lo!r}..{hi!r}, data {d.min()!r}..{d.max()!r}")
    if span > 1e-6 * np.max(np.abs(d)):
        c.expect(hi - lo <= 3 * span, "the view is that of the data", f"axis {lo!r}..{hi!r}, data {d.min()!r}..{d.max()!r}")


def same(c, ln, X, Y, clause, rtol=1e-12, atol=0.0, detail=""):
    x, y = xy(ln)
    c.close(x, np.asarray(X, float), clause, rtol=rtol, atol=atol, detail=f"abscissa; {detail}")
    c.close(y, np.asarray(Y, float), clause, rtol=rtol, atol=atol, detail=f"ordinate; {detail}")


def w_series(c):
    r = c.rng
    t, x, tg = gens.record(r, 4, 400, kind="jonswap" if gens.is_far() else None)
    for q in tg:
        c.tag(q)
    s = c.call(W.Series, t, x)
    for _ in range(int(r.integers(0, 3))):
        c.observe(getattr(s, str(r.choice(["sort", "get_Hs", "get_spectrum", "get_crossing"]))))
    fig, ax = draw(c, s.plot)
    c.expect(len(ax.lines) == 1, "only the series by default", f"{len(ax.lines)} lines")
    same(c, ax.lines[0], t, x, "series against time")
    shown(c, ax)
    _, tc = refs.crossings(t, x, "down")
    fig, ax = draw(c, s.plot, plot_crossing=True)
    c.expect(len(ax.lines) == 2, "series and crossings", f"{len(ax.lines)} lines")
    same(c, ax.lines[0], t, x, "series against time")
    tol = 1e-9 * float(np.max(np.abs(t))) + 1e-9 * (t[-1] - t[0])
    same(c, ax.lines[1], tc, np.zeros(len(tc)), "crossings on the zero line at the crossing times", rtol=0, atol=tol)
    if len(tc) > 3:
        c.nontrivial(x)
    plt.close("all")


def w_spectrum(c):
    r = c.rng
    f, S, tg = gens.spec(r, 8, 300)
    if f[0] == 0:
        S[0] = 0.0
    m1 = refs.moments(f, S, 1)[0][0]
    if m1 <= 0 or S.max() < 1e-8:
        return
    for q in tg:
        c.tag(q)
    o = c.call(W.Spectrum, f, S)
    fig, ax = draw(c, o.plot)
    c.expect(len(ax.lines) == 1, "no markers for periods that were not computed", f"{len(ax.lines)} lines")
    same(c, ax.lines[0], f, S, "density against frequency")
    shown(c, ax)
    got = {}
    for q in r.permutation(["Tps", "Tmm10", "Tm02"])[: int(r.integers(1, 4))]:
        kw = {}
        if r.random() < 0.3:
            kw = {"fmin": float(f[1]), "fmax": float(f[-1])}
        v = float(c.call(getattr(o, "get_" + str(q)), **kw))
        if not (np.isfinite(v) and v > 0):
            return
        got[str(q)] = v
    # other queries in between must not add or move markers
    others = ["Hm0", "Tm01", "Tp"]
    for q in r.permutation(others)[:2]:
        c.observe(getattr(o, "get_" + str(q)))
    fig, ax = draw(c, o.plot)
    same(c, ax.lines[0], f, S, "density against frequency")
    marks = ax.lines[1:]
    c.expect(len(marks) == len(got), "a marker for each computed period", f"{len(marks)} markers, computed {got}")
    pos = []
    for ln in marks:
        X, Y = xy(ln)
        c.expect(len(X) >= 2 and np.ptp(X) == 0, "markers are vertical lines", f"{X!r}")
        c.close(Y.max(), S.max(), "markers reach the highest density", rtol=1e-12)
        pos.append(X[0])
        lab = ln.get_label()
        if lab in got:
            c.close(X[0], 1 / got[lab], "marker at the inverse of the period it names", rtol=1e-12)
    c.close(np.sort(pos), np.sort([1 / v for v in got.values()]), "markers at the inverse of the computed periods", rtol=1e-12)
    fig, ax = draw(c, o.plot, plot_periods=False)
    c.expect(len(ax.lines) == 1, "no markers when switched off", f"{len(ax.lines)}")
    same(c, ax.lines[0], f, S, "density against frequency")
    fig, ax = draw(c, o.plot, xlabel="XX", ylabel="YY")
    c.expect(ax.get_xlabel() == "XX" and ax.get_ylabel() == "YY", "axis labels as given", f"{ax.get_xlabel()} {ax.get_ylabel()}")
    c.nontrivial(f[:2], S)
    plt.close("all")


def obj(c):
    """WaveHeights or Series with its reference heights."""
    r = c.rng
    if r.random() < 0.6 or gens.is_far():
        n = gens.size(r) if gens.is_far() else int(r.choice([1, 2, 3, 4, 7, 30, 200, int(r.integers(3, 500))]))
        h = r.rayleigh(1.5, n)
        if r.random() < 0.3:
            h = np.round(h * 2) / 2
        return (lambda: c.call(W.WaveHeights, h, h * 2 + 3)), h
    t, x, _ = gens.record(r, 20, 600, kind="jonswap")
    i, tc = refs.crossings(t, x, "down")
    h = refs.waves(t, x, i, tc)[:, 0]
    return (lambda: c.call(W.Series, t, x)), h


def w_exceed(c):
    r = c.rng
    mk, h = obj(c)
    n = len(h)
    hs = np.sort(h)[::-1]
    if n == 0:
        return
    P = np.arange(1, n + 1) / n
    w = mk()
    if r.random() < 0.4:
        c.call(w.sort)
    fig, ax = draw(c, w.plot_exceedance_waveheight)
    c.expect(len(ax.lines) == 1, "one curve", f"{len(ax.lines)}")
    same(c, ax.lines[0], hs, P, "sorted heights against exceedance probability i/N")
    if n >= 3 or r.random() < 0.5:
        w = mk()
        fig, ax = draw(c, w.plot_hist_waveheight)
        bars = sorted(((p.get_x(), p.get_width(), p.get_height()) for p in ax.patches), key=lambda v: v[0])
        c.close(sum(b[2] for b in bars), float(n), "histogram counts every wave", rtol=0)
        for x0, wd, ct in bars:
            # inclusive of the last edge, with room for rounding of the edges
            e = 1e-9 * max(1.0, abs(x0))
            lo, hi = np.sum((h > x0 + e) & (h < x0 + wd - e)), np.sum((h >= x0 - e) & (h <= x0 + wd + e))
            c.expect(lo <= ct <= hi, "histogram bars hold the waves of their bin", f"bar at {x0!r} width {wd!r}: {ct!r}, between {lo} and {hi}")
    if n >= 3:
        c.nontrivial(h)
    plt.close("all")


def w_rayleigh(c):
    r = c.rng
    mk, h = obj(c)
    n = len(h)
    if n < 3:
        return
    hs = np.sort(h)[::-1]
    Hs = float(np.mean(hs[: n // 3]))
    if Hs <= 0 or n // 3 < 1:
        return
    norm = bool(r.random() < 0.5)
    q = Hs if norm else 1.0
    P = np.arange(1, n + 1) / n
    X = np.sqrt(-np.log(P))
    H2 = Hs * np.sqrt(-np.log(0.02)) / np.sqrt(2)
    theory = H2 * np.sqrt(np.log(np.arange(1, n + 1) / (n + 1)) / np.log(0.02))
    bgp = bool(r.random() < 0.5)
    kw = {}
    if norm or r.random() < 0.5:
        kw["normalize"] = norm
    hm0 = float(Hs * r.uniform(0.9, 1.1))
    d, cot = float(hm0 / r.uniform(0.2, 2)), float(r.choice([250.0, 100.0, 30.0]))
    if bgp:
        kw.update(plot_BG=True, water_depth=d, hm0=hm0)
        if cot != 250.0 or r.random() < 0.5:
            kw["cota_slope"] = cot
    w = mk()
    if r.random() < 0.3:
        c.call(w.get_Hs)
    fig, ax = draw(c, w.plot_exceedance_waveheight_Rayleigh, **kw)
    lines = list(ax.lines)
    sm0 = hm0 / 4
    htr = (0.35 + 5.8 / cot) * d / (sm0 * (2.69 + 3.24 * sm0 / d))
    if bgp and htr > 2.75 - 1e-6 and len(lines) == 2:  # drawing nothing leaves no line
        bgp = False
        c.tag("BG outside its validity, no line")
    c.expect(len(lines) == (3 if bgp else 2), "curves: theory, data and on request Battjes-Groenendijk", f"{len(lines)} lines, plot_BG {bgp}")
    lab = {ln.get_label(): ln for ln in lines}

    def find(words, k):
        for s, ln in lab.items():
            if any(v in s for v in words):
                return ln
        return lines[k]
    data = find(["Wave height dist"], -1)
    theo = find(["heoretical"], 0)
    c.expect(data is not theo, "separate curves", f"{list(lab)}")
    same(c, data, X, hs / q, "sorted heights against the Rayleigh abscissa", rtol=1e-11, atol=1e-14)
    same(c, theo, X, theory / q, "theoretical Rayleigh curve through the 2% height", rtol=1e-9, atol=1e-12)
    c.tag("normalised" if norm else "in metres")
    for tk, tl in zip(ax.get_xticks(), ax.get_xticklabels()):
        try:
            pc = float(tl.get_text().strip("$% \\"))
        except ValueError:
            continue
        if 0 < pc <= 100:
            c.close(float(tk), np.sqrt(-np.log(pc / 100)), "exceedance percentages at their Rayleigh abscissa", rtol=1e-6, atol=1e-9, detail=f"tick labelled {pc}")
    if bgp:
        ln = find(["Groenendijk"], 1)
        x, y = xy(ln)
        if abs(htr - 2.75) < 1e-6 or htr < 0.05:
            return
        if htr > 2.75:
            c.expect(x.size == 0, "no Battjes-Groenendijk points beyond its validity", f"{x!r}")
            c.tag("BG outside its validity")
        else:
            b = refs.bg(hm0, n, d, cot)
            x1, x2 = b["H1"] * np.sqrt(np.log(n)), b["H2"] * np.log(n) ** (1 / 3.6)
            last = [min(v, hm0 * np.sqrt(np.log(n) / 2)) for v in ([x1 if x1 < b["Htr"] else x2] if abs(x1 - b["Htr"]) > 1e-3 * x1 else [x1, x2])]
            Ptr = np.exp(-((b["Htr"] / b["H1"]) ** 2))
            wx = np.sqrt(-np.log([1.0, Ptr, 1 / n]))
            c.expect(x.shape == (3,), "Battjes-Groenendijk curve", f"{x!r}")
            c.close(x, wx, "Battjes-Groenendijk curve", rtol=1e-3, atol=1e-12)
            c.close(y[:2], np.array([0.0, b["Htr"]]) / q, "Battjes-Groenendijk curve", rtol=1e-9)
            c.expect(any(abs(y[2] - v / q) <= 1e-3 * v / q for v in last), "Battjes-Groenendijk curve", f"{y[2]!r} {last} {q!r}")
            c.tag("BG curve")
    c.nontrivial(h, norm, bgp)
    # the curve without Hm0 is an error
    kw.pop("hm0", None)
    kw.update(plot_BG=True, water_depth=d)
    with Sandbox() as sb:
        c.rejects(mk().plot_exceedance_waveheight_Rayleigh, clause="Battjes-Groenendijk curve without Hm0 is an error", what="no hm0", **kw)
        c.rejects(mk().plot_exceedance_waveheight_Rayleigh, clause="Battjes-Groenendijk curve without Hm0 is an error", what="no hm0", savepath="x.png", **kw)
        c.expect(sb.files() == [], "no file when the call is an error", "")
    plt.close("all")


WORKLOADS = {"series": (w_series, 120, 2000), "spectrum": (w_spectrum, 120, 2000), "exceedance": (w_exceed, 150, 2500), "rayleigh": (w_rayleigh, 200, 3500),
             "far_series": (gens.far(w_series, 21000), 6, 48), "far_spectrum": (gens.far(w_spectrum), 6, 60), "far_exceedance": (gens.far(w_exceed), 6, 60),
             "far_rayleigh": (gens.far(w_rayleigh), 6, 60)}
REQUIRED = {"series against time": 150, "markers at the inverse of the computed periods": 60, "sorted heights against exceedance probability i/N": 100,
            "theoretical Rayleigh curve through the 2% height": 100, "Battjes-Groenendijk curve": 60, "exceedance percentages at their Rayleigh abscissa": 500, "writes exactly the requested file": 100,
            "writes no file without a path": 200, "Battjes-Groenendijk curve without Hm0 is an error": 150}
