"""C37: a call that fails changes nothing.

Workloads make calls that end in an error (bad arguments, an unwritable file, warnings or floating-point
events turned into errors by the user, an interrupt between any two lines of the package); monitors compare
inputs, global state and files before and after, and every later answer with that of a twin that never failed.
"""
import ast
import io
import os
import sys
import tempfile
import warnings

import numpy as np

from rv import gens, ops, settings
from rv.core import cpu_budget, digest
from rv.props import c22, c35
from rv.target import PKG, REPO, W

PROP = "C37"
RULE = ("objects and arrays of rv.ops with random histories of calls, 3..8 of them failing for one of the reasons above; "
        "afterwards all questions are put to the object and to a twin that made the successful calls only; non-trivial: "
        "a case in which at least 3 calls failed")
ASSUMPTIONS = [
    "which bad arguments must be refused is C24; here a call counts only when it raised",
    "figures left open by a failed plot are not judged; an interrupted call may leave its own object half changed, so "
    "interrupts are judged on inputs, global state and the answers of other calls",
]
ROOT = os.path.realpath(os.path.join(REPO, PKG)) + os.sep


class Interrupted(BaseException):
    pass


class NoArray:
    """An array-like whose conversion fails."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        raise OSError("cannot be read")

    def __array__(self, *a, **k):
        raise OSError("cannot be read")


class Full(io.RawIOBase):
    """A file on a full disk."""

    def writable(self):
        return True

    def write(self, b):
        raise OSError(28, "No space left on device")


# ------------------------------------------------------------------------- failing calls
def bad_series(r, w, p, tmp):
    c = p["cross"]
    return {
        "get_crossing(type)": lambda s: s.get_crossing("sideways"),
        "get_crossing(None)": lambda s: s.get_crossing(None),
        "_determine(type)": lambda s: s._determine_individual_waves("no"),
        "_determine(fcutoff)": lambda s: s._determine_individual_waves(c, fcutoff="x"),
        "_determine(minimum_wave)": lambda s: s._determine_individual_waves(c, minimum_wave="x"),
        "_determine(minimum_wave array)": lambda s: s._determine_individual_waves(c, minimum_wave=np.ones(len(w["x"]) + 7)),
        "_determine(type after cutoff)": lambda s: s._determine_individual_waves("no", fcutoff=p["flow"] or 0.01, minimum_wave=0.1),
        "get_spectrum(dfDesired)": lambda s: s.get_spectrum(dfDesired="x"),
        "get_spectrum(window)": lambda s: s.get_spectrum(windows_type="nosuchwindow"),
        "get_spectrum(overlap)": lambda s: s.get_spectrum(nperseg=8, noverlap=9, use_dfDesired=False),
        "get_spectrum(nfft)": lambda s: s.get_spectrum(nperseg=8, nfft=4, use_dfDesired=False),
        "get_spectrum_raw(x)": lambda s: s.get_spectrum_raw("x"),
        "get_bandpassfilter(x)": lambda s: s.get_bandpassfilter("x", 0.3),
        "get_bandpassfilter(y)": lambda s: s.get_bandpassfilter(0.1, None),
        "plot(dir)": lambda s: s.plot(savepath=tmp, plot_crossing=True),
        "plot(nodir)": lambda s: s.plot(savepath=os.path.join(tmp, "no", "a.png")),
        "plot(full)": lambda s: s.plot(savepath=Full()),
        "plot(format)": lambda s: s.plot(savepath=os.path.join(tmp, "a.nosuchformat")),
    }


def bad_heights(r, w, p, tmp):
    return {
        "highest_waves(2)": lambda s: s.highest_waves(2.0),
        "highest_waves(-)": lambda s: s.highest_waves(-0.5),
        "highest_waves(x)": lambda s: s.highest_waves("x"),
        "exceedance(200)": lambda s: s.get_exceedance_waveheight(200.0),
        "exceedance(-1)": lambda s: s.get_exceedance_waveheight(-1.0),
        "exceedance(x)": lambda s: s.get_exceedance_waveheight("x"),
        "plot_exceedance(nodir)": lambda s: s.plot_exceedance_waveheight(savepath=os.path.join(tmp, "no", "a.png")),
        "plot_exceedance(full)": lambda s: s.plot_exceedance_waveheight(savepath=Full()),
        "plot_Rayleigh(no hm0)": lambda s: s.plot_exceedance_waveheight_Rayleigh(normalize=bool(r.integers(2)), plot_BG=True),
        "plot_Rayleigh(format)": lambda s: s.plot_exceedance_waveheight_Rayleigh(savepath=os.path.join(tmp, "a.nosuchformat"), normalize=True),
        "plot_Rayleigh(full)": lambda s: s.plot_exceedance_waveheight_Rayleigh(savepath=Full(), normalize=bool(r.integers(2))),
        "plot_Rayleigh(depth)": lambda s: s.plot_exceedance_waveheight_Rayleigh(plot_BG=True, hm0=p["hm0"], water_depth="x"),
        "plot_hist(dir)": lambda s: s.plot_hist_waveheight(savepath=tmp),
        "plot_hist(format)": lambda s: s.plot_hist_waveheight(savepath=os.path.join(tmp, "a.nosuchformat")),
        "plot_exceedance(format)": lambda s: s.plot_exceedance_waveheight(savepath=os.path.join(tmp, "a.nosuchformat")),
        "plot_hist(full)": lambda s: s.plot_hist_waveheight(savepath=Full()),
    }


def bad_spectrum(r, w, p, tmp):
    f = w["f"]
    hi = float(f[-1] * 3 + 1)
    out = {
        "create_series(dt=0)": lambda s: s.create_series(0.0, 10.0, 0.0),
        "create_series(x)": lambda s: s.create_series(0.0, "x", 1.0),
        "create_series(back)": lambda s: s.create_series(100.0, 0.0, 1.0),
        "plot(nodir)": lambda s: s.plot(savepath=os.path.join(tmp, "no", "a.png")),
        "plot(full)": lambda s: s.plot(savepath=Full(), xlabel="a"),
        "plot(xlim)": lambda s: s.plot(xlim="x"),
        "plot(dir)": lambda s: s.plot(savepath=tmp),
        "plot(format)": lambda s: s.plot(savepath=os.path.join(tmp, "a.nosuchformat"), xlim=0.0),
        "get_Tp(above)": lambda s: s.get_Tp(hi, hi + 1),
        "get_Tps(above)": lambda s: s.get_Tps(hi, hi + 1),
        "get_s0p(above)": lambda s: s.get_s0p(hi, hi + 1),
        "get_s0p(g)": lambda s: s.get_s0p(g="x"),
        "get_smm10(g)": lambda s: s.get_smm10(g="x"),
        "get_smm10_HF(g)": lambda s: s.get_smm10_HF(g="x"),
    }
    for k in ("get_Hm0", "get_Hm0_HF", "get_Hm0_LF", "get_Tps", "get_Tp", "get_Tmm10", "get_Tmm10_HF", "get_Tmm10_LF", "get_Tm01", "get_Tm02", "get_s0p",
              "get_smm10", "get_smm10_HF"):
        out[k + "(x)"] = lambda s, k=k: getattr(s, k)("x", 0.3)
        out[k + "(y)"] = lambda s, k=k: getattr(s, k)(float(f[0]), "y")
    return out


# ------------------------------------------------------------------------------ objects
def good_ops(kind, r, w, p):
    """Successful calls that make up a history."""
    H = {"sort": lambda s: s.sort(), "get_Hs": lambda s: s.get_Hs(), "highest": lambda s: s.highest_waves(p["frac"]), "H2p": lambda s: s.get_H2p_Rayleigh()}
    if kind == "heights":
        return H
    if kind == "series":
        return dict(H, redo=lambda s: s._determine_individual_waves(p["cross"], minimum_wave=0.05), up=lambda s: s._determine_individual_waves("up"),
                    down=lambda s: s._determine_individual_waves("down"), spec=lambda s: s.get_spectrum_raw(0.0))
    b = (p["fmin"], min(p["fmax"], float(w["f"][-1])))
    return {"Hm0": lambda s: s.get_Hm0(*b), "Tps": lambda s: s.get_Tps(), "Tmm10": lambda s: s.get_Tmm10(*b), "Tm02": lambda s: s.get_Tm02(), "s0p": lambda s: s.get_s0p(),
            "HF": lambda s: s.get_Hm0_HF(*b)}


def new(kind, w):
    if kind == "heights":
        return W.WaveHeights(w["hu"], w["tu"])
    if kind == "series":
        return W.Series(w["t"], w["x"])
    return W.Spectrum(w["f"], w["S"])


def level(r, w):
    """Now and then the records stand on a level far above (or scales far from) their waves."""
    u = r.random()
    if u < 0.25:
        for k in ("x", "x2", "X"):
            w[k] = w[k] + float(10 ** r.uniform(1, 7)) * float(r.choice([-1, 1]))
    elif u < 0.35:
        k = float(10 ** r.uniform(-9, 9))
        for q in ("x", "x2", "X", "S", "hu", "hs", "Xq", "Xq2", "Xfull"):
            w[q] = w[q] * k
    return w


def tell(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return c35.numbers(fn())
        except Exception as e:  # noqa: BLE001
            return [type(e).__name__]


def answers(kind, s, w, p, plots):
    """Everything that can be asked, by name."""
    out = {}

    def q(name, fn):
        out[name] = tell(fn)
    if kind != "spectrum":
        # the waves, as pairs in a fixed order (sorting them is an allowed change)
        def pairs():
            h, t = np.asarray(s.hwave), np.asarray(s.twave)
            o = np.lexsort((t, h))
            return h[o], t[o], s.nwave
        q("waves", pairs)
        for k in ("get_Hmax", "get_Hrms", "get_Hs", "get_H2p_Rayleigh", "__str__", "__repr__"):
            q(k, getattr(s, k))
        q("highest_waves", lambda: s.highest_waves(p["frac"]))
        q("exceedance", lambda: s.get_exceedance_waveheight(p["perc"]))
        q("waves again", pairs)
        if plots:
            q("plot_exceedance", lambda: s.plot_exceedance_waveheight())
            q("plot_Rayleigh", lambda: s.plot_exceedance_waveheight_Rayleigh())
            q("plot_hist", lambda: s.plot_hist_waveheight())
    if kind == "series":
        q("samples", lambda: (s.time, s.xTime, s.nt, s.dt))
        q("tCross", lambda: (np.asarray(s.tCross),))
        if plots:
            q("plot", lambda: s.plot(plot_crossing=True))
        q("crossing", lambda: (s.get_crossing("up"), s.get_crossing("down")))
        for k in ("get_skewness", "get_asymmetry", "max", "min", "mean", "var", "get_fourier_comp", "get_spectrum"):
            q(k, getattr(s, k))
        q("raw", lambda: s.get_spectrum_raw(0.0))
        q("filter", lambda: s.get_bandpassfilter(p["flow"], p["fhigh"]))
        q("redo", lambda: s._determine_individual_waves(p["cross"]))
    if kind == "spectrum":
        q("density", lambda: (s.f, s.sVarDens, s.nf, s.spec))
        if plots:
            q("plot", lambda: s.plot(plot_periods=False))
        b = (p["fmin"], min(p["fmax"], float(w["f"][-1])))
        for k in c35.BANDED:
            k = k.split(".")[1]
            q(k, getattr(s, k))
            q(k + " band", lambda: getattr(s, k)(*b))

        def series():
            np.random.seed(p["seed"])
            return s.create_series(0.0, 30 * p["dtg"], p["dtg"])
        q("create_series", series)
    return out


def compare(c, got, want, what):
    for k in want:
        c.count("later answers as if the failed call had not been made")
        d = c35.differs(got[k], want[k], 1e-12)
        if d:
            c.fail("later answers as if the failed call had not been made", f"{k} after {what}: {d}")


TARGETS = ("a.png", "a.nosuchformat")  # what the failing plots were asked to write


def listing(d):
    return sorted(os.path.relpath(os.path.join(q, k), d) for q, a, b in os.walk(d) for k in a + b)


class Watch:
    """Inputs, global state and files around one failing call."""

    def __init__(self, c, guard, tmp, random_ok=False, gauges=None):
        self.c, self.g, self.tmp, self.random_ok, self.gauges = c, guard, tmp, random_ok, gauges

    def __call__(self, name, fn, strict=None):
        c = self.c
        before = c22.globals_now()
        files = listing(self.tmp)
        exc = None
        c22.audit_on()
        try:
            with cpu_budget():
                fn()
        except Exception as e:  # noqa: BLE001
            exc = e
        except Interrupted as e:
            exc = e
        finally:
            log = c22.audit_off()
        after = c22.globals_now()
        c.n_events += 1
        short = name.split(" with ")[0]
        c.calls[short] = c.calls.get(short, 0) + 1
        if len(c.events) < 30:
            c.events.append({"call": name, "outcome": "returned" if exc is None else f"raised {type(exc).__name__}: {str(exc)[:80]}"})
        if exc is None:
            return None
        c.count("failed calls")
        left = [q for q in listing(self.tmp) if q not in files and q not in TARGETS]
        c.expect(not left, "no other files touched by a failed call", lambda: f"{name} left {left}")
        for k in before:
            c.count("global state unchanged by a failed call")
            if self.random_ok and k == "random state":
                continue
            if before[k] != after[k]:
                extra = ""
                if isinstance(before[k], dict):
                    extra = f": {[(q, before[k].get(q), after[k].get(q)) for q in set(before[k]) | set(after[k]) if before[k].get(q) != after[k].get(q)][:3]}"
                elif len(repr(before[k])) < 200:
                    extra = f": {before[k]!r} -> {after[k]!r}"
                c.fail("global state unchanged by a failed call", f"{name} ({type(exc).__name__}) changed the {k}{extra}")
        for k, b in self.g.base.items():
            c.count("inputs unchanged by a failed call")
            if digest(b) != self.g.dig[k]:
                c.fail("inputs unchanged by a failed call", f"{name} modified the array passed as {k!r}")
        if self.gauges:
            self.gauges.check(c, name, "inputs unchanged by a failed call")
        for what, arg in log:
            if what == "write" and arg == "/dev/null":
                continue
            if what == "write" and (arg == self.tmp or arg.startswith(self.tmp + os.sep)):
                continue
            c.fail("no other files touched by a failed call", f"{name}: {what} {arg}")
        c.count("no other files touched by a failed call")
        return exc


def aside(fn):
    """Settings of a user who is not on the defaults, half of the time."""
    def w(c):
        if c.rng.random() < 0.5:
            return fn(c)
        c.tag("unusual settings")
        with settings.unusual(c.rng):
            return fn(c)
    w.__doc__ = fn.__doc__
    return w


def reset():
    import matplotlib.pyplot as plt
    plt.close("all")


@aside
def w_arguments(c):
    """Failing calls on an object with a history."""
    r = c.rng
    w, tags = ops.make_world(r, lo=20, hi=300)
    for q in tags:
        c.tag(q)
    p = ops.make_params(r, w)
    g = c22.Guard(r, w, bool(r.random() < 0.3))
    kind = ["series", "heights", "spectrum"][c.idx % 3]
    c.tag(kind)
    tmp = tempfile.mkdtemp()
    lw = g.world
    a, b = new(kind, lw), new(kind, {k: v.copy() for k, v in w.items()})
    bad = {"series": lambda: {**bad_series(r, w, p, tmp), **bad_heights(r, w, p, tmp)}, "heights": lambda: bad_heights(r, w, p, tmp),
           "spectrum": lambda: bad_spectrum(r, w, p, tmp)}[kind]()
    good = good_ops(kind, r, w, p)
    watch = Watch(c, g, tmp, kind == "spectrum")
    failed = []
    plots = r.random() < 0.4
    for _ in range(int(r.integers(3, 9))):
        if r.random() < 0.5:
            k = str(r.choice(list(good)))
            got, want = tell(lambda: good[k](a)), tell(lambda: good[k](b))
            c.count("later answers as if the failed call had not been made")
            d = c35.differs(got, want, 1e-12)
            if d:
                c.fail("later answers as if the failed call had not been made", f"{k} after {failed}: {d}")
        k = str(r.choice([q for q in bad if plots and (r.random() < 0.5 or "plot" in q) or "plot" not in q]))
        strict = str(r.choice(["none", "none", "none", "warnings", "floating point"]))
        with warnings.catch_warnings():
            warnings.simplefilter("error" if strict == "warnings" else "ignore")
            with np.errstate(**({"all": "raise"} if strict == "floating point" else {})):
                exc = watch(f"{kind}.{k}", lambda: bad[k](a))
        if exc is not None:
            failed.append(k)
            c.tag("failed: " + k)
        else:  # it did not fail here (an option that does not matter for these data): the twin makes the call too
            tell(lambda: bad[k](b))
        if r.random() < 0.3:
            compare(c, answers(kind, a, w, p, False), answers(kind, b, w, p, False), failed)
        reset()
    compare(c, answers(kind, a, w, p, plots), answers(kind, b, w, p, plots), failed)
    reset()
    if len(failed) >= 3:
        c.nontrivial(w["x"], w["S"], kind, " ".join(failed))


@aside
def w_strict(c):
    """Warnings and floating-point events made errors by the user: sound calls that fail half-way."""
    r = c.rng
    kind = ["spectrum", "series", "heights"][c.idx % 3]
    w, tags = ops.make_world(r, lo=20, hi=200)
    p = ops.make_params(r, w)
    if kind == "series" and r.random() < 0.6:
        w["x"] = [np.zeros(len(w["t"])), np.full(len(w["t"]), 3.0), w["x"] * 1e-170, w["x"] * 1e170][int(r.integers(4))]
    if kind == "heights" and r.random() < 0.6:
        w["hu"] = w["hu"] * [0.0, 1e170, 1e-170][int(r.integers(3))]
    if kind == "spectrum" and r.random() < 0.6:
        w["S"] = [np.zeros(len(w["f"])), w["S"] * 1e-320, w["S"] * 1e300][int(r.integers(3))]
    g = c22.Guard(r, w, bool(r.random() < 0.3))
    tmp = tempfile.mkdtemp()
    a, b = new(kind, g.world), new(kind, {k: v.copy() for k, v in w.items()})
    watch = Watch(c, g, tmp, kind == "spectrum")
    names = [k for k in ("get_Hmax", "get_Hrms", "get_Hs", "get_H2p_Rayleigh", "get_skewness", "get_asymmetry", "get_spectrum", "get_spectrum_raw", "get_fourier_comp",
                         "_determine_individual_waves", "plot_exceedance_waveheight_Rayleigh", "plot_hist_waveheight") if hasattr(a, k)]
    if kind == "spectrum":
        names = [k.split(".")[1] for k in c35.BANDED] + ["plot"]
    failed = []
    for _ in range(8):
        k = str(r.choice(names))
        how = str(r.choice(["all", "all", "k-th"]))
        with warnings.catch_warnings():
            if how == "all":
                warnings.simplefilter("error" if r.random() < 0.6 else "ignore")
                with np.errstate(all="raise" if r.random() < 0.6 else "ignore"):
                    exc = watch(f"strict {kind}.{k}", lambda: getattr(a, k)())
            else:  # the user's own handler gives up at the k-th event
                fuse = Fuse(int(r.integers(1, 4)))
                warnings.simplefilter("always")
                warnings.showwarning = fuse
                with np.errstate(all="call", call=fuse):
                    exc = watch(f"strict {kind}.{k}, handler fails at the {fuse.n}th event", lambda: getattr(a, k)())
                c.tag("handler fails" if exc is not None else "handler does not fail")
        if exc is not None:
            failed.append(f"{k} ({type(exc).__name__})")
            c.tag("strict: " + k)
        elif k.startswith(("_det", "get_")):
            tell(lambda: getattr(b, k)())
        reset()
    with np.errstate(all="ignore"):
        compare(c, answers(kind, a, w, p, False), answers(kind, b, w, p, False), failed)
    if len(failed) >= 3:
        c.nontrivial(w["x"], w["S"], kind, " ".join(failed))


class Fuse:
    """A handler of warnings and floating-point events that fails at the n-th."""

    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        self.n -= 1
        if self.n == 0:
            raise RuntimeError("handler failed")


class Used(dict):
    """Notes which arrays a call reads."""

    def __init__(self, d):
        super().__init__(d)
        self.keys_read = set()

    def __getitem__(self, k):
        self.keys_read.add(k)
        return super().__getitem__(k)


def spoil(r, world, used):
    """One argument array made unusable."""
    w = dict(world)
    k = str(r.choice(sorted(used)))
    v = np.array(world[k])
    how = str(r.choice(["unreadable", "shorter", "longer", "text", "None", "matrix", "empty", "nan", "inf", "shuffled", "three dimensions", "not a number"]))
    n = len(v)
    w[k] = {
        "unreadable": NoArray(n), "shorter": v[:-1], "longer": np.concatenate([v, v]), "text": "text", "None": None, "matrix": np.stack([v, v, v], axis=-1),
        "empty": v[:0], "nan": np.where(np.arange(v.size).reshape(v.shape) == v.size // 2, np.nan, v), "inf": np.where(np.arange(v.size).reshape(v.shape) == v.size // 2, np.inf, v),
        "shuffled": r.permutation(v), "three dimensions": np.zeros((2, 3, 4)), "not a number": np.array(["a"] * n),
    }[how]
    return w, f"{k} {how}"


def spoil_option(r, p, used):
    q = Used(p)
    k = str(r.choice(sorted(used)))
    v = [None, "text", [], object(), np.array([1.0, 2.0, 3.0]), 1j][int(r.integers(6))]
    q[k] = v
    return q, f"{k} = {type(v).__name__}"


@aside
def w_core(c):
    """Failing calls of functions and constructors; the same calls then made properly."""
    r = c.rng
    w, tags = ops.make_world(r, lo=16, hi=200)
    w = level(r, w)
    p = ops.make_params(r, w)
    g = c22.Guard(r, w, bool(r.random() < 0.3))
    tmp = tempfile.mkdtemp()
    names = [k for k in ops.OPS if k not in ops.PLOTS]
    pool = [str(v) for v in r.choice(names, 8, replace=False)]
    want, used, options = {}, {}, {}
    for k in pool:
        uw, up = Used({q: v.copy() for q, v in w.items()}), Used(p)
        want[k] = tell(lambda: ops.OPS[k](uw, up))
        used[k], options[k] = uw.keys_read, {q for q in up.keys_read if not isinstance(p[q], str)}
    failed = []
    pool = [k for k in pool if used[k]]
    gauges = c22.Gauges(g.world)
    lists = {**g.world, "_gauges": gauges.list}
    if "decompose_series" not in pool and r.random() < 0.5:
        pool.append("decompose_series")
        uw = Used({q: v.copy() for q, v in w.items()})
        want["decompose_series"] = tell(lambda: ops.OPS["decompose_series"](uw, p))
        used["decompose_series"], options["decompose_series"] = {"xloc", "wloc"}, {"depth"}
    for _ in range(16):
        k = str(r.choice(pool))
        sw, sp = lists, p
        if options[k] and r.random() < 0.3:
            sp, what = spoil_option(r, p, options[k])
        else:
            sw, what = spoil(r, lists, used[k])
        watch = Watch(c, g, tmp, k in ops.RANDOM, gauges)
        with warnings.catch_warnings():
            warnings.simplefilter(str(r.choice(["ignore", "ignore", "error"])))
            with np.errstate(all=str(r.choice(["ignore", "raise"]))):
                exc = watch(f"{k} with {what}", lambda: ops.OPS[k](sw, sp))
        if exc is None:
            continue
        failed.append(f"{k} with {what} ({type(exc).__name__})")
        c.tag("failed: " + k)
        for q in [k] + [str(v) for v in r.choice(pool, 2)]:
            got = tell(lambda: ops.OPS[q](g.world, p))
            c.count("later answers as if the failed call had not been made")
            if want[q] and isinstance(want[q][0], str) and want[q][0].endswith("Error"):
                continue
            if g.base["x"].flags.writeable is False and got and isinstance(got[0], str) and got[0] == "ValueError":
                got = tell(lambda: ops.OPS[q]({a: v.copy() for a, v in w.items()}, p))
            d = c35.differs(got, want[q], 1e-12)
            if d:
                c.fail("later answers as if the failed call had not been made", f"{q} after {failed[-3:]}: {d}")
    if len(failed) >= 3:
        c.nontrivial(w["x"], w["S"], " ".join(failed))


_safe = {}


def unfair(path):
    """Lines at which no exception can be expected to be cleaned up after: those of with and try statements themselves
    (their heads are passed again on the way out, before the exit is made, and CPython 3.12 leaves out the backward
    jump of a comprehension in their bodies); the functions they call are interrupted everywhere."""
    if path not in _safe:
        out = set()
        with open(path, encoding="utf-8") as fh:
            for n in ast.walk(ast.parse(fh.read())):
                if isinstance(n, (ast.With, ast.AsyncWith, ast.Try)):
                    out |= set(range(n.lineno, n.end_lineno + 1))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.decorator_list:
                    out.add(n.lineno)
                    # a context manager of its own: entered and left by its caller's with statement
                    if any("contextmanager" in ast.unparse(d) for d in n.decorator_list):
                        out |= set(range(n.lineno, n.end_lineno + 1))
        _safe[path] = out
    return _safe[path]


_final = {}


def final(path):
    """Lines of except and finally bodies: what happens there is the cleaning up itself."""
    if path not in _final:
        out = set()
        with open(path, encoding="utf-8") as fh:
            for n in ast.walk(ast.parse(fh.read())):
                if isinstance(n, ast.Try):
                    for b in n.finalbody + n.handlers:
                        out |= set(range(b.lineno, b.end_lineno + 1))
        _final[path] = out
    return _final[path]


class Library:
    """Counts the calls the package makes to functions of other packages and fails one of them."""

    def __init__(self, at=None):
        self.n, self.at, self.where = 0, at, None

    def __call__(self, frame, event, arg):
        code, back = frame.f_code, frame.f_back
        if event != "call" or back is None or code.co_filename.startswith(ROOT) or not back.f_code.co_filename.startswith(ROOT):
            return None
        if code.co_name.startswith("__") or "importlib" in code.co_filename or back.f_lineno in final(back.f_code.co_filename):
            return None
        if "warnings" in code.co_filename or "_ufunc_config" in code.co_filename or "contextlib" in code.co_filename or code.co_name in ("seterr", "rc", "rcdefaults"):
            return None
        self.n += 1
        if self.n == self.at:
            self.where = f"{back.f_code.co_filename[len(ROOT):]}:{back.f_lineno}, in {code.co_name}"
            raise Interrupted(self.where)
        return None

    def run(self, fn):
        sys.settrace(self)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Tracer:
    """Counts the lines of the package that are executed and raises at one of them."""

    def __init__(self, at=None):
        self.n, self.at, self.where = 0, at, None

    def line(self, frame, event, arg):
        if event == "line" and frame.f_lineno not in unfair(frame.f_code.co_filename):
            self.n += 1
            if self.n == self.at:
                self.where = f"{frame.f_code.co_filename[len(ROOT):]}:{frame.f_lineno}"
                raise Interrupted(self.where)
        return self.line

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(ROOT) else None

    def run(self, fn):
        sys.settrace(self)
        try:
            return fn()
        finally:
            sys.settrace(None)


@aside
def w_interrupt(c):
    """A call is interrupted (Ctrl-C) before an arbitrary line; other calls then answer as always."""
    r = c.rng
    w, _ = ops.make_world(r, lo=16, hi=80)
    w = level(r, w)
    p = ops.make_params(r, w)
    g = c22.Guard(r, w, bool(r.random() < 0.3))
    tmp = tempfile.mkdtemp()
    names = [k for k in ops.OPS if k not in ops.PLOTS or r.random() < 0.15]
    pool = [str(v) for v in r.choice(names, 5, replace=False)]
    want = {k: tell(lambda: ops.OPS[k]({q: v.copy() for q, v in w.items()}, p)) for k in pool}
    reset()
    done = []
    gauges = c22.Gauges(g.world)
    for _ in range(10):
        k = str(r.choice(pool))
        kind = Library if r.random() < 0.35 else Tracer
        cnt = kind()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cnt.run(lambda: ops.OPS[k]({q: v.copy() for q, v in w.items()}, p))
        except Exception:  # noqa: BLE001
            pass
        reset()
        if not cnt.n:
            continue
        tr = kind(int(r.integers(1, cnt.n + 1)) if r.random() < 0.7 else int(min(cnt.n, r.integers(1, 30))))
        watch = Watch(c, g, tmp, k in ops.RANDOM, gauges)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exc = watch("interrupted " + k, lambda: tr.run(lambda: ops.OPS[k]({**g.world, "_gauges": gauges.list}, p)))
        if not isinstance(exc, Interrupted):
            continue
        done.append(f"{k} at {tr.where}")
        c.tag("interrupted at " + tr.where)
        for q in [k] + [str(v) for v in r.choice(pool, 2)]:
            got = tell(lambda: ops.OPS[q]({a: v.copy() for a, v in w.items()}, p))
            reset()
            c.count("later answers as if the interrupted call had not been made")
            d = c35.differs(got, want[q], 1e-12)
            if d:
                c.fail("later answers as if the interrupted call had not been made", f"{q} after {done[-3:]}: {d}")
    if len(done) >= 3:
        c.nontrivial(w["x"], w["S"], " ".join(done))


@aside
def w_lists(c):
    """Lists of series that cannot be decomposed: the list, its series and later decompositions stay as they were."""
    r = c.rng
    w, _ = ops.make_world(r, lo=16, hi=150)
    w = level(r, w)
    p = ops.make_params(r, w)
    g = c22.Guard(r, w, bool(r.random() < 0.3))
    n, k = w["X"].shape
    sound = c22.Gauges(g.world)
    want = tell(lambda: ops.OPS["decompose_series"]({q: v.copy() for q, v in w.items()}, p))
    D = W.decomp.decompose_linear_ZS_series
    done = []
    watch = None
    for _ in range(10):
        how = str(r.choice(["one short", "one long", "too few", "too many", "not a series", "positions back", "positions coincide", "weights out of range", "weights too small",
                            "depth", "limit", "None in it", "positions text"]))
        bad = c22.Gauges(g.world)
        i = int(r.integers(k))
        loc, wl, h, more = np.array(w["xloc"]), np.array(w["wloc"]), p["depth"], ()
        if how in ("one short", "one long"):
            m = max(4, n // 2) if how == "one short" else n + int(r.integers(1, 20))
            dt = float(w["t"][1] - w["t"][0])
            bad.list[i] = W.Series(w["t"][0] + dt * np.arange(m), r.standard_normal(m))
        elif how == "too few":
            bad.list.pop(i)
        elif how == "too many":
            bad.list.insert(i, W.Series(w["t"].copy(), w["x"].copy()))
        elif how in ("not a series", "None in it"):
            bad.list[i] = None if how == "None in it" else "series"
        elif how.startswith("positions"):
            loc = {"positions back": loc[::-1].copy(), "positions coincide": np.where(np.arange(k) == 1, loc[0], loc), "positions text": ["a"] * k}[how]
        elif how.startswith("weights"):
            wl = wl * (1.5 if "out" in how else 0.4 / k)
        elif how == "depth":
            h = "deep"
        else:
            more = ("small",)
        items = list(bad.list)
        bad.was = [(s, s.time, s.xTime, digest(s.time, s.xTime), sorted(vars(s))) for s in items if isinstance(s, W.Series)]
        whole = [id(s) for s in items]
        watch = Watch(c, g, "/nonexistent")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exc = watch("decompose_linear_ZS_series with " + how, lambda: D(bad.list, h, loc, wl, *more))
        if exc is None:
            continue
        done.append(how)
        c.tag("list: " + how)
        c.count("inputs unchanged by a failed call")
        if [id(s) for s in bad.list] != whole:
            c.fail("inputs unchanged by a failed call", f"the list of series changed ({how})")
        for s, t, x, d, names in bad.was:
            if digest(s.time, s.xTime) != d or any(q not in vars(s) for q in names):
                c.fail("inputs unchanged by a failed call", f"a series of the list changed ({how})")
        got = tell(lambda: D(sound.list, p["depth"], w["xloc"], w["wloc"]))
        c.count("later answers as if the failed call had not been made")
        d = c35.differs(got, want, 1e-12)
        if d:
            c.fail("later answers as if the failed call had not been made", f"decomposition after {done[-3:]}: {d}")
    sound.check(c, "later decompositions", "inputs unchanged by a failed call")
    if len(done) >= 3:
        c.nontrivial(w["X"], " ".join(done))


@aside
def w_mismatched(c):
    """Heights and periods that do not belong together: whatever is refused leaves them as they were."""
    import matplotlib.pyplot as plt
    r = c.rng
    w, _ = ops.make_world(r, lo=16, hi=120)
    h, t = w["hu"], w["tu"]
    n = len(h)
    how = str(r.choice(["periods short", "heights short", "matrix heights", "matrix periods", "no periods", "nested"]))
    k = int(r.integers(1, max(n, 2)))
    hh, tt = {"periods short": (h, t[:k]), "heights short": (h[:k], np.concatenate([t, t])), "matrix heights": (np.stack([h, h[::-1]], axis=1), t),
              "matrix periods": (h, np.stack([t, t], axis=1)), "no periods": (h, np.empty(0)),
              "nested": (np.stack([h, h]), np.stack([t, t]))}[how]
    c.tag(how)
    o, exc, _ = c.observe(W.WaveHeights, hh.copy(), tt.copy())
    if exc is not None:
        return
    before = {q: np.array(v) if isinstance(v, np.ndarray) else v for q, v in vars(o).items()}
    done = []
    calls = {"sort": lambda: o.sort(), "Hs": lambda: o.get_Hs(), "highest": lambda: o.highest_waves(0.5), "exceedance": lambda: o.get_exceedance_waveheight(10.0),
             "H2p": lambda: o.get_H2p_Rayleigh(), "plot": lambda: o.plot_exceedance_waveheight(), "Rayleigh": lambda: o.plot_exceedance_waveheight_Rayleigh(),
             "normalised": lambda: o.plot_exceedance_waveheight_Rayleigh(normalize=True)}
    watch = Watch(c, c22.Guard(r, w, False), tempfile.mkdtemp())
    for _ in range(5):
        q = str(r.choice([v for v in calls if "plot" not in v and v not in ("Rayleigh", "normalised") or r.random() < 0.2]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exc = watch("mismatched " + q, calls[q])
        plt.close("all")
        if exc is None:
            return  # accepted: what it does then is not judged here
        done.append(q)
        after = vars(o)
        c.count("later answers as if the failed call had not been made")
        for v in before:
            if v in after and not (np.array_equal(before[v], after[v]) if isinstance(before[v], np.ndarray) else before[v] == after[v]):
                c.fail("later answers as if the failed call had not been made", f"{v} changed by {done} ({how})")
    c.nontrivial(h, t, how, " ".join(done))


WORKLOADS = {"lists": (w_lists, 300, 2500), "mismatched": (w_mismatched, 300, 2000), "arguments": (w_arguments, 900, 6000), "strict": (w_strict, 450, 3000), "core": (w_core, 900, 6000), "interrupt": (w_interrupt, 500, 4000),
             "far": (gens.far(w_mismatched, 21000), 16, 160), "far_core": (gens.far(w_core, 21000), 16, 100), "far_arguments": (gens.far(w_arguments, 21000), 9, 72)}
REQUIRED = {"failed calls": 6000, "later answers as if the failed call had not been made": 20000, "global state unchanged by a failed call": 50000,
            "inputs unchanged by a failed call": 50000, "later answers as if the interrupted call had not been made": 5000}
