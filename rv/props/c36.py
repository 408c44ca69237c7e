"""C36: analyses retain nothing and need memory in proportion to their data.

The monitor is the interpreter's own allocation tracer (numpy's buffers included), weak references to the
objects made, and the process tables (open files, threads, figures), read between calls.
"""
import gc
import os
import tempfile
import threading
import time
import tracemalloc
import warnings
import weakref

import numpy as np

from rv import gens, ops
from rv.core import cpu_budget
from rv.target import W

PROP = "C36"
RULE = ("every operation of rv.ops called hundreds of times, each time on other data of the same size, everything it returned "
        "dropped: memory in use after the second half against after the first; the same on one object; the peak of one call "
        "for data of 4 times the size; what is retained after calls on large data; open files, threads and figures around every call; non-trivial: the calls returned")
ASSUMPTIONS = [
    "saving to a file fills matplotlib's own fixed-size caches of fonts and texts: there only figures and handles count",
    "caches of a fixed number of entries (up to a few thousand small ones) are not called retention",
    "pyplot keeps a figure open until the caller closes it; the caller closes what he was given",
]
AXES = ["t", "f", "fq", "w", "tc", "ts", "tu", "xloc"]
NAMES = list(ops.OPS)
EXTRA = {"redo waves": lambda w, p: w["_series"]._determine_individual_waves(p["cross"], minimum_wave=p["minimum"])}
OBJECT = [k for k in NAMES if "." in k and "individual" not in k]  # asked of one object again and again
OBJECT += list(EXTRA)
# (operation, all calls on one object, into a file)
JOBS = [(k, False, False) for k in NAMES] + [(k, True, False) for k in OBJECT] + [(k, s, True) for k in ops.PLOTS for s in (False, True)]


def other(w, i, axes):
    """The i-th sibling of a world: other contents, same sizes, same order."""
    s = 1 + 1e-3 * i
    return {k: v * (s if (k in AXES) == axes and k != "wloc" else 1.0) for k, v in w.items()}


def vary(p, i):
    """The i-th variant of the parameters: every question a little different."""
    s = 1 + 1e-4 * i
    q = {**p, **{k: p[k] * s for k in ("hm0", "fp", "gamma", "depth", "perc", "frac", "flow", "fhigh", "fmin", "fmax", "dfd", "dtg", "cot") if k in p}}
    q["perc"], q["frac"] = min(q["perc"], 100.0), min(q["frac"], 1.0)
    q["cot"] = min(q["cot"], max(p["cot"], 250.0))
    q["seed"] = p["seed"] + i
    q["minimum"] = 1e-4 * i
    return q


def handles():
    """Open files (those matplotlib keeps for its fonts apart) and threads."""
    out = []
    for k in os.listdir("/proc/self/fd"):
        try:
            q = os.readlink("/proc/self/fd/" + k)
        except OSError:
            continue  # the listing itself
        if not q.lower().endswith((".ttf", ".otf", ".afm", ".pfb")) and not q.startswith("/proc/"):
            out.append(q)
    return sorted(out), threading.active_count()


def figures():
    import matplotlib.pyplot as plt
    return plt.get_fignums()


def one(name, w, p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with cpu_budget():
                return True, (ops.OPS.get(name) or EXTRA[name])(w, p)
        except Exception:  # noqa: BLE001
            return False, None


def used_now():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def w_growth(c):
    """Many calls on many data sets."""
    import matplotlib.pyplot as plt
    r = c.rng
    name, same, save = JOBS[c.idx % len(JOBS)]
    plot = name in ops.PLOTS
    slow = name == "BattjesGroenendijk"
    rounds = 30 if slow else 40 if plot else 300
    lo = 24 if name.startswith("decompose") else 1000 if plot else 150
    w, _ = ops.make_world(r, lo=lo, hi=2 * lo)
    if plot:
        w["hu"] = np.resize(w["hu"], 1500) * r.uniform(0.9, 1.1, 1500)
        w["tu"] = np.resize(w["tu"], 1500)
    p = ops.make_params(r, w)
    axes = bool(r.random() < 0.3)
    c.tag("axes change" if axes else "values change")
    if save:  # into one file, again and again
        p["save"] = {"savepath": os.path.join(tempfile.mkdtemp(), "a.png")}
        c.tag("saved")
    live = {}
    if same:  # one object asked again and again
        live = {"_series": W.Series(w["t"], w["x"]), "_spectrum": W.Spectrum(w["f"], w["S"]), "_heights": W.WaveHeights(w["hu"], w["tu"])}
        c.tag("one object asked again and again")
    size = int(min(v.nbytes for k, v in w.items() if k in ("x", "S")))
    refs = weakref.WeakSet()
    h0, f0 = handles(), figures()
    made = ok = 0

    def calls(i0, i1):
        nonlocal made, ok
        for i in range(i0, i1):
            wi = {**other(w, i, axes), **live}
            if not same and "." in name:  # an object of its own for every call
                k = {"Series": "_series", "Spectrum": "_spectrum", "WaveHeights": "_heights"}[name.split(".")[0]]
                wi[k] = W.Series(wi["t"], wi["x"]) if k == "_series" else W.Spectrum(wi["f"], wi["S"]) if k == "_spectrum" else W.WaveHeights(wi["hu"], wi["tu"])
                refs.add(wi[k])
                made += 1
            good, res = one(name, wi, vary(p, i))
            ok += good
            for o in (res if isinstance(res, (tuple, list)) else [res]):
                if isinstance(o, (W.WaveHeights, W.Spectrum)):
                    refs.add(o)
                    made += 1
            if plot and good:
                c.count("a plot leaves open the figure it returns and no other")
                new = [n for n in figures() if n not in f0]
                if new != [res.number]:
                    c.fail("a plot leaves open the figure it returns and no other", f"{name}: {len(new)} new figures")
                plt.close(res)
            o = res = wi = None
        c.n_events += i1 - i0
        c.calls[name] = c.calls.get(name, 0) + i1 - i0
        return used_now()
    tracemalloc.start()
    try:
        half = rounds // 2
        n = rounds - half
        m0 = calls(0, half)
        m1 = calls(half, rounds)
        grown = m1 - m0
        c.events.append({"call": name, "rounds": rounds, "bytes after the first half": m0, "growth in the second half": grown, "bytes of one input": size})
        if plot or slow:
            bad = grown > (60000 if "save" in p else 3000 if plot else 500) * n + 12000
        else:
            # more than the noise: go on until it stalls (a cache has filled up) or does not
            t0, done = time.process_time(), rounds
            while grown > 4 * n + 1500 and done < 5000 and time.process_time() - t0 < 8:
                n = min(2 * n, 5000 - done)
                m0, m1 = m1, calls(done, done + n)
                done += n
                grown = m1 - m0
                c.events.append({"call": name, "rounds": done, "further growth": grown})
                c.tag("looked longer")
            bad = grown > 4 * n + 1500
    finally:
        tracemalloc.stop()
    c.note["max growth (bytes per call)"] = max(c.note.get("max growth (bytes per call)", 0), grown / n)
    c.expect(not bad, "memory does not grow with the number of analyses", lambda: f"{name}{' on one object' if same else ''}: {grown} bytes in {n} calls (inputs of {size} bytes)")
    gc.collect()
    alive = len(refs)
    c.expect(alive <= (0.9 * made if plot else 140), "dropped objects are freed", f"{name}: {alive} of {made}")
    c.expect(handles() == h0, "no files or threads left open", f"{name}: {handles()} before {h0}")
    c.expect(figures() == f0, "no figures left open", f"{name}: {figures()}")
    c.expect(not gc.garbage, "dropped objects are freed", "uncollectable")
    if ok > rounds // 2:
        c.nontrivial(w["x"], w["S"], name)
    else:
        c.tag("raises: " + name)


def w_large(c):
    """A few calls on records of thousands of samples: nothing the size of the data stays behind."""
    import matplotlib.pyplot as plt
    r = c.rng
    name = NAMES[c.idx % len(NAMES)]
    if name == "BattjesGroenendijk":
        c.tag("no data")
        return
    lo = 4200 if "decompose" in name else 5000
    w = big(r, int(r.integers(lo, lo + 1200)), int(r.integers(1000)))
    p = ops.make_params(r, w)
    p.update(depth=5.0, tdur=60.0, dtg=0.5, nperseg=1024, noverlap=512)
    axes = bool(c.idx // len(NAMES) % 2)
    size = int(min(v.nbytes for k, v in w.items() if k in ("x", "S")))
    rounds = 6 if "decompose" in name else 10
    f0 = figures()

    def calls(i0, i1):
        ok = 0
        for i in range(i0, i1):
            good, res = one(name, other(w, i, axes), vary(p, i))
            ok += good
            del res
            if name in ops.PLOTS:
                plt.close("all")
        c.n_events += i1 - i0
        c.calls[name] = c.calls.get(name, 0) + i1 - i0
        return used_now(), ok
    tracemalloc.start()
    try:
        m0, _ = calls(0, rounds // 2)
        m1, ok = calls(rounds // 2, rounds)
        n = rounds - rounds // 2
        if m1 - m0 > 0.4 * size * n:  # a cache that has not filled up yet, or a leak
            m0 = m1
            n = 4 * rounds
            m1, ok = calls(rounds, rounds + n)
            c.tag("looked longer")
    finally:
        tracemalloc.stop()
    c.events.append({"call": name, "growth": m1 - m0, "calls": n, "bytes of one input": size})
    c.expect(m1 - m0 <= 0.4 * size * n, "memory does not grow with the amount of data", f"{name}: {m1 - m0} bytes in {n} calls on inputs of {size} bytes")
    c.expect(figures() == f0, "no figures left open", f"{name}: {figures()}")
    if ok:
        c.nontrivial(w["x"][:5], name, size)
    else:
        c.tag("raises: " + name)


def peak(name, w, p, rep=2):
    best = None
    for _ in range(rep):
        gc.collect()
        tracemalloc.start()
        try:
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            good, res = one(name, w, p)
            top = tracemalloc.get_traced_memory()[1] - base
            del res
        finally:
            tracemalloc.stop()
            import matplotlib.pyplot as plt
            plt.close("all")
        best = top if best is None else min(best, top)
    return good, best


def big(r, n, seed):
    """A world in which every array has about n entries."""
    g = np.random.default_rng(seed)
    dt = 0.25
    t = np.arange(n) * dt
    x = g.standard_normal(n)
    x = np.convolve(x, np.ones(3) / 3, "same") if seed % 2 else x
    x2 = g.standard_normal(n)
    m = n
    f = 0.5 * np.arange(1, m + 1) / m
    S = np.exp(-((f - 0.1) / 0.05) ** 2) + 1e-3 * g.random(m) + 1e-4
    h = np.abs(g.standard_normal(n)) + 0.01
    tu = g.uniform(2, 9, n)
    o = np.argsort(-h)
    k = n // 2 + 1
    from rv import refs
    return {"t": t, "x": x, "x2": x2, "X": np.stack([x, x2], axis=1), "f": f, "S": S, "fq": np.arange(k) / (n * dt), "Xq": np.fft.rfft(x), "Xq2": np.fft.rfft(x2),
            "Xfull": np.fft.fft(x), "hu": h, "tu": tu, "hs": h[o], "ts": tu[o], "w": 2 * np.pi * f, "xloc": np.array([0.0, 1.0]), "wloc": np.ones(2),
            "tc": refs.crossings(t, x, "down")[1]}


def w_peak(c):
    """The peak of one call for n and 4 n samples."""
    r = c.rng
    name = NAMES[c.idx % len(NAMES)]
    seed = int(r.integers(1000))
    n = int(r.choice([2048, 3000]))
    ratio, out = 4, []
    for k in (n, ratio * n):
        w = big(r, k, seed)
        p = {"dt": 0.25, "odd": bool(k % 2), "n": k, "dfd": 2.0, "flow": 0.05, "fhigh": 0.3, "fmin": 0.05, "fmax": 0.3, "seed": 3, "cross": "down", "frac": 0.3, "perc": 10.0,
             "nperseg": k // 4, "noverlap": k // 8, "win": "hann", "m": 1, "fp": 0.1, "hm0": 1.0, "gamma": 3.3, "l_fmax": 0, "depth": 5.0, "cot": 50.0, "nw": k,
             "tdur": 60.0, "dtg": k / 60 * 0.9, "t0": 0.0}
        p["dtg"] = 0.5
        good, top = peak(name, w, p, 1 if "decompose" in name else 2)
        if not good:
            c.tag("raises: " + name)
            return
        size = sum(v.nbytes for v in w.values())
        out.append((top, size))
    (a, sa), (b, sb) = out
    c.n_events += 2
    c.calls[name] = c.calls.get(name, 0) + 2
    c.events.append({"call": name, "peak bytes": [a, b], "input bytes": [sa, sb]})
    c.expect(b <= 6.5 * a + 2_000_000, "peak memory grows no faster than the data", f"{name}: {a} bytes for {n}, {b} for {ratio * n} samples")
    c.nontrivial(name, n, seed)


WORKLOADS = {"growth": (w_growth, len(JOBS), 4 * len(JOBS)), "peak": (w_peak, len(NAMES), 4 * len(NAMES)),
             "large": (w_large, len(NAMES), 2 * len(NAMES))}
REQUIRED = {"memory does not grow with the number of analyses": 120, "peak memory grows no faster than the data": 60,
            "memory does not grow with the amount of data": 50}
