"""C35: every way of asking gives the same answer.

One question can be put to the package in several ways: by position or by keyword, with an optional argument
given or left out, to an object or to the functions below it, through the package or through its module,
with or without a directional distribution.  The monitor records the answers of all ways and compares them.
"""
import inspect

import numpy as np

from rv import gens, ops
from rv.target import PKG, W

PROP = "C35"
RULE = ("random records, spectra, wave lists and gauge arrays from rv.ops; per case every public function is called with random "
        "splits of its arguments over positions and keywords and random subsets of the default-valued ones left out, every "
        "method is compared with the core functions it stands for, names of the package with names of its modules; "
        "non-trivial: a case in which at least 12 different ways were compared")
ASSUMPTIONS = [
    "the documented signature (order and defaults) is that of the released package, written down in SPEC; additional optional arguments are allowed",
    "numbers agree when they differ by at most 1e-9 of the largest of their array",
]
REQ = inspect.Parameter.empty
# name -> (where, ordered (parameter, documented default))
SPEC = {
    "engine.approx_array_index": [("array", REQ), ("user_value", REQ)],
    "engine.monotonic_increasing_constant_step": [("x", REQ)],
    "engine.convert_to_vector": [("x", REQ)],
    "engine.convert_to_array_type": [("x", REQ)],
    "engine.is1darray": [("x", REQ)],
    "spectral.frequency_averaging": [("f", REQ), ("sVarDens", REQ), ("dfDesired", 0.0)],
    "spectral.unfold_spectrum": [("f", REQ), ("xFreq", REQ), ("isOdd", REQ)],
    "spectral.coherence": [("f", REQ), ("xFreq1", REQ), ("xFreq2", REQ), ("dfDesired", 0.0)],
    "spectral.freq2time": [("xFreq", REQ)],
    "spectral.time2freq": [("t", REQ), ("xTime", REQ)],
    "spectral.time2freq_nyquist": [("t", REQ), ("xTime", REQ)],
    "spectral.compute_spectrum_time_series": [("t", REQ), ("xTime", REQ), ("dfDesired", 0.0)],
    "spectral.compute_spectrum_freq_series": [("f", REQ), ("xFreq", REQ), ("Ntime", REQ), ("dfDesired", 0.0)],
    "spectral.spectrum2timeseries": [("f", REQ), ("sVarDens", REQ), ("tInit", REQ), ("tEnd", REQ), ("dt", REQ), ("seed", -1)],
    "spectral.spectrum2timeseries_object": [("f", REQ), ("sVarDens", REQ), ("tInit", REQ), ("tEnd", REQ), ("dt", REQ), ("seed", -1)],
    "spectral.compute_spectrum_welch_wrapper": [("xTime", REQ), ("dt", REQ), ("nperseg", 0), ("noverlap", 0), ("nfft", 0), ("window_type", "hann")],
    "spectral.applybandfilter": [("f", REQ), ("xFreq", REQ), ("flow", REQ), ("fhigh", REQ)],
    "spectral.bandpassfilter": [("t", REQ), ("xTime", REQ), ("flow", REQ), ("fhigh", REQ)],
    "time.sort_wave_params": [("hWave", REQ), ("tWave", REQ)],
    "time.determine_zero_crossing": [("t", REQ), ("xTime", REQ), ("typeCross", "down")],
    "time.highest_waves_params": [("hWaveSorted", REQ), ("tWaveSorted", REQ), ("fracP", REQ)],
    "time.exceedance_wave_height": [("hWaveSorted", REQ), ("excPerc", REQ)],
    "time.determine_params_individual_waves": [("tCross", REQ), ("t", REQ), ("xTime", REQ)],
    "wavef.compute_spectrum_params": [("f", REQ), ("sVarDens", REQ), ("fmin", -1.0), ("fmax", -1.0)],
    "wavef.compute_moment": [("f", REQ), ("sVarDens", REQ), ("m", REQ), ("fmin", -1.0), ("fmax", -1.0)],
    "wavef.create_spectrum_jonswap": [("f", REQ), ("fp", REQ), ("hm0", REQ), ("gammaPeak", 3.3), ("l_fmax", 0.0)],
    "wavef.create_spectrum_object_jonswap": [("f", REQ), ("fp", REQ), ("hm0", REQ), ("gammaPeak", 3.3), ("l_fmax", 0.0)],
    "wavef.create_spectrum_piersonmoskowitz": [("f", REQ), ("fp", REQ), ("hm0", REQ), ("gammaPeak", 1.0), ("l_fmax", 0.0)],
    "wavef.create_spectrum_object_piersonmoskowitz": [("f", REQ), ("fp", REQ), ("hm0", REQ), ("gammaPeak", 1.0), ("l_fmax", 0)],
    "wavef.tpd": [("f", REQ), ("sVarDens", REQ)],
    "wavef.compute_tps": [("f", REQ), ("sVarDens", REQ)],
    "wavef.compute_BattjesGroenendijk_wave_height_distribution": [("hm0", REQ), ("nwave", REQ), ("water_depth", REQ), ("cota_slope", 250.0), ("tolerance", 1e-5)],
    "disp.disper": [("w", REQ), ("h", REQ), ("g", 9.81)],
    "decomp.decompose_linear_ZS": [("t", REQ), ("xTime", REQ), ("h", REQ), ("x_loc", REQ), ("w_loc", REQ), ("detLim", 0.125)],
    "decomp.decompose_linear_ZS_series": [("Series_objects", REQ), ("h", REQ), ("x_loc", REQ), ("w_loc", REQ), ("detLim", 0.125)],
    "WaveHeights": [("hwave", REQ), ("twave", REQ)],
    "Series": [("time", REQ), ("xTime", REQ)],
    "Spectrum": [("f", REQ), ("sVarDens", REQ), ("D", None)],
    "heights.get_exceedance_waveheight": [("excPerc", REQ)],
    "heights.highest_waves": [("fracP", REQ)],
    "series.get_exceedance_waveheight": [("excPerc", REQ)],
    "series.highest_waves": [("fracP", REQ)],
    "series.get_crossing": [("typeCross", "down")],
    "series.get_spectrum": [("nperseg", 256), ("noverlap", 0), ("nfft", 0), ("windows_type", "hann"), ("dfDesired", 0.01), ("use_dfDesired", True)],
    "series.get_spectrum_raw": [("dfDesired", 0.01)],
    "series.get_bandpassfilter": [("fmin", REQ), ("fmax", REQ)],
    "series._determine_individual_waves": [("typeCross", "down"), ("fcutoff", 0), ("minimum_wave", 0)],
    "spectrum.create_series": [("tstart", REQ), ("tend", REQ), ("dt", REQ)],
    "plot:heights.plot_exceedance_waveheight": [("savepath", "")],
    "plot:heights.plot_hist_waveheight": [("savepath", "")],
    "plot:heights.plot_exceedance_waveheight_Rayleigh": [("savepath", ""), ("normalize", False), ("plot_BG", False), ("water_depth", -1.0), ("cota_slope", 250.0), ("hm0", -1.0)],
    "plot:series.plot": [("savepath", ""), ("plot_crossing", False)],
    "plot:spectrum.plot": [("savepath", ""), ("plot_periods", True), ("xlim", -999.0), ("xlabel", "f [$Hz$]"), ("ylabel", "S [$m^2/Hz$]")],
}
for _k in ("get_Hm0", "get_Hm0_HF", "get_Hm0_LF", "get_Tps", "get_Tp", "get_Tmm10", "get_Tmm10_HF", "get_Tmm10_LF", "get_Tm01", "get_Tm02"):
    SPEC["spectrum." + _k] = [("fmin", -1.0), ("fmax", -1.0)]
for _k in ("get_s0p", "get_smm10", "get_smm10_HF"):
    SPEC["spectrum." + _k] = [("fmin", -1.0), ("fmax", -1.0), ("g", 9.81)]
NAMES = list(SPEC)
BANDED = [k for k in NAMES if k.startswith("spectrum.get_")]


def numbers(res):
    """Flattened result, figures included."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    if isinstance(res, Figure):
        out = []
        for ax in res.axes:
            for ln in ax.get_lines():
                out += [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), str(ln.get_label()), str(ln.get_linestyle()), str(ln.get_marker())]
            for p in ax.patches:
                out += [np.array([p.get_x(), p.get_width(), p.get_height()])]
            out += [ax.get_xlabel(), ax.get_ylabel(), np.array(ax.get_xlim()), np.array(ax.get_ylim()), ax.get_yscale()]
        plt.close(res)
        return out
    return ops.flatten(res)


def differs(a, b, rtol=1e-9):
    a, b = numbers(a) if not isinstance(a, list) else a, numbers(b) if not isinstance(b, list) else b
    if len(a) != len(b):
        return f"{len(a)} values against {len(b)}"
    for i, (u, v) in enumerate(zip(a, b)):
        if isinstance(u, str) or isinstance(v, str):
            if u != v:
                return f"{u!r} against {v!r}"
            continue
        u, v = np.asarray(u), np.asarray(v)
        if u.size == 0 and v.size == 0:
            continue
        if np.squeeze(u).shape != np.squeeze(v).shape:
            return f"value {i}: shape {u.shape} against {v.shape}"
        u, v = np.ravel(u), np.ravel(v)
        if u.dtype.kind == "b" or v.dtype.kind == "b":
            u, v = u.astype(float), v.astype(float)
        with np.errstate(all="ignore"):
            s = np.max(np.abs(np.where(np.isfinite(v), v, 0)))
            bad = ~((np.abs(u - v) <= rtol * s) | (u == v) | (np.isnan(u) & np.isnan(v)))
        if np.any(bad):
            j = int(np.argmax(bad))
            return f"value {i}, element {j}: {u[j]!r} against {v[j]!r}"
    return None


def values(r, w, p, name):
    """Non-default values of all parameters of name (required ones included)."""
    fr = float(p["dfd"] * (w["f"][1] - w["f"][0]))
    df = 1 / (p["n"] * p["dt"])
    base = name.split(".")[-1]
    v = {
        "array": w["f"], "user_value": p["fp"], "x": w["x"], "f": w["f"], "sVarDens": w["S"], "t": w["t"], "xTime": w["x"], "xFreq": w["Xq"],
        "xFreq1": w["Xq"], "xFreq2": w["Xq2"], "isOdd": p["odd"], "tInit": p["t0"], "tEnd": p["t0"] + 60 * p["dtg"], "dt": p["dt"],
        "seed": p["seed"], "nperseg": p["nperseg"], "noverlap": p["noverlap"], "nfft": int(p["nperseg"] + r.integers(0, 20)),
        "window_type": p["win"], "windows_type": p["win"], "flow": p["flow"], "fhigh": p["fhigh"], "hWave": w["hu"], "tWave": w["tu"],
        "hwave": w["hu"], "twave": w["tu"], "typeCross": p["cross"], "hWaveSorted": w["hs"], "tWaveSorted": w["ts"], "fracP": p["frac"],
        "excPerc": p["perc"], "tCross": w["tc"], "fmin": p["fmin"], "fmax": p["fmax"], "m": p["m"], "fp": p["fp"], "hm0": p["hm0"],
        "gammaPeak": p["gamma"], "l_fmax": p["l_fmax"], "nwave": p["nw"], "water_depth": float(p["hm0"] * r.uniform(1, 2)), "cota_slope": p["cot"],
        "tolerance": float(10 ** r.uniform(-5, -3)), "w": w["w"], "h": p["depth"], "g": float(r.uniform(9.7, 9.9)), "x_loc": w["xloc"],
        "w_loc": w["wloc"], "detLim": float(r.uniform(0.1, 0.8)), "time": w["t"], "dfDesired": fr, "Ntime": p["n"], "D": r.random((3, 4)),
        "use_dfDesired": bool(r.integers(2)), "fcutoff": float(p["flow"]), "minimum_wave": float(r.uniform(0, 0.5)), "tstart": p["t0"],
        "tend": p["t0"] + 60 * p["dtg"], "savepath": "", "normalize": bool(r.integers(2)), "plot_BG": bool(r.integers(2)),
        "plot_crossing": bool(r.integers(2)), "plot_periods": bool(r.integers(2)), "xlim": [0.0, float(w["f"][-1])], "xlabel": "freq", "ylabel": "dens",
        "Series_objects": None,
    }
    if r.random() < 0.2:
        v["seed"] = int(r.choice([0, 1, 2 ** 32 - 1]))
    if r.random() < 0.4:
        v["typeCross"] = spelled(r, p["cross"])
    if base in ("create_series", "spectrum2timeseries", "spectrum2timeseries_object"):
        v["dt"] = p["dtg"]
    if name.startswith("decomp"):
        v["xTime"] = w["X"]
        if name.endswith("series"):
            v["Series_objects"] = [W.Series(w["t"], w["X"][:, i]) for i in range(w["X"].shape[1])]
    if base == "freq2time":
        v["xFreq"] = w["Xfull"]
    if name in ("spectral.unfold_spectrum", "spectral.coherence", "spectral.compute_spectrum_freq_series", "spectral.applybandfilter"):
        v["f"] = w["fq"]
    if base in ("coherence", "compute_spectrum_freq_series", "compute_spectrum_time_series", "get_spectrum_raw"):
        v["dfDesired"] = float(p["dfd"] * df) or 2 * df
    if name == "series.get_spectrum":
        v["dfDesired"] = float(r.uniform(4 * df, 0.2 / p["dt"]))
    if base in ("get_Tps", "get_Tp", "get_s0p") or base == "compute_spectrum_params":
        v["fmax"] = min(p["fmax"], float(w["f"][-1]))
    return {k: v[k] for k, _ in SPEC[name]}


def spelled(r, kind):
    return str(r.choice([kind, kind.upper(), kind.capitalize(), kind[:-1] + kind[-1].upper()]))


def maker(name, w):
    """A function that makes the call on fresh objects, so that no earlier call matters."""
    if name in ("WaveHeights", "Series", "Spectrum"):
        cls = getattr(W, name)
        return lambda *a, **k: [getattr(cls(*a, **k), q) for q in
                                {"WaveHeights": ("hwave", "twave", "nwave"), "Series": ("time", "xTime", "hwave", "twave", "tCross", "nt", "dt", "nwave"),
                                 "Spectrum": ("f", "sVarDens", "nf", "spec")}[name]]
    owner, fn = name.split(":")[-1].split(".")
    new = {"heights": lambda: W.WaveHeights(w["hu"].copy(), w["tu"].copy()), "series": lambda: W.Series(w["t"].copy(), w["x"].copy()),
           "spectrum": lambda: W.Spectrum(w["f"].copy(), w["S"].copy())}.get(owner)
    if new is None:
        return getattr(getattr(W, owner), fn)
    if fn == "create_series":  # phases are random: the times and amplitudes are what must agree
        return lambda *a, **k: amplitudes(new().create_series(*a, **k))
    return lambda *a, **k: getattr(new(), fn)(*a, **k)


def amplitudes(s):
    t, x = (s.time, s.xTime) if isinstance(s, W.Series) else s
    return (t, np.abs(np.fft.rfft(x))[1:-1]) if len(x) % 2 == 0 else t  # an odd record is one sample short of its period


def world(c):
    w, tags = ops.make_world(c.rng, lo=20, hi=300)
    for q in tags:
        c.tag(q)
    return w, ops.make_params(c.rng, w)


def w_calling(c):
    """Positions, keywords and omitted defaults."""
    r = c.rng
    w, p = world(c)
    names = [k for k in NAMES if not k.startswith("plot:")]
    todo = [str(k) for k in r.choice(names, 24, replace=False)]
    if r.random() < 0.25:
        todo.append(str(r.choice([k for k in NAMES if k.startswith("plot:")])))
    ways = 0
    for name in todo:
        spec, fn = SPEC[name], maker(name, w)
        full = values(r, w, p, name)
        opt = [k for k, d in spec if d is not REQ and d is not None]
        mode = str(r.choice(["defaults", "mixed", "given"])) if opt else "given"
        if mode != "given":
            for k, d in spec:
                if k in opt and (mode == "defaults" or r.random() < 0.5):
                    full[k] = d
            if full.get("seed") == -1:  # random phases
                fn = (lambda g: lambda *a, **k: amplitudes(g(*a, **k)))(fn)
            if name == "series.get_spectrum_raw" and full["dfDesired"] == 0.01 and 0.01 * p["n"] * p["dt"] > p["n"] // 2:
                full["dfDesired"] = 0.0
        if "D" in full and r.random() < 0.5:
            del full["D"]
        if full.get("plot_BG") and -1.0 in (full["hm0"], full["water_depth"]):  # the two that go with it
            full["plot_BG"] = False
        if name == "series._determine_individual_waves" and r.random() < 0.7 and mode != "defaults":
            full["fcutoff"] = 0 if r.random() < 0.5 else full["fcutoff"]
        order = [k for k, _ in spec if k in full]
        ref, exc, _ = c.observe(fn, **full)
        c.tag("mode " + mode)
        if exc is not None:
            c.tag("raises: " + name)
        want = numbers(ref) if exc is None else None
        for _ in range(3):
            npos = int(r.integers(0, len(order) + 1))
            pos, kw = order[:npos], order[npos:]
            r.shuffle(kw)
            given = [k for k in kw if not (k in opt and type(full[k]) is type(dict(spec)[k]) and full[k] == dict(spec)[k] and r.random() < 0.7)]
            # trailing positional defaults may be left out too
            while npos == len(order) and pos and pos[-1] in opt and full[pos[-1]] == dict(spec)[pos[-1]] and r.random() < 0.5:
                pos = pos[:-1]
            got, exc2, _ = c.observe(fn, *[full[k] for k in pos], **{k: full[k] for k in given})
            ways += 1
            what = f"{name}({', '.join(pos)}; {', '.join(given)}) against all by keyword"
            c.count("same answer by position, keyword and default")
            if left := set(order) - set(pos) - set(given):
                c.tag("left out: " + name)
                what += f", left out {sorted(left)}"
            if (exc is None) != (exc2 is None):
                c.fail("same answer by position, keyword and default", f"{what}: {exc2 or 'no error'} against {exc or 'no error'}")
            if exc is None:
                d = differs(got, want)
                if d:
                    c.fail("same answer by position, keyword and default", f"{what}: {d}")
    if ways >= 12:
        c.nontrivial(w["x"], w["S"], " ".join(todo))


def w_methods(c):
    """An object answers what the functions below it answer."""
    r = c.rng
    w, p = world(c)
    t, x, f, S = w["t"], w["x"], w["f"], w["S"]
    n = 0

    def eq(what, a, b, rtol=1e-9):
        nonlocal n
        n += 1
        c.count("objects answer like the core functions")
        d = differs(numbers(a), numbers(b), rtol)
        if d:
            c.fail("objects answer like the core functions", f"{what}: {d}")
    s = c.call(W.Series, t, x)
    k = p["cross"] if r.random() < 0.6 else spelled(r, p["cross"])
    eq("spelling of the kind of crossing", c.call(s.get_crossing, k), c.call(s.get_crossing, k.lower()))
    eq("get_crossing", c.call(s.get_crossing, k), c.call(W.time.determine_zero_crossing, t, x, k))
    tc = c.call(W.time.determine_zero_crossing, t, x, "down")[1]
    own = c.call(W.time.determine_params_individual_waves, tc, t, x)
    eq("waves of a Series", (s.hwave, s.twave), own[:2])
    tk = c.call(W.time.determine_zero_crossing, t, x, k)[1]
    eq("_determine_individual_waves", c.call(c.call(W.Series, t, x)._determine_individual_waves, k)[:6], c.call(W.time.determine_params_individual_waves, tk, t, x))
    hs, ts = c.call(W.time.sort_wave_params, own[0], own[1])
    wh = c.call(W.WaveHeights, own[0], own[1])
    if len(hs):
        for o, who in ((s, "Series"), (wh, "WaveHeights")):
            eq(who + ".highest_waves", c.call(o.highest_waves, p["frac"]), c.call(W.time.highest_waves_params, hs, ts, p["frac"]))
            eq(who + ".get_Hs", c.call(o.get_Hs), c.call(W.time.highest_waves_params, hs, ts, 1 / 3))
            eq(who + ".get_exceedance_waveheight", c.call(o.get_exceedance_waveheight, p["perc"]), c.call(W.time.exceedance_wave_height, hs, p["perc"]))
        for q in ("get_Hmax", "get_Hrms", "get_H2p_Rayleigh"):
            eq("Series and WaveHeights " + q, c.call(getattr(s, q)), c.call(getattr(wh, q)))
        if r.random() < 0.08:
            for q in ("plot_exceedance_waveheight", "plot_exceedance_waveheight_Rayleigh", "plot_hist_waveheight"):
                a, b = c.observe(getattr(s, q)), c.observe(getattr(wh, q))
                c.count("objects answer like the core functions")
                if (a[1] is None) != (b[1] is None) or a[1] is None and differs(numbers(a[0]), numbers(b[0]), 1e-9):
                    c.fail("objects answer like the core functions", f"{q} of a Series and of the WaveHeights of its waves")
        c.call(s.sort), c.call(wh.sort)
        eq("sort", (s.hwave, s.twave, wh.hwave, wh.twave), (hs, ts, hs, ts))
    df = p["dfd"] / (p["n"] * p["dt"])
    raw = c.call(s.get_spectrum_raw, df)
    eq("get_spectrum_raw", (raw.f, raw.sVarDens), c.call(W.spectral.compute_spectrum_time_series, t, x, df))
    fq, X, odd = c.call(W.spectral.time2freq_nyquist, t, x)
    eq("get_fourier_comp", c.call(s.get_fourier_comp), (fq, X, odd))
    eq("spectrum by way of the Fourier components", c.call(W.spectral.compute_spectrum_freq_series, fq, X, len(t), df), (raw.f, raw.sVarDens))
    ff, XX = c.call(W.spectral.time2freq, t, x)
    eq("unfolded half against the whole transform", c.call(W.spectral.unfold_spectrum, fq, X, odd)[1], XX, 1e-8)
    eq("freq2time of the unfolded half", c.call(W.spectral.freq2time, c.call(W.spectral.unfold_spectrum, fq, X, odd)[1]), x, 1e-8)
    b = c.call(s.get_bandpassfilter, p["flow"], p["fhigh"])
    eq("get_bandpassfilter", (b.time, b.xTime), (t, c.call(W.spectral.bandpassfilter, t, x, p["flow"], p["fhigh"])))
    xf = c.call(W.spectral.applybandfilter, fq, X, p["flow"], p["fhigh"])
    eq("filter by way of the Fourier components", c.call(W.spectral.freq2time, c.call(W.spectral.unfold_spectrum, fq, xf, odd)[1]), b.xTime, 1e-8)
    dt = float(np.mean(np.diff(t)))
    wl = c.call(s.get_spectrum, nperseg=p["nperseg"], noverlap=p["noverlap"], windows_type=p["win"], use_dfDesired=False)
    eq("get_spectrum", (wl.f, wl.sVarDens), c.call(W.spectral.compute_spectrum_welch_wrapper, x, dt, p["nperseg"], p["noverlap"], 0, p["win"]))
    eq("max, min, mean, var", [c.call(getattr(s, q)) for q in ("max", "min", "mean", "var")], [x.max(), x.min(), x.mean(), x.var()])
    # spectra
    D = np.ones((len(f), 4)) if r.random() < 0.5 else None
    sp = c.call(W.Spectrum, f, S) if D is None else c.call(W.Spectrum, f, S, D)
    c.tag("without D" if D is None else "with D")
    lim = () if r.random() < 0.4 else (p["fmin"], p["fmax"])
    a, e = lim or (f[0], f[-1])
    m = {q: c.call(W.wavef.compute_moment, f, S, q, a, e) for q in (-1, 0, 1, 2)}
    if min(m.values()) > 0:
        eq("get_Hm0", c.call(sp.get_Hm0, *lim), 4 * np.sqrt(m[0]))
        eq("get_Tmm10", c.call(sp.get_Tmm10, *lim), m[-1] / m[0])
        eq("get_Tm01", c.call(sp.get_Tm01, *lim), m[0] / m[1])
        eq("get_Tm02", c.call(sp.get_Tm02, *lim), np.sqrt(m[0] / m[2]))
    e2 = min(e, f[-1])
    tp, tps = c.call(sp.get_Tp, a, e2), c.call(sp.get_Tps, a, e2)
    if 4 * np.sqrt(m[0]) > 2e-6:
        if e2 == e:
            eq("compute_spectrum_params", c.call(W.wavef.compute_spectrum_params, f, S, a, e),
               (c.call(sp.get_Hm0, a, e), tp, tps, c.call(sp.get_Tmm10, a, e), c.call(sp.get_Tm01, a, e), c.call(sp.get_Tm02, a, e)))
        eq("get_s0p", c.call(sp.get_s0p, a, e2), 2 * np.pi * c.call(sp.get_Hm0, a, e2) / (9.81 * tps ** 2))
        eq("get_smm10", c.call(sp.get_smm10, a, e), 2 * np.pi * c.call(sp.get_Hm0, a, e) / (9.81 * c.call(sp.get_Tmm10, a, e) ** 2))
    band = (f >= a) & (f <= e2)
    if np.sum(band) >= 3:
        eq("get_Tps of a band", tps, c.call(W.wavef.compute_tps, f[band], S[band]))
    tg = (p["t0"], p["t0"] + 60 * p["dtg"], p["dtg"], p["seed"] if r.random() < 0.7 else int(r.choice([0, 1, 2 ** 32 - 1])))
    tt, xx = c.call(W.spectral.spectrum2timeseries, f, S, *tg)
    so = c.call(W.spectral.spectrum2timeseries_object, f, S, *tg)
    eq("spectrum2timeseries_object", (so.time, so.xTime), (tt, xx))
    # theoretical spectra
    arg = (f, p["fp"], p["hm0"], p["gamma"], p["l_fmax"])
    jo = c.call(W.wavef.create_spectrum_object_jonswap, *arg)
    js = c.call(W.wavef.create_spectrum_jonswap, *arg)
    eq("create_spectrum_object_jonswap", (jo.f, jo.sVarDens), (f, js))
    eq("jonswap and piersonmoskowitz of one peak factor", c.call(W.wavef.create_spectrum_piersonmoskowitz, *arg), js)
    po = c.call(W.wavef.create_spectrum_object_piersonmoskowitz, *arg)
    eq("create_spectrum_object_piersonmoskowitz", (po.f, po.sVarDens), (f, js))
    po = c.call(W.wavef.create_spectrum_object_piersonmoskowitz, *arg[:3], l_fmax=p["l_fmax"])
    eq("piersonmoskowitz is jonswap of factor 1", (po.f, po.sVarDens), (f, c.call(W.wavef.create_spectrum_jonswap, *arg[:3], 1.0, p["l_fmax"])))
    # decomposition
    g = [c.call(W.Series, t, w["X"][:, i]) for i in range(w["X"].shape[1])]
    dl = float(r.choice([0.125, r.uniform(0.01, 0.9)]))
    arr = c.call(W.decomp.decompose_linear_ZS, t, w["X"], p["depth"], w["xloc"], w["wloc"], dl)
    ser = c.call(W.decomp.decompose_linear_ZS_series, g, p["depth"], w["xloc"], w["wloc"], dl, raw=True)
    eq("decompose_linear_ZS_series", (ser[0].time, ser[0].xTime, ser[1].xTime), (t,) + tuple(arr))
    # the dispersion relation, one at a time or all together
    kk = c.call(W.disp.disper, w["w"], p["depth"])
    j = int(r.integers(0, len(kk)))
    one = c.call(W.disp.disper, float(w["w"][j]), p["depth"])
    eq("disper of one frequency", np.ravel(one), kk[j:j + 1])
    c.nontrivial(x, S)


def w_names(c):
    """The package and its modules hand out the same things, and objects of either fit together."""
    import importlib
    r = c.rng
    pk = W.pkg
    for nm, mod in (("core_engine", W.engine), ("core_spectral", W.spectral), ("core_time", W.time), ("core_wavefunctions", W.wavef),
                    ("core_dispersion", W.disp), ("core_wave_decomposition", W.decomp)):
        c.expect(getattr(pk, nm, None) is importlib.import_module(f"{PKG}.cores.{nm}") is mod, "package and modules are one", nm)
        c.expect(getattr(importlib.import_module(PKG + ".cores"), nm) is mod, "package and modules are one", "cores." + nm)
    for nm in ("Series", "WaveHeights", "Spectrum"):
        mods = [importlib.import_module(PKG + "." + m) for m in (("spectrum",) if nm == "Spectrum" else ("series",))]
        c.expect(all(getattr(m, nm) is getattr(pk, nm) for m in mods), "package and modules are one", nm)
    w, p = world(c)
    s = c.call(pk.Series, w["t"], w["x"])
    sp = c.call(pk.Spectrum, w["f"], w["S"])
    kinds = {
        "Series is a WaveHeights": (isinstance(s, pk.WaveHeights) and type(s) is pk.Series),
        "get_spectrum": type(c.call(s.get_spectrum, dfDesired=0.2 / p["dt"] / 4)) is pk.Spectrum,
        "get_spectrum_raw": type(c.call(s.get_spectrum_raw, 0.0)) is pk.Spectrum,
        "get_bandpassfilter": type(c.call(s.get_bandpassfilter, p["flow"], p["fhigh"])) is pk.Series,
        "create_series": type(c.call(sp.create_series, 0.0, 50 * p["dtg"], p["dtg"])) is pk.Series,
        "spectrum2timeseries_object": type(c.call(pk.core_spectral.spectrum2timeseries_object, w["f"], w["S"], 0.0, 50 * p["dtg"], p["dtg"])) is pk.Series,
        "create_spectrum_object_jonswap": type(c.call(pk.core_wavefunctions.create_spectrum_object_jonswap, w["f"], p["fp"], p["hm0"])) is pk.Spectrum,
        "create_spectrum_object_piersonmoskowitz": type(c.call(pk.core_wavefunctions.create_spectrum_object_piersonmoskowitz, w["f"], p["fp"], p["hm0"])) is pk.Spectrum,
    }
    g = [c.call(pk.Series, w["t"], w["X"][:, i]) for i in range(w["X"].shape[1])]
    kinds["decompose_linear_ZS_series"] = all(type(q) is pk.Series for q in c.call(pk.core_wave_decomposition.decompose_linear_ZS_series, g, p["depth"], w["xloc"], w["wloc"], raw=True))
    for k, v in kinds.items():
        c.expect(v, "results are objects of the package", k)
    # a directional distribution is carried along and changes no one-dimensional answer
    D = r.random((len(w["f"]), int(r.integers(1, 6))))
    two = c.call(pk.Spectrum, w["f"], w["S"], D)
    c.expect(two.spec == "2D" and np.array_equal(two.D, D) and sp.spec == "1D" and np.size(sp.D) == 0, "D is carried along", f"{two.spec} {sp.spec}")
    c.expect("2D" in str(two) and "2D" in repr(two) and "1D" in str(sp) and "1D" in repr(sp), "D is carried along", f"{two} {two!r} {sp} {sp!r}")
    for name in BANDED:
        q = name.split(".")[1]
        v = values(r, w, p, name)
        if r.random() < 0.4:
            v = {}
        a, ea, _ = c.observe(getattr(two, q), **v)
        b, eb, _ = c.observe(getattr(sp, q), **v)
        c.count("D changes no one-dimensional answer")
        if (ea is None) != (eb is None) or (ea is None and differs(numbers(a), numbers(b), 1e-12)):
            c.fail("D changes no one-dimensional answer", f"{q}({v}): {a!r} {ea} against {b!r} {eb}")
    made = []
    for o in (two, sp):
        np.random.seed(p["seed"])
        made.append(c.call(o.create_series, p["t0"], p["t0"] + 40 * p["dtg"], p["dtg"]))
    c.count("D changes no one-dimensional answer")
    d = differs(numbers((made[0].time, made[0].xTime)), numbers((made[1].time, made[1].xTime)), 1e-12)
    if d:
        c.fail("D changes no one-dimensional answer", f"create_series: {d}")
    if r.random() < 0.2:
        c.expect(not differs(numbers(c.call(two.plot)), numbers(c.call(sp.plot)), 1e-12), "D changes no one-dimensional answer", "plot")
    one = c.call(pk.Spectrum, w["f"], w["S"])
    c.expect(one.spec == "1D" and np.size(one.D) == 0, "a Spectrum without D stays without", "after a Spectrum with D")
    c.nontrivial(w["x"], w["S"])


WORKLOADS = {"calling": (w_calling, 900, 5000), "methods": (w_methods, 700, 4000), "names": (w_names, 200, 800),
             "far": (gens.far(w_calling, 33000), 4, 32)}
REQUIRED = {"same answer by position, keyword and default": 20000, "objects answer like the core functions": 10000,
            "results are objects of the package": 800, "D changes no one-dimensional answer": 1000}
