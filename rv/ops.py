"""One call of every public function and method on a common set of arrays ("world").

Used by the monitors that look at what calls have in common (C22 side effects, C28 well-formedness):
OPS[name](world, params) performs one call and returns its result; it is a deterministic function of the
contents of world and params, and hands the arrays of world to the package as they are.
"""
import numpy as np

from rv import gens, refs
from rv.target import W


def make_world(r, kind=None, lo=8, hi=400):
    n = gens.size(r, lo, hi)
    dt = gens.step(r)
    t, ta = gens.axis(r, n, dt, str(r.choice(["zero", "pos", "neg", "through0", "late"])))
    x, tx = gens.signal(r, n, kind or str(r.choice(["noise", "sines", "jonswap", "quantised", "walk", "zerocross", "noise+mean", "onesided"])))
    x2 = gens.signal(r, n, "noise")[0]
    f, S, tg = gens.spec(r, 5, 200, kind=str(r.choice(["jonswap", "pm", "double", "ties", "random", "plateau", "monotone down", "swell", "white"])))
    m = n // 2 + 1
    fq = np.arange(m) / (n * dt)
    Xq, Xq2 = np.fft.rfft(x), np.fft.rfft(x2) + 0.3 * np.fft.rfft(x)
    nh = gens.size(r, 1, 120)
    hu = np.abs(gens.signal(r, max(nh, 2), str(r.choice(["noise", "quantised"])))[0])
    tu = r.uniform(2, 9, len(hu))
    o = np.argsort(-hu, kind="stable")
    g = int(r.integers(2, 5))
    xloc = np.cumsum(np.concatenate([[r.uniform(-5, 5)], r.uniform(0.4, 2.0, g - 1)]))
    return {
        "t": t, "x": x, "x2": x2, "X": np.stack([gens.signal(r, n, "noise")[0] for _ in range(g)], axis=1),
        "f": f, "S": S, "fq": fq, "Xq": Xq, "Xq2": Xq2, "Xfull": np.fft.fft(x),
        "hu": hu, "tu": tu, "hs": hu[o], "ts": tu[o], "w": 2 * np.pi * np.abs(np.concatenate([[0.0], f])),
        "xloc": xloc, "wloc": np.ones(g), "tc": refs.crossings(t, x, "down")[1],
    }, (ta, tx) + tg


def spoil(r, w, share=0.25):
    """Now and then what measurements look like before anyone cleaned them: gaps, infinities, values below zero."""
    u = r.random() * 0.25 / share
    if u > 0.25:
        return ()
    names = [k for k in ("S", "x2", "hu", "tu", "hs") + (("x", "X") if u < 0.1 else ()) if r.random() < 0.5] or ["S"]
    for k in names:
        v = np.array(w[k])
        i = r.integers(0, v.size, int(r.integers(1, 4)))
        v.ravel()[i] = -np.abs(v.ravel()[i]) - 0.1 if u < 0.1 else r.choice([np.nan, np.inf, -np.inf, -0.0, np.nan])
        w[k] = v
    return ("values below zero" if u < 0.1 else "gaps and infinities",)


def make_params(r, w):
    t, f = w["t"], w["f"]
    n = len(t)
    dt = float((t[-1] - t[0]) / (n - 1))
    fny = 0.5 / dt
    fmin, fmax, _ = gens.band(r, f)
    a, b = sorted(r.uniform(0, fny, 2))
    nps = int(r.integers(4, n + 1))
    return {
        "dt": dt, "odd": bool(n % 2), "n": n, "dfd": float(r.choice([0.0, 2.0, 3.4])), "flow": float(a), "fhigh": float(b),
        "fmin": float(fmin), "fmax": float(fmax) if np.isfinite(fmax) else float(3 * f[-1]), "seed": int(r.integers(0, 1000)),
        "cross": str(r.choice(["up", "down"])), "frac": float(r.choice([1 / 3, 0.1, 1.0, r.uniform(0, 1)])),
        "perc": float(r.choice([2.0, 10.0, 100.0, r.uniform(0, 100)])), "nperseg": nps, "noverlap": int(r.integers(0, nps)),
        "win": str(r.choice(["hann", "hamming", "boxcar"])), "m": int(r.integers(-1, 4)), "fp": float(f[0] + 0.4 * (f[-1] - f[0])),
        "hm0": float(r.uniform(0.3, 4)), "gamma": float(r.choice([1.0, 3.3, 7.0])), "l_fmax": int(r.integers(0, 2)),
        "depth": float(r.choice([0.5, 3.0, 20.0, 1000.0])), "cot": float(r.choice([250.0, 50.0, 20.0])), "nw": int(r.integers(3, 2000)),
        "tdur": float(dt * r.integers(4, 300)), "dtg": float(r.uniform(0.1, 0.45) / f[-1]), "t0": float(r.choice([0.0, 10.0, -3.0])),
    }


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def _def(name, fn):
    OPS[name] = fn


def _build():
    d = _def
    d("convert_to_array_type", lambda w, p: W.engine.convert_to_array_type(w["x"]))
    d("convert_to_vector", lambda w, p: W.engine.convert_to_vector(w["x"]))
    d("monotonic", lambda w, p: W.engine.monotonic_increasing_constant_step(w["t"]))
    d("approx_array_index", lambda w, p: W.engine.approx_array_index(w["f"], p["fp"]))
    d("is1darray", lambda w, p: W.engine.is1darray(w["X"]))
    d("frequency_averaging", lambda w, p: W.spectral.frequency_averaging(w["f"], w["S"], p["dfd"] * (w["f"][1] - w["f"][0])))
    d("unfold_spectrum", lambda w, p: W.spectral.unfold_spectrum(w["fq"], w["Xq"], p["odd"]))
    d("coherence", lambda w, p: W.spectral.coherence(w["fq"], w["Xq"], w["Xq2"], p["dfd"] * w["fq"][1]))
    d("coherence_same", lambda w, p: W.spectral.coherence(w["fq"], w["Xq"], w["Xq"], p["dfd"] * w["fq"][1]))
    d("coherence_real", lambda w, p: W.spectral.coherence(w["f"], w["S"], w["S"], 0.0))
    d("freq2time", lambda w, p: W.spectral.freq2time(w["Xfull"]))
    d("time2freq", lambda w, p: W.spectral.time2freq(w["t"], w["x"]))
    d("time2freq_nyquist", lambda w, p: W.spectral.time2freq_nyquist(w["t"], w["x"]))
    d("compute_spectrum_time_series", lambda w, p: W.spectral.compute_spectrum_time_series(w["t"], w["x"], p["dfd"] * w["fq"][1]))
    d("compute_spectrum_freq_series", lambda w, p: W.spectral.compute_spectrum_freq_series(w["fq"], w["Xq"], p["n"], p["dfd"] * w["fq"][1]))
    d("spectrum2timeseries", lambda w, p: W.spectral.spectrum2timeseries(w["f"], w["S"], p["t0"], p["t0"] + 60 * p["dtg"], p["dtg"], p["seed"]))
    d("spectrum2timeseries_object", lambda w, p: W.spectral.spectrum2timeseries_object(w["f"], w["S"], p["t0"], p["t0"] + 60 * p["dtg"], p["dtg"], seed=p["seed"]))
    d("welch", lambda w, p: W.spectral.compute_spectrum_welch_wrapper(w["x"], p["dt"], p["nperseg"], p["noverlap"], 0, p["win"]))
    d("applybandfilter", lambda w, p: W.spectral.applybandfilter(w["fq"], w["Xq"], p["flow"], p["fhigh"]))
    d("bandpassfilter", lambda w, p: W.spectral.bandpassfilter(w["t"], w["x"], p["flow"], p["fhigh"]))
    d("sort_wave_params", lambda w, p: W.time.sort_wave_params(w["hu"], w["tu"]))
    d("sort_wave_params_sorted", lambda w, p: W.time.sort_wave_params(w["hs"], w["ts"]))
    d("determine_zero_crossing", lambda w, p: W.time.determine_zero_crossing(w["t"], w["x"], p["cross"]))
    d("highest_waves_params", lambda w, p: W.time.highest_waves_params(w["hs"], w["ts"], p["frac"]))
    d("exceedance_wave_height", lambda w, p: W.time.exceedance_wave_height(w["hs"], p["perc"]))
    d("determine_params_individual_waves", lambda w, p: W.time.determine_params_individual_waves(w["tc"], w["t"], w["x"]))
    d("compute_spectrum_params", lambda w, p: W.wavef.compute_spectrum_params(w["f"], w["S"], p["fmin"], min(p["fmax"], float(w["f"][-1]))))
    d("compute_spectrum_params_all", lambda w, p: W.wavef.compute_spectrum_params(w["f"], w["S"]))
    d("compute_moment", lambda w, p: W.wavef.compute_moment(w["f"], w["S"], p["m"], p["fmin"], p["fmax"]))
    d("create_spectrum_jonswap", lambda w, p: W.wavef.create_spectrum_jonswap(w["f"], p["fp"], p["hm0"], p["gamma"], p["l_fmax"]))
    d("create_spectrum_object_jonswap", lambda w, p: W.wavef.create_spectrum_object_jonswap(w["f"], p["fp"], p["hm0"], p["gamma"], p["l_fmax"]))
    d("create_spectrum_piersonmoskowitz", lambda w, p: W.wavef.create_spectrum_piersonmoskowitz(w["f"], p["fp"], p["hm0"], l_fmax=p["l_fmax"]))
    d("create_spectrum_object_piersonmoskowitz", lambda w, p: W.wavef.create_spectrum_object_piersonmoskowitz(w["f"], p["fp"], p["hm0"]))
    d("tpd", lambda w, p: W.wavef.tpd(w["f"], w["S"]))
    d("compute_tps", lambda w, p: W.wavef.compute_tps(w["f"], w["S"]))
    d("BattjesGroenendijk", lambda w, p: W.wavef.compute_BattjesGroenendijk_wave_height_distribution(p["hm0"], p["nw"], p["hm0"] * (1 + p["frac"]), p["cot"]))
    d("BattjesGroenendijk_Rayleigh", lambda w, p: W.wavef.compute_BattjesGroenendijk_wave_height_distribution(p["hm0"], p["nw"], p["hm0"] * 40, 10.0))
    d("disper", lambda w, p: W.disp.disper(w["w"], p["depth"]))
    d("disper_shallow", lambda w, p: W.disp.disper(w["w"], -p["depth"], 9.8))
    d("disper_deep", lambda w, p: W.disp.disper(w["w"], np.inf))
    d("decompose", lambda w, p: W.decomp.decompose_linear_ZS(w["t"], w["X"], p["depth"], w["xloc"], w["wloc"]))
    d("decompose_lim", lambda w, p: W.decomp.decompose_linear_ZS(w["t"], w["X"], p["depth"], w["xloc"], w["wloc"], 0.5))

    def dser(w, p):
        s = w.get("_gauges")
        if s is None:
            s = [W.Series(w["t"], w["X"][:, i]) for i in range(w["X"].shape[1])]
        return W.decomp.decompose_linear_ZS_series(s, p["depth"], w["xloc"], w["wloc"])
    d("decompose_series", dser)
    # ---------------------------------------------------------------- objects
    d("Series", lambda w, p: W.Series(w["t"], w["x"]))
    d("WaveHeights", lambda w, p: W.WaveHeights(w["hu"], w["tu"]))
    d("Spectrum", lambda w, p: W.Spectrum(w["f"], w["S"]))

    def ser(w):
        return w["_series"] if "_series" in w else W.Series(w["t"], w["x"])

    def spc(w):
        return w["_spectrum"] if "_spectrum" in w else W.Spectrum(w["f"], w["S"])

    def wh(w):
        return w["_heights"] if "_heights" in w else W.WaveHeights(w["hu"], w["tu"])
    for k in ("get_skewness", "get_asymmetry", "max", "min", "mean", "var", "get_fourier_comp", "get_spectrum", "get_Hmax", "get_Hrms",
              "get_Hs", "get_H2p_Rayleigh", "__str__", "__repr__"):
        d("Series." + k, lambda w, p, k=k: getattr(ser(w), k)())
    d("Series.get_crossing", lambda w, p: ser(w).get_crossing(p["cross"]))
    d("Series.get_spectrum_welch", lambda w, p: ser(w).get_spectrum(nperseg=p["nperseg"], noverlap=p["noverlap"], windows_type=p["win"], use_dfDesired=False))
    d("Series.get_spectrum_raw", lambda w, p: ser(w).get_spectrum_raw(p["dfd"] / (p["n"] * p["dt"])))
    d("Series.get_bandpassfilter", lambda w, p: ser(w).get_bandpassfilter(p["flow"], p["fhigh"]))
    d("Series.highest_waves", lambda w, p: ser(w).highest_waves(p["frac"]))
    d("Series.get_exceedance_waveheight", lambda w, p: ser(w).get_exceedance_waveheight(p["perc"]))
    d("Series.individual_waves", lambda w, p: W.Series(w["t"], w["x"])._determine_individual_waves(p["cross"], minimum_wave=0.1))
    d("Series.individual_waves_cutoff", lambda w, p: W.Series(w["t"], w["x"])._determine_individual_waves(p["cross"], fcutoff=p["flow"]))
    for k in ("get_Hmax", "get_Hrms", "get_Hs", "get_H2p_Rayleigh", "sort"):
        d("WaveHeights." + k, lambda w, p, k=k: getattr(wh(w), k)())
    d("WaveHeights.highest_waves", lambda w, p: wh(w).highest_waves(p["frac"]))
    d("WaveHeights.get_exceedance_waveheight", lambda w, p: wh(w).get_exceedance_waveheight(p["perc"]))
    for k in ("get_Hm0", "get_Tps", "get_Tp", "get_Tmm10", "get_Tm01", "get_Tm02", "get_s0p", "get_smm10", "get_Hm0_HF", "get_Hm0_LF",
              "get_Tmm10_HF", "get_Tmm10_LF", "get_smm10_HF"):
        if not k.endswith("F") or k == "get_smm10_HF":
            d("Spectrum." + k, lambda w, p, k=k: getattr(spc(w), k)())
        if k in ("get_Hm0", "get_Tmm10", "get_Tm01", "get_Tm02"):
            d("Spectrum." + k + "_band", lambda w, p, k=k: getattr(spc(w), k)(p["fmin"], p["fmax"]))
        elif k in ("get_Tps", "get_Tp", "get_s0p"):
            d("Spectrum." + k + "_band", lambda w, p, k=k: getattr(spc(w), k)(p["fmin"], min(p["fmax"], float(w["f"][-1]))))
        if k.endswith("F"):
            d("Spectrum." + k, lambda w, p, k=k: getattr(spc(w), k)())
    d("Spectrum.create_series", lambda w, p: _seeded(p["seed"], lambda: spc(w).create_series(p["t0"], p["t0"] + 60 * p["dtg"], p["dtg"])))
    d("Spectrum.__str__", lambda w, p: (str(spc(w)), repr(spc(w))))
    # ------------------------------------------------------------------ plots
    d("Series.plot", lambda w, p: ser(w).plot(plot_crossing=True, **p.get("save", {})))
    d("Series.plot_hist_waveheight", lambda w, p: ser(w).plot_hist_waveheight(**p.get("save", {})))
    d("WaveHeights.plot_exceedance_waveheight", lambda w, p: wh(w).plot_exceedance_waveheight(**p.get("save", {})))
    d("WaveHeights.plot_Rayleigh", lambda w, p: wh(w).plot_exceedance_waveheight_Rayleigh(**p.get("save", {})))
    d("WaveHeights.plot_Rayleigh_BG", lambda w, p: wh(w).plot_exceedance_waveheight_Rayleigh(
        plot_BG=True, hm0=p["hm0"], water_depth=p["hm0"] * 1.3, cota_slope=p["cot"], **p.get("save", {})))
    d("WaveHeights.plot_hist", lambda w, p: wh(w).plot_hist_waveheight(**p.get("save", {})))
    d("Spectrum.plot", lambda w, p: spc(w).plot(**p.get("save", {})))


def _seeded(seed, fn):
    np.random.seed(seed)
    return fn()


_build()
PLOTS = [k for k in OPS if "plot" in k]
RANDOM = ["spectrum2timeseries", "spectrum2timeseries_object", "Spectrum.create_series"]


def flatten(res):
    """The numbers of a result: list of arrays, scalars and strings."""
    if res is None:
        return []
    if isinstance(res, (tuple, list)):
        return [v for r in res for v in flatten(r)]
    if isinstance(res, W.Series):
        return flatten((res.time, res.xTime, res.hwave, res.twave, getattr(res, "tCross", None), res.nwave, res.dt))
    if isinstance(res, W.WaveHeights):
        return flatten((res.hwave, res.twave, res.nwave))
    if isinstance(res, W.Spectrum):
        return flatten((res.f, res.sVarDens, res.nf))
    if isinstance(res, np.ndarray):
        return [res]
    if isinstance(res, (bool, int, float, complex, str, np.generic)):
        return [res]
    return []  # figures


def same(a, b):
    """None when two flattened results are equal (numbers to 1e-13 of the largest), else what differs."""
    if len(a) != len(b):
        return f"{len(a)} values against {len(b)}"
    for i, (u, v) in enumerate(zip(a, b)):
        if isinstance(u, str) or isinstance(v, str):
            if u != v:
                return f"{u!r} against {v!r}"
            continue
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape or u.dtype != v.dtype:
            return f"result {i}: {u.dtype}{u.shape} against {v.dtype}{v.shape}"
        if u.size == 0 or np.array_equal(u, v, equal_nan=u.dtype.kind in "fc"):
            continue
        with np.errstate(all="ignore"):
            s = np.nanmax(np.abs(np.where(np.isfinite(v), v, 0)))
            d = np.abs(u - v)
            bad = ~((d <= 1e-13 * s) | (u == v) | (np.isnan(u) & np.isnan(v)))
        if np.any(bad):
            j = int(np.argmax(bad))
            return f"result {i}, element {j}: {u.ravel()[j]!r} against {v.ravel()[j]!r}"
    return None
