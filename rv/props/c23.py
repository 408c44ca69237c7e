"""C23: the container and numeric type of the input do not change the result.

The reference is the same call on plain float64 one-dimensional arrays; every other way of handing over the same
numbers must give the same result.
"""
import array

import numpy as np

from rv import gens, ops, refs
from rv.target import W

PROP = "C23"
RULE = ("every vector-taking function and constructor x every container (lists, tuples, ranges, arrays of the standard library, array-like objects, numpy scalars in a list, strided, reversed, "
        "read-only, big-endian, matrix column, (n,1), Fortran, nested lists) and, for integer-valued data filling the range of the "
        "type, every integer type; one argument at a time and all together; non-trivial: the reference result holds a non-zero number")
ASSUMPTIONS = ["the reference is the package's own result for float64 one-dimensional arrays (its correctness is decided by C01-C21)",
               "single columns are not driven where the documentation demands one-dimensional input (core_time, gauge positions and weights); "
               "disper keeps the shape of its input"]


def F(name):
    """A package function by module and name, looked up when called."""
    m, n = name.split(".")
    return lambda *a, **k: getattr(getattr(W, m), n)(*a, **k)


def _obj(kind):
    """Every number of an object made from the given vectors."""
    def series(t, x):
        s = W.Series(t, x)
        out = [s.time, s.xTime, s.hwave, s.twave, s.nt, s.dt, s.nwave, s.get_Hrms(), s.get_Hmax(), s.max(), s.min(), s.mean(), s.var(),
               s.get_crossing("up"), s.get_crossing("down"), s.get_Hs(), s.get_exceedance_waveheight(10.0)]
        sp = s.get_spectrum_raw(0.0)
        out += [sp.f, sp.sVarDens, s.get_fourier_comp()]
        w = s.get_spectrum(nperseg=min(16, s.nt), use_dfDesired=False)
        out += [w.f, w.sVarDens, s.get_bandpassfilter(0.0, 0.2 / s.dt).xTime]
        if s.var() > 0:
            out += [s.get_skewness(), s.get_asymmetry()]
        return out

    def heights(h, t):
        w = W.WaveHeights(h, t)
        return [w.nwave, w.hwave, w.twave, w.get_Hrms(), w.get_Hmax(), w.get_Hs(), w.highest_waves(0.5), w.get_exceedance_waveheight(20.0), w.get_H2p_Rayleigh()]

    def spectrum(f, S):
        s = W.Spectrum(f, S)
        return [s.nf, s.f, s.sVarDens, s.get_Hm0(), s.get_Tmm10(), s.get_Tm01(), s.get_Tm02(), s.get_Tp(), s.get_Tps(), s.get_s0p(), s.get_smm10(),
                s.get_Hm0(fmin=float(np.ravel(s.f)[1]))]
    return {"Series": series, "WaveHeights": heights, "Spectrum": spectrum}[kind]


# name: (function of the vectors, roles of the vectors, columns accepted)
def tasks(p):
    df = p["df"]
    return {
        "convert_to_vector": (lambda x: F("engine.convert_to_vector")(x)[0], "x", True),
        "monotonic": (F("engine.monotonic_increasing_constant_step"), "t", True),
        "approx_array_index": (lambda f: F("engine.approx_array_index")(f, p["val"]), "f", True),
        "frequency_averaging": (lambda f, S: F("spectral.frequency_averaging")(f, S, p["k"] * df), "f S", True),
        "unfold_spectrum": (lambda f, X: F("spectral.unfold_spectrum")(f, X, p["odd"]), "q X", True),
        "coherence": (lambda f, a, b: F("spectral.coherence")(f, a, b, p["k"] * p["dq"]), "q X Y", True),
        "freq2time": (F("spectral.freq2time"), "X", True),
        "time2freq": (F("spectral.time2freq"), "t x", True),
        "time2freq_nyquist": (F("spectral.time2freq_nyquist"), "t x", True),
        "compute_spectrum_time_series": (lambda t, x: F("spectral.compute_spectrum_time_series")(t, x, p["k"] * p["dft"]), "t x", True),
        "compute_spectrum_freq_series": (lambda f, X: F("spectral.compute_spectrum_freq_series")(f, X, p["n"], p["k"] * p["dq"]), "q X", True),
        "spectrum2timeseries": (lambda f, S: F("spectral.spectrum2timeseries")(f, S, 0.0, 20 / p["fmax"], 0.3 / p["fmax"], 3), "f S", True),
        "spectrum2timeseries_object": (lambda f, S: ops.flatten(F("spectral.spectrum2timeseries_object")(f, S, 0.0, 20 / p["fmax"], 0.3 / p["fmax"], 3)), "f S", True),
        "welch": (lambda x: F("spectral.compute_spectrum_welch_wrapper")(x, p["dt"], min(16, p["n"])), "x", True),
        "applybandfilter": (lambda f, X: F("spectral.applybandfilter")(f, X, 1.3 * p["dq"], 4.6 * p["dq"]), "q X", True),
        "bandpassfilter": (lambda t, x: F("spectral.bandpassfilter")(t, x, 1.3 * p["dft"], 4.6 * p["dft"]), "t x", True),
        "sort_wave_params": (F("time.sort_wave_params"), "h g", False),
        "crossing down": (lambda t, x: F("time.determine_zero_crossing")(t, x, "down"), "t x", False),
        "crossing up": (lambda t, x: F("time.determine_zero_crossing")(t, x, "up"), "t x", False),
        "highest_waves_params": (lambda h, g: F("time.highest_waves_params")(h, g, p["frac"]), "H g", False),
        "exceedance_wave_height": (lambda h: F("time.exceedance_wave_height")(h, 100 * p["frac"]), "H", False),
        "individual waves": (lambda c, t, x: F("time.determine_params_individual_waves")(c, t, x), "c t x", False),
        "compute_spectrum_params": (F("wavef.compute_spectrum_params"), "f S", True),
        "compute_spectrum_params band": (lambda f, S: F("wavef.compute_spectrum_params")(f, S, p["lo"], p["hi"]), "f S", True),
        "compute_moment": (lambda f, S: F("wavef.compute_moment")(f, S, p["m"], p["lo"], p["hi"]), "f S", True),
        "compute_moment all": (lambda f, S: F("wavef.compute_moment")(f, S, p["m"]), "f S", True),
        "compute_moment tail": (lambda f, S: F("wavef.compute_moment")(f, S, p["m"], p["lo"], 3 * p["fmax"]), "f S", True),
        "jonswap": (lambda f: F("wavef.create_spectrum_jonswap")(f, p["fp"], 2.0, 3.3, p["l"]), "f", True),
        "jonswap object": (lambda f: ops.flatten(F("wavef.create_spectrum_object_jonswap")(f, p["fp"], 2.0, 3.3, p["l"])), "f", True),
        "pm": (lambda f: F("wavef.create_spectrum_piersonmoskowitz")(f, p["fp"], 2.0, l_fmax=p["l"]), "f", True),
        "pm object": (lambda f: ops.flatten(F("wavef.create_spectrum_object_piersonmoskowitz")(f, p["fp"], 2.0)), "f", True),
        "tpd": (F("wavef.tpd"), "f S", True),
        "compute_tps": (F("wavef.compute_tps"), "f S", True),
        "disper": (lambda w: np.ravel(F("disp.disper")(w, p["depth"])), "w", True),
        "disper shallow": (lambda w: np.ravel(F("disp.disper")(w, -p["depth"])), "w", True),
        "disper deep": (lambda w: np.ravel(F("disp.disper")(w, np.inf)), "w", True),
        "Series": (_obj("Series"), "t x", True),
        "WaveHeights": (_obj("WaveHeights"), "h g", True),
        "WaveHeights sorted": (_obj("WaveHeights"), "H g", True),
        "Spectrum": (_obj("Spectrum"), "f S", True),
    }


def params(r, d):
    f = d["f"]
    i, j = sorted(r.integers(0, len(f), 2))
    n = len(d["t"])
    dt = float((d["t"][-1] - d["t"][0]) / (n - 1))
    return {"df": float(f[1] - f[0]), "dq": float(d["q"][1] - d["q"][0]), "k": float(r.choice([0.0, 1.0, 3.0])), "dt": dt, "dft": 1 / (n * dt),
            "odd": bool(n % 2), "n": n, "val": float(f[0] + r.uniform(0, 1) * (f[-1] - f[0])), "fmax": float(f[-1]), "frac": float(r.choice([1 / 3, 0.5, 1.0, r.random()])),
            "lo": float(f[i]), "hi": float(f[j]), "m": int(r.integers(-1, 4)), "fp": float(f[len(f) // 2]), "l": int(r.integers(0, 2)),
            "depth": float(r.choice([0.5, 5.0, 100.0]))}


def agree(c, got, want, name, what):
    a, b = ops.flatten(got), ops.flatten(want)
    c.expect(len(a) == len(b), "same results for the same numbers", f"{name} with {what}: {len(a)} results against {len(b)}")
    for u, v in zip(a, b):
        if isinstance(v, str):
            continue
        u, v = np.asarray(u), np.asarray(v)
        fin = np.abs(v[np.isfinite(v)]) if v.size else np.array([0.0])
        c.close(u, v, "same results for the same numbers", rtol=1e-12, atol=1e-12 * float(fin.max() if fin.size else 0.0), detail=f"{name} with {what}")


def ordinary(r):
    """float world by role."""
    w, tags = ops.make_world(r, lo=8, hi=120)
    return {"t": w["t"], "x": w["x"], "f": w["f"], "S": w["S"], "q": w["fq"], "X": w["Xq"], "Y": w["Xq2"], "h": w["hu"], "g": w["tu"],
            "H": w["hs"], "w": w["w"], "c": w["tc"]}, tags


def drive(c, d, p, variants, all_at_once):
    """variants: role -> list of (tag, object)."""
    r = c.rng
    T = tasks(p)
    for name in r.choice(list(T), 9, replace=False):
        fn, roles, col = T[str(name)]
        roles = roles.split()
        fn.__dict__.setdefault("__qualname__", str(name))
        fn.__qualname__ = f"{name}"
        base = [d[k].copy() for k in roles]
        if "c" in roles and len(d["c"]) == 0:
            continue
        ref = c.call(fn, *base, clause="reference call")
        if any(np.any(np.asarray(v) != 0) for v in ops.flatten(ref) if not isinstance(v, str)):
            c.nontrivial(str(name), *base)
        for pos in range(len(roles)):
            for tag, obj in variants(roles[pos], col):
                args = [b.copy() for b in base]
                args[pos] = obj
                got = c.call(fn, *args, raw=True, clause="accepts every container")
                agree(c, got, ref, name, f"{tag} for argument {pos}")
                c.tag(tag)
        pools = [variants(k, col) for k in roles]
        for _ in range(all_at_once):
            pick = [v[int(r.integers(0, len(v)))] for v in pools]
            got = c.call(fn, *[o for _, o in pick], raw=True, clause="accepts every container")
            agree(c, got, ref, name, " and ".join(q for q, _ in pick))


def w_containers(c):
    d, tags = ordinary(c.rng)
    p = params(c.rng, d)
    drive(c, d, p, lambda role, col: gens.containers(d[role], column=col), 4)


INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def fits(x, names=INTS):
    return [k for k in names if np.all(x >= np.iinfo(k).min) and np.all(x <= np.iinfo(k).max)]


def integers(r):
    """Integer-valued data; each vector fills the range of some integer type."""
    n = gens.size(r, 8, 100)

    def full(size, signed=True):
        k = str(r.choice(["int8", "int16", "int32"] if signed else ["uint8", "uint16", "uint32", "int8", "int16"]))
        hi = min(np.iinfo(k).max, 2 ** 31)
        v = r.integers(-hi if signed else 0, hi, size, endpoint=True)
        v[r.integers(0, size)] = hi
        if signed and r.random() < 0.7:  # alternate signs now and then: steep crossings
            v = np.where(np.arange(size) % int(r.integers(1, 6)) == 0, -np.abs(v), np.abs(v))
        return v.astype(float)

    def axis(size, hi=None, lo=None):
        st = int(r.integers(1, 6))
        a0 = int(r.integers(0, 20)) if lo is None else lo
        k = str(r.choice(["uint8", "uint16", "int8", "int16", "int32"]))
        top = np.iinfo(k).max
        if st * (size - 1) <= top and r.random() < 0.7:
            a0 = top - st * (size - 1)  # ends exactly at the top of the type
        if lo is None and r.random() < 0.3:
            a0 = max(-int(r.integers(0, 60)), np.iinfo("int8").min)
        return (a0 + st * np.arange(size)).astype(float)
    t = axis(n)
    x = full(n)
    nf = gens.size(r, 6, 60)
    f = axis(nf)
    if f[0] < 0 or r.random() < 0.5:
        f = f - f[0] + (0 if r.random() < 0.5 else f[1] - f[0])
    S = full(nf, signed=False)
    q = np.arange(n // 2 + 1) * float(r.integers(1, 5))
    nh = int(r.integers(2, 60))
    h = full(nh, signed=False)
    g = r.integers(1, 100, nh).astype(float)
    i, tc = refs.crossings(t, x, "down")
    # crossing moments are integers only when the sample is exactly zero: use crossings at samples
    return {"t": t, "x": x, "f": f, "S": S, "q": q, "X": full(len(q)), "Y": full(len(q)), "h": h, "g": g, "H": np.sort(h)[::-1].copy(),
            "w": np.abs(full(nf)) if r.random() < 0.5 else axis(nf, lo=0), "c": t[i]}


def w_integers(c):
    r = c.rng
    d = integers(r)
    p = params(r, d)

    def variants(role, col):
        out = []
        for k in fits(d[role]):
            v = d[role].astype(k)
            out.append((k, v))
        v = d[role].astype(fits(d[role])[0])
        out += [("int list", [int(q) for q in v]), ("list of numpy ints", list(v)), ("int tuple", tuple(int(q) for q in v)), ("strided ints", np.repeat(v, 2)[::2]),
                ("mixed list", [float(q) if i % 2 else int(q) for i, q in enumerate(v)])]
        x = d[role]
        out += [("array of the standard library", array.array("q", [int(q) for q in v])), ("array-like object of ints", gens.Column(v)), ("memoryview of ints", memoryview(v.copy()))]
        st = int(x[1] - x[0]) if len(x) > 1 else 0
        if st and np.all(np.diff(x) == st):
            out.append(("range", range(int(x[0]), int(x[-1]) + (1 if st > 0 else -1), st)))
        if col:
            out += [("int column", v.reshape(-1, 1)), ("list of int lists", [[int(q)] for q in v])]
        return out
    drive(c, d, p, variants, 4)


def w_decompose(c):
    """The gauge matrix and the gauge lists in other containers."""
    r = c.rng
    n = gens.size(r, 8, 100, cap=1000)
    dt = 0.25
    m = int(r.integers(2, 5))
    t = np.arange(n) * dt
    ints = bool(r.random() < 0.5)
    X = r.standard_normal((n, m)) * 3
    xl = np.cumsum(r.uniform(0.5, 2, m))
    wl = np.ones(m)
    if ints:
        X = np.round(X * 9)
        xl = np.cumsum(r.integers(1, 4, m)).astype(float)
        t = np.arange(n) * 1.0
    h = float(r.choice([1.0, 10.0]))
    fn = W.decomp.decompose_linear_ZS
    ref = c.call(fn, t, X, h, xl, wl)
    mats = [("Fortran", np.asfortranarray(X)), ("strided", np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2]), ("transposed", X.T.copy().T),
            ("big endian", X.astype(">f8"))]
    ro = X.copy()
    ro.setflags(write=False)
    mats.append(("readonly", ro))
    if ints:
        mats += [(k, X.astype(k)) for k in fits(X, ("int8", "int16", "int32", "int64"))]
    for tag, M in mats:
        agree(c, c.call(fn, t, M, h, xl, wl, raw=True, clause="accepts every container"), ref, "decompose", f"matrix {tag}")
        c.tag("matrix " + tag)
    for pos, v in ((0, t), (3, xl), (4, wl)):
        for tag, o in gens.containers(v, ints=ints and pos != 4, column=pos == 0):
            args = [t, X, h, xl, wl]
            args[pos] = o
            agree(c, c.call(fn, *args, raw=True, clause="accepts every container"), ref, "decompose", f"{tag} at {pos}")
    w2 = [1] * m
    agree(c, c.call(fn, t, X, int(h), xl, w2, raw=True, clause="accepts every container"), ref, "decompose", "int weights and depth")
    S = [W.Series(t, X[:, i]) for i in range(m)]
    a, b = c.call(W.decomp.decompose_linear_ZS_series, S, h, list(xl), w2, raw=True, clause="accepts every container")
    agree(c, [a.xTime, b.xTime], ref, "decompose_series", "series objects")
    agree(c, [a.time, b.time], [t, t], "decompose_series", "time axis")
    S = [W.Series([float(v) for v in t], X[:, i].reshape(-1, 1)) for i in range(m)]
    a, b = c.call(W.decomp.decompose_linear_ZS_series, S, h, tuple(xl), wl, raw=True, clause="accepts every container")
    agree(c, [a.xTime, b.xTime], ref, "decompose_series", "series objects from columns")
    c.nontrivial(X, xl)


def w_scalars(c):
    r = c.rng
    w = float(r.integers(1, 9)) if r.random() < 0.5 else float(r.uniform(0.01, 9))
    h = float(r.integers(1, 50))

    def forms(v):
        out = [("float", float(v)), ("np.float64", np.float64(v)), ("0-d array", np.array(v)), ("list", [v]), ("array", np.array([v]))]
        if v == int(v):
            out += [("int", int(v)), ("np.int64", np.int64(v)), ("np.int32", np.int32(v))]
        return out
    for dep in (h, -h, np.inf):
        ref = np.ravel(c.call(W.disp.disper, np.array([w]), dep))
        for tag, o in forms(w):
            got = c.call(W.disp.disper, o, dep, raw=True, clause="accepts scalars")
            agree(c, np.ravel(got), ref, "disper", tag)
        if np.isfinite(dep):
            for tag, o in forms(dep)[:2] + forms(dep)[5:]:
                got = c.call(W.disp.disper, np.array([w]), o, raw=True, clause="accepts scalars")
                agree(c, np.ravel(got), ref, "disper", f"depth {tag}")
    hh, tt = float(r.integers(1, 9)), float(r.integers(1, 9))
    for tag, a in forms(hh):
        if tag == "0-d array":
            continue
        for tag2, b in forms(tt):
            if tag2 == "0-d array":
                continue
            o = c.call(W.WaveHeights, a, b, raw=True, clause="accepts scalars")
            c.expect(o.nwave == 1, "accepts scalars", f"nwave {o.nwave}")
            agree(c, [o.hwave, o.twave, o.get_Hmax(), o.get_Hrms()], [np.array([hh]), np.array([tt]), hh, hh], "WaveHeights", f"{tag} {tag2}")
            agree(c, c.call(W.time.sort_wave_params, a, b, raw=True, clause="accepts scalars"), [np.array([hh]), np.array([tt])], "sort", f"{tag} {tag2}")
            agree(c, c.call(W.time.highest_waves_params, a, b, 1.0, raw=True, clause="accepts scalars"), [hh, tt], "highest", f"{tag} {tag2}")
        agree(c, c.call(W.time.exceedance_wave_height, a, 100, raw=True, clause="accepts scalars"), [hh], "exceedance", tag)
    v = c.call(W.engine.convert_to_array_type, w, raw=True, clause="accepts scalars")
    c.expect(isinstance(v, np.ndarray) and v.shape == (1,), "accepts scalars", f"{v!r}")
    # parameters given as integers or numpy scalars
    f = np.arange(1, 60) * 0.02
    i = int(r.integers(1, 4))
    ref = c.call(W.wavef.create_spectrum_jonswap, f, 0.2, float(i), float(i), 0.0)
    for o in (i, np.int64(i), np.float64(i)):
        agree(c, c.call(W.wavef.create_spectrum_jonswap, f, 0.2, o, o, 0, clause="accepts scalars"), ref, "jonswap", type(o).__name__)
    d, nw = i * 2, int(r.integers(10, 900))
    ref = c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, float(i), nw, float(d), 100.0)
    for o in (int, np.int64, np.float64, float):
        agree(c, c.call(W.wavef.compute_BattjesGroenendijk_wave_height_distribution, o(i), o(nw), o(d), o(100), clause="accepts scalars"), ref, "BG", o.__name__)
    c.nontrivial(np.array([w, h, hh, tt]))


def w_axes(c):
    """A decreasing axis is not increasing, whatever its type; an increasing one is."""
    r = c.rng
    n = int(r.integers(3, 40))
    up = (int(r.integers(0, 5)) + int(r.integers(1, 4)) * np.arange(n))
    x = np.where(np.arange(n) % 2, 1, -1)
    for k in fits(up):
        a = up.astype(k)
        for tag, o in ((k, a), ("column " + k, a.reshape(-1, 1)), ("list of " + k, list(a))):
            c.expect(c.call(W.engine.monotonic_increasing_constant_step, o, raw=True) is True, "increasing axes recognised in every type", tag)
        for tag, o in ((k, a[::-1]), ("column " + k, a[::-1].reshape(-1, 1)), ("list of " + k, list(a[::-1]))):
            c.expect(c.call(W.engine.monotonic_increasing_constant_step, o, raw=True) is False, "decreasing axes recognised in every type", tag)
            for fn in (W.Series, W.spectral.time2freq, W.spectral.time2freq_nyquist, W.Spectrum, W.wavef.compute_spectrum_params):
                c.rejects(fn, o, x.astype(float), raw=True, clause="decreasing axes recognised in every type", what=tag)
            c.rejects(W.wavef.compute_moment, o, x.astype(float), 0, raw=True, clause="decreasing axes recognised in every type", what=tag)
        c.tag("axis " + k)
    v = r.integers(0, 255, n).astype(np.uint8)
    for q in (float(r.uniform(0, 255)), int(r.integers(0, 255))):
        d = np.abs(v.astype(float) - q)
        for k in fits(v):
            i = c.call(W.engine.approx_array_index, v.astype(k), q, raw=True)
            c.expect(d[i] == d.min(), "nearest value found in every type", lambda: f"{v!r} {q!r} {k}: {i}")
    for o, want in ((list(v), True), (v, True), (v.reshape(-1, 1), False), (tuple(v), True), ([[1, 2], [3, 4]], False)):
        c.expect(c.call(W.engine.is1darray, o, raw=True) is want, "one-dimensional input recognised in every container", f"{o!r}")
    c.nontrivial(up, v)


WORKLOADS = {"containers": (w_containers, 240, 4000), "integers": (w_integers, 320, 6000), "decompose": (w_decompose, 60, 1000),
             "scalars": (w_scalars, 80, 1500), "axes": (w_axes, 80, 1500),
             "far": (gens.far(w_containers, 21000), 4, 32)}
REQUIRED = {"same results for the same numbers": 50000, "accepts every container": 20000, "accepts scalars": 1000,
            "decreasing axes recognised in every type": 500}
