"""C15: history independence of Spectrum."""
import numpy as np

from rv import gens, refs
from rv.props.c10 import flat
from rv.target import W

PROP = "C15"
RULE = ("histories of 4..40 random getter calls (with and without bands and g), plots and series generations on one Spectrum, "
        "interleaved with a second spectrum on the same axis; after each call the answer is compared with a freshly built "
        "object (and, for moments, with the reference model), the attributes with the values last returned and the stored "
        "arrays with their first content; non-trivial: a getter called again with another band")

GET = ["Hm0", "Hm0_HF", "Hm0_LF", "Tps", "Tp", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF"]
# getters another getter may use (and whose attribute it may therefore update)
USES = {"Hm0_HF": ["Tmm10"], "Hm0_LF": ["Tmm10"], "Tmm10_HF": ["Tmm10"], "Tmm10_LF": ["Tmm10"], "s0p": ["Hm0", "Tps"],
        "smm10": ["Hm0", "Tmm10"], "smm10_HF": ["Hm0_HF", "Tmm10_HF", "Tmm10"]}


def ops(r, f, fp):
    name = str(r.choice(GET))
    kw = {}
    lo, hi, _ = gens.band(r, f, 4)
    k = r.random()
    if k < 0.35:
        pass
    elif k < 0.65:
        kw = {"fmin": lo, "fmax": hi}
    elif k < 0.8:
        kw = {"fmin": lo}
    else:
        kw = {"fmax": hi}
    if "s" == name[0] and r.random() < 0.5:
        kw["g"] = float(r.choice([9.81, 1.62, 20.0]))
    return name, kw


def value(got):
    return ("raised", type(got[1]).__name__, str(got[1])) if got[1] is not None else ("ok", got[0])


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    x, y = np.asarray(a[1], float), np.asarray(b[1], float)
    with np.errstate(all="ignore"):
        return x.shape == y.shape and bool(np.all((np.abs(x - y) <= 1e-12 * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))))


def w_history(c):
    r = c.rng
    f, S, tg = gens.spec(r, 12, 300)
    for q in tg:
        c.tag(q)
    S2, _ = gens.density(r, f)
    if r.random() < 0.3:
        S2 = S[::-1].copy()  # same multiset, same sum
    data = [(f, S), (f, S2)]
    obj = [c.call(W.Spectrum, *d) for d in data]
    last = [{}, {}]       # attribute -> admissible values
    seen = [{}, {}]
    log = []
    fp = f[int(np.argmax(S))]
    for step in range(int(r.integers(4, 40))):
        k = 0 if r.random() < 0.75 else 1
        o, (ff, SS) = obj[k], data[k]
        u = r.random()
        if u < 0.85:
            name, kw = ops(r, ff, fp)
            log.append((k, name, kw))
            fn = "get_" + name
            a = value(c.observe(getattr(o, fn), **kw))
            fresh = c.call(W.Spectrum, ff, SS)
            b = value(c.observe(getattr(fresh, fn), **kw))
            c.expect(equal(a, b), "same answer as a fresh object", lambda: f"{fn}({kw}) gave {a}, a fresh object gives {b}; history {log[-8:]}")
            if a[0] == "ok":
                v = float(np.asarray(a[1]))
                if name in seen[k] and seen[k][name] != kw:
                    c.nontrivial(S, step, name)
                    c.tag("getter repeated with another band")
                seen[k][name] = kw
                oracle(c, name, kw, ff, SS, v)
            for dep in USES.get(name, []):
                if hasattr(fresh, dep):
                    last[k].setdefault(dep, [None]).append(float(getattr(fresh, dep)))
            if a[0] == "ok":
                last[k][name] = [v]
        elif u < 0.92 and c.idx % 3 == 0:
            log.append((k, "plot", {}))
            # markers belong to the parameters computed so far, hence no comparison with a fresh object
            pk = {"plot_periods": bool(r.random() < 0.7)}
            if r.random() < 0.5:
                pk["xlim"] = float(r.choice([0.0, ff[len(ff) // 3], ff[-1] * 0.4]))
            if r.random() < 0.2:
                pk["xlabel"] = "frequency"
            fig = c.call(o.plot, **pk)
            ln = fig.axes[0].lines[0]
            c.close(np.asarray(ln.get_xdata(), float), ff, "the curve is the stored spectrum", rtol=0)
            c.close(np.asarray(ln.get_ydata(), float), SS, "the curve is the stored spectrum", rtol=0)
        else:
            dt = 0.4 / ff[-1]
            n = int(r.integers(8, 60))
            sd = int(r.integers(0, 1000))
            log.append((k, "create_series", {}))
            np.random.seed(sd)
            sr = c.call(o.create_series, 0.0, n * dt, dt)
            a = [np.array(v, copy=True) for v in flat(sr)]
            if r.random() < 0.3:
                sr.time[...], sr.xTime[...] = -1.0, 5.0
            np.random.seed(sd)
            b = flat(c.call(c.call(W.Spectrum, ff, SS).create_series, 0.0, n * dt, dt))
            for x, y in zip(a, b):
                c.close(x, y, "generated series of a fresh object", rtol=1e-12, atol=1e-12 * float(np.max(np.abs(y))) if y.size else 0)
        for j in (0, 1):
            c.close(obj[j].f, data[j][0], "stored spectrum unchanged", rtol=0)
            c.close(obj[j].sVarDens, data[j][1], "stored spectrum unchanged", rtol=0)
            c.expect(obj[j].nf == len(f) and obj[j].spec == "1D", "stored spectrum unchanged", f"{obj[j].nf} {obj[j].spec}")
            for nm, ok in last[j].items():
                if None in ok and not hasattr(obj[j], nm):
                    continue
                at = getattr(obj[j], nm, "absent")
                c.expect(at != "absent" and any(equal(("ok", at), ("ok", v)) for v in ok if v is not None),
                         "attribute holds the value last returned", lambda: f"{nm} is {at!r}, expected one of {ok}; history {log[-8:]}")


def oracle(c, name, kw, f, S, v):
    """Absolute check of the plain moment parameters."""
    if name not in ("Hm0", "Tmm10", "Tm01", "Tm02"):
        return
    a, b = kw.get("fmin", -1.0), kw.get("fmax", -1.0)
    a, b = (None if a == -1.0 else a), (None if b == -1.0 else b)
    M = lambda m: np.float64(refs.moments(f, S, m, a, b)[0][0])  # noqa: E731
    m0 = M(0)
    if m0 < 1e-9 * float(np.max(S)) * (f[1] - f[0]):
        return
    with np.errstate(all="ignore"):
        want = {"Hm0": 4 * np.sqrt(m0), "Tmm10": M(-1) / m0, "Tm01": m0 / M(1), "Tm02": np.sqrt(m0 / M(2))}[name]
    if np.isfinite(want):
        c.close(v, want, "value follows its definition whatever the history", rtol=1e-8, detail=f"{name} {kw}")


WORKLOADS = {"history": (w_history, 1800, 20000),
             "far": (gens.far(w_history), 8, 80)}
REQUIRED = {"same answer as a fresh object": 8000, "attribute holds the value last returned": 8000, "stored spectrum unchanged": 8000}
