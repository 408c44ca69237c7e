"""C22: no analysis call modifies its inputs or hidden global state.

Monitors around every call of a history: digests of all inputs (including the memory around the view that
was passed), digests of all earlier results, snapshots of global state, an audit hook on file system and
process events; and the same call made in a process that has never called the package before.
"""
import copy
import os
import pickle
import shutil
import struct
import sys
import tempfile
import warnings

import numpy as np

from rv import gens, ops, settings
from rv.core import cpu_budget, digest
from rv.target import W

PROP = "C22"
RULE = ("histories of 10..30 calls drawn from the ~95 operations of rv.ops (every public function and method) on one shared "
        "set of arrays and objects, arrays passed as views of guarded buffers or read-only; plus sibling-input histories "
        "(same buffer with other content, permuted, one sample changed, same ends and length); users with settings of their own; "
        "data with gaps, infinities and values below zero; arrays of up to 21000; non-trivial: a history "
        "that made at least 8 distinct operations")
ASSUMPTIONS = [
    "the pristine process is forked before the first package call of the worker; results are compared to 1e-13 of their largest value",
    "objects may change their own attributes (sorting, stored parameters); the arrays those attributes referred to may not change",
]

# ------------------------------------------------------------------ audit of side effects
_audit = {"on": False, "log": []}
_WRITES = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
           "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn",
           "subprocess.Popen", "socket.connect", "socket.bind", "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp",
           "tempfile.mkdtemp", "signal.pthread_kill"}


def _hook(ev, args):
    if not _audit["on"]:
        return
    if ev == "open":
        path, mode, flags = (list(args) + [None, None])[:3]
        w = (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (
            mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if w:
            _audit["log"].append(("write", str(path)))
    elif ev in _WRITES:
        _audit["log"].append((ev, str(args)[:200]))


_installed = []


def audit_on():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    _audit["log"] = []
    _audit["on"] = True


def audit_off():
    _audit["on"] = False
    return _audit["log"]


# ------------------------------------------------------------------------ pristine process
_zyg = {}


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out
    return get(struct.unpack("<Q", get(8))[0])


def pristine():
    """Starts (once per worker, before its first package call) the process that serves fresh forks."""
    if _zyg.get("pid") == os.getpid():
        return
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(b), os.close(c)
            devnull = os.open("/dev/null", os.O_RDWR)
            os.dup2(devnull, 1)
            while True:
                req = _recv(a)
                k = os.fork()
                if k == 0:
                    try:
                        _send(d, pickle.dumps(_serve(pickle.loads(req))))
                    finally:
                        os._exit(0)
                os.waitpid(k, 0)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(a), os.close(d)
    _zyg.update(pid=os.getpid(), wr=b, rd=c)


def _serve(req):
    name, world, params = req
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", ops.flatten(ops.OPS[name](world, params))
    except Exception as e:  # noqa: BLE001
        return "raised", f"{type(e).__name__}: {e}"


def ask(name, world, params):
    _send(_zyg["wr"], pickle.dumps((name, {k: v for k, v in world.items() if not k.startswith("_")}, params)))
    return pickle.loads(_recv(_zyg["rd"]))


# ----------------------------------------------------------------------------- monitors
globals_now = settings.now


def compare_globals(c, a, b, name, random_ok):
    for k in a:
        c.count("global state unchanged")
        if random_ok and k == "random state":
            continue
        if a[k] != b[k]:
            c.fail("global state unchanged", f"{name} changed the {k}" + (f": {a[k]!r} -> {b[k]!r}" if len(repr(a[k])) < 300 else ""))


class Guard:
    """Arrays placed as views inside larger buffers; any change of the buffer is seen."""

    def __init__(self, r, world, freeze):
        self.base = {}
        self.world = {}
        self.lay = str(r.choice(["guarded", "strided"]))
        for k, v in world.items():
            if v.ndim == 1:
                if self.lay == "strided" and len(v):
                    b = np.full(2 * len(v) + 4, 777.0, dtype=v.dtype)
                    view = b[2: 2 + 2 * len(v): 2]
                else:
                    b = np.full(len(v) + 6, 777.0, dtype=v.dtype)
                    view = b[3: 3 + len(v)]
            else:
                b = np.full((v.shape[0] + 2, v.shape[1] + 2), 777.0, dtype=v.dtype)
                view = b[1:-1, 1:-1]
            view[...] = v
            if freeze:
                b.setflags(write=False)
                view.setflags(write=False)
            self.base[k], self.world[k] = b, view
        self.dig = {k: digest(b) for k, b in self.base.items()}

    def check(self, c, name):
        for k, b in self.base.items():
            c.count("inputs unchanged")
            if digest(b) != self.dig[k]:
                c.fail("inputs unchanged", f"{name} modified the array passed as {k!r} (or the memory next to it)")


def run(c, name, world, params, allow_write=None):
    """One monitored call; returns (flattened result or None, exception text)."""
    c.n_events += 1
    c.calls[name] = c.calls.get(name, 0) + 1
    if len(c.events) < 40:
        c.events.append({"call": name, "params": {k: v for k, v in params.items() if k in ("seed", "cross", "fmin", "fmax")}})
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        before = globals_now()
        audit_on()
        res = exc = None
        try:
            with cpu_budget():
                res = ops.OPS[name](world, params)
        except Exception as e:  # noqa: BLE001
            exc = f"{type(e).__name__}: {e}"
        finally:
            log = audit_off()
        after = globals_now()
    compare_globals(c, before, after, name, name in ops.RANDOM)
    c.count("no file or process side effects")
    for what, arg in log:
        if what == "write" and (arg == "/dev/null" or (allow_write and os.path.abspath(arg) == allow_write)):
            continue
        c.fail("no file or process side effects", f"{name}: {what} {arg}")
    return res, exc


# --------------------------------------------------------------------------- workloads
def aside(fn):
    """The workload of a user who has settings of his own, most of the time."""
    def w(c):
        pristine()
        if c.rng.random() < 0.3:
            c.tag("default settings")
            return fn(c)
        c.tag("unusual settings")
        with settings.unusual(c.rng):
            return fn(c)
    w.__doc__ = fn.__doc__
    return w


class Gauges:
    """A list of Series kept by the caller: the list and the records in it stay what they are."""

    def __init__(self, world):
        self.list = [W.Series(world["t"], world["X"][:, i]) for i in range(world["X"].shape[1])]
        self.was = [(s, s.time, s.xTime, digest(s.time, s.xTime), sorted(vars(s))) for s in self.list]

    def changed(self):
        if len(self.list) != len(self.was) or any(s is not w[0] for s, w in zip(self.list, self.was)):
            return "the list of series"
        for i, (s, t, x, d, names) in enumerate(self.was):
            if digest(s.time, s.xTime) != d:
                return f"the record of series {i} of the list"
            if any(k not in vars(s) for k in names):
                return f"the attributes of series {i} of the list"
        return None

    def check(self, c, name, clause="inputs unchanged"):
        c.count(clause)
        q = self.changed()
        if q:
            c.fail(clause, f"{name} changed {q}")


@aside
def w_history(c):
    r = c.rng
    world, tags = ops.make_world(r)
    params = ops.make_params(r, world)
    for q in tags + ops.spoil(r, world):
        c.tag(q)
    freeze = bool(r.random() < 0.3)
    c.tag("read-only inputs" if freeze else "writable inputs")
    g = Guard(r, world, freeze)
    c.tag("inputs " + g.lay)
    live = dict(g.world)
    shared = r.random() < 0.7
    if shared:  # one set of objects for the whole history
        live["_series"] = W.Series(live["t"], live["x"])
        live["_spectrum"] = W.Spectrum(live["f"], live["S"])
        live["_heights"] = W.WaveHeights(live["hu"], live["tu"])
        g.check(c, "constructors")
        c.tag("shared objects")
    gauges = Gauges(live)
    live["_gauges"] = gauges.list
    held = []  # (name, array, digest): every array ever returned or exposed
    seen = set()

    def hold(name, res):
        for v in ops.flatten(res):
            if isinstance(v, np.ndarray) and len(held) < 300:
                held.append((name, v, digest(v)))
    names = [k for k in ops.OPS if k not in ops.PLOTS]
    todo = [str(v) for v in r.choice(names, int(r.integers(10, 30)))]
    if r.random() < 0.5:
        todo.insert(int(r.integers(0, len(todo))), str(r.choice(ops.PLOTS)))
    todo += [todo[0], todo[int(r.integers(0, len(todo)))]]
    for name in todo:
        if shared:
            for k in ("_series", "_heights"):
                hold(k, live[k])
        res, exc = run(c, name, live, params)
        g.check(c, name)
        gauges.check(c, name)
        for who, v, dg in held:
            c.count("earlier results unchanged")
            if digest(v) != dg:
                c.fail("earlier results unchanged", f"{name} changed an array that {who} had returned or held")
        if name in ops.PLOTS:
            import matplotlib.pyplot as plt
            plt.close("all")
            continue
        first = ops.flatten(res)
        first = copy.deepcopy(first)
        hold(name, res)
        seen.add(name)
        # what a process makes of it that has never called anything
        kind, want = ask(name, world, params)
        c.count("same result as in a fresh process")
        if kind == "raised":
            if exc is None:
                c.fail("same result as in a fresh process", f"{name} raises in a fresh process ({want}), not after this history")
            if exc != want:
                c.tag("other message")
            continue
        if exc is not None:
            c.fail("same result as in a fresh process", f"{name} raises {exc}, not in a fresh process" + (" (inputs were read-only)" if freeze else ""))
        d = ops.same(first, want)
        if d:
            c.fail("same result as in a fresh process", f"{name}: {d}")
        # repeat
        res2, exc2 = run(c, name, live, params)
        d = ops.same(ops.flatten(res2), first) if exc2 is None else exc2
        c.count("repeated call gives the identical result")
        if d:
            c.fail("repeated call gives the identical result", f"{name}: {d}")
    if len(seen) >= 8:
        c.nontrivial(world["x"], world["S"], " ".join(todo))


@aside
def w_scribble(c):
    """The caller overwrites the arrays he was given; the next call is not affected."""
    r = c.rng
    pristine()
    world, _ = ops.make_world(r)
    params = ops.make_params(r, world)
    names = [k for k in ops.OPS if k not in ops.PLOTS]
    for name in r.choice(names, 12):
        name = str(name)
        res, exc = run(c, name, {k: v.copy() for k, v in world.items()}, params)
        if exc:
            continue
        flat = ops.flatten(res)
        keep = copy.deepcopy(flat)
        n = 0
        for v in flat:
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                v[...] = -12345
                n += 1
        res2, exc2 = run(c, name, {k: v.copy() for k, v in world.items()}, params)
        d = exc2 or ops.same(ops.flatten(res2), keep)
        c.count("unaffected by what the caller does to earlier results")
        if d:
            c.fail("unaffected by what the caller does to earlier results", f"{name}: {d}")
        if n:
            c.tag("result overwritten")


ARRAYS = {"t": None, "x": "value", "x2": "value", "X": "value", "f": None, "S": "positive", "Xq": "value", "Xq2": "value", "Xfull": "value",
          "hu": "positive", "w": "positive"}


@aside
def w_siblings(c):
    """The same buffers hold other data in the next call: nothing of the previous call may linger."""
    r = c.rng
    pristine()
    world, _ = ops.make_world(r, lo=10, hi=150)
    params = ops.make_params(r, world)
    live = {k: v.copy() for k, v in world.items()}
    names = [str(v) for v in r.choice([k for k in ops.OPS if k not in ops.PLOTS], 6)]
    for step in range(6):
        if step:
            k = str(r.choice([q for q, v in ARRAYS.items() if v]))
            a = live[k]
            how = str(r.choice(["permute", "one sample", "swap two", "interior", "back", "params"]))
            if how == "permute":
                a[...] = a[r.permutation(len(a))]
            elif how == "one sample":
                i = int(r.integers(0, len(a)))
                a[i] = a[i] * 1.5 + 0.25
            elif how == "swap two":
                i, j = r.integers(0, len(a), 2)
                a[[i, j]] = a[[j, i]]
            elif how == "interior" and len(a) > 6:
                a[2:-2] = a[2:-2][::-1].copy()
            elif how == "back":
                for q in live:
                    live[q][...] = world[q]
            else:
                params = ops.make_params(r, world)
            if k == "hu":
                o = np.argsort(-live["hu"], kind="stable")
                live["hs"][...] = live["hu"][o]
            c.tag("sibling: " + how)
        for name in names:
            res, exc = run(c, name, live, params)
            kind, want = ask(name, live, params)
            c.count("same result as in a fresh process")
            if (exc is None) != (kind == "ok"):
                c.fail("same result as in a fresh process", f"{name}: {exc} here, {want if kind != 'ok' else 'a result'} in a fresh process")
            if exc is None:
                d = ops.same(ops.flatten(res), want)
                if d:
                    c.fail("same result as in a fresh process", f"{name} on buffers with new content: {d}")
    c.nontrivial(live["x"], live["S"])


@aside
def w_large(c):
    """Every function once on large data, most of it uncleaned: the caller's arrays and the earlier results stay what they are."""
    r = c.rng
    world, _ = ops.make_world(r)
    params = ops.make_params(r, world)
    for q in ops.spoil(r, world, 0.8):
        c.tag(q)
    g = Guard(r, world, False)
    live = dict(g.world)
    live["_gauges"] = Gauges(live).list
    held = []
    names = [k for k in ops.OPS if k not in ops.PLOTS]
    for name in r.permutation(names):
        name = str(name)
        res, exc = run(c, name, live, params)
        g.check(c, name)
        if exc is None:
            held += [(name, v, digest(v)) for v in ops.flatten(res) if isinstance(v, np.ndarray)]
    for who, v, dg in held:
        c.count("earlier results unchanged")
        if digest(v) != dg:
            c.fail("earlier results unchanged", f"an array that {who} had returned or held is not what it was")
    c.nontrivial(world["x"], world["S"])


@aside
def w_results(c):
    """The caller overwrites what he was given back; the same call later gives the same result as before."""
    r = c.rng
    pristine()
    world, _ = ops.make_world(r, lo=10, hi=150)
    params = ops.make_params(r, world)
    ops.spoil(r, world)
    names = [str(v) for v in r.choice([k for k in ops.OPS if k not in ops.PLOTS], 10)]
    n = 0
    for name in names + names[:3]:
        res, exc = run(c, name, world, params)
        if exc is not None:
            continue
        first = copy.deepcopy(ops.flatten(res))
        for v in ops.flatten(res):
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind in "fc" \
                    and not any(np.shares_memory(v, w) for w in world.values() if isinstance(w, np.ndarray)):
                v[...] = -7.25 if r.random() < 0.5 else v[::-1] + 1.5
                n += 1
        res2, exc2 = run(c, name, world, params)
        d = ops.same(ops.flatten(res2), first) if exc2 is None else exc2
        c.count("results handed out are the caller's own")
        if d:
            c.fail("results handed out are the caller's own", f"{name} after its earlier result was overwritten: {d}")
    if n:
        c.nontrivial(world["x"], " ".join(names))


def w_random(c):
    """Series generation: what it does to the global random state."""
    r = c.rng
    pristine()
    f, S, _ = gens.spec(r, 5, 100)
    dt = float(r.uniform(0.1, 0.45) / f[-1])
    n = int(r.integers(3, 200))
    fn = [W.spectral.spectrum2timeseries, W.spectral.spectrum2timeseries_object][int(r.integers(0, 2))]
    s0 = int(r.integers(0, 2 ** 31))

    def gen(pre, **kw):
        np.random.seed(pre)
        c.n_events += 1
        return ops.flatten(fn(f, S, 0.0, n * dt, dt, **kw))
    c.calls[fn.__name__] = c.calls.get(fn.__name__, 0) + 4
    a, b = gen(s0), gen(s0)
    c.expect(ops.same(a, b) is None, "the same random state gives the same series", lambda: ops.same(a, b))
    after = np.random.get_state()[1].copy()
    a = gen(s0, seed=7)
    b = gen(s0 + 1, seed=7)
    c.expect(ops.same(a, b) is None, "a seed makes the result independent of the random state", lambda: ops.same(a, b))
    np.random.seed(s0)
    first = np.random.random(3)
    np.random.seed(s0)
    st = np.random.get_state()
    # analysis in between does not disturb a stream the caller draws from
    world, _ = ops.make_world(r, hi=100)
    p = ops.make_params(r, world)
    for name in r.choice([k for k in ops.OPS if k not in ops.PLOTS and k not in ops.RANDOM], 5):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                ops.OPS[str(name)](world, p)
            except Exception:  # noqa: BLE001 - only the random state matters here
                pass
    c.expect(np.array_equal(np.random.random(3), first), "analysis draws no random numbers", lambda: f"{st[0]}")
    c.count("draws seen", 1)
    c.nontrivial(f, S, after[:3].astype(float))


@aside
def w_files(c):
    """Plots write exactly the requested file, nothing else anywhere."""
    import matplotlib.pyplot as plt

    r = c.rng
    pristine()
    world, _ = ops.make_world(r, hi=80)
    p = ops.make_params(r, world)
    d = tempfile.mkdtemp(prefix="rv22.")
    old = os.getcwd()
    try:
        os.chdir(d)
        for name in ops.PLOTS:
            fig = W.Series(world["t"], world["x"]).plot(savepath=os.path.join(d, "warm.png"))  # font caches
            plt.close(fig)
            os.remove(os.path.join(d, "warm.png"))
            save = os.path.join(d, "out.png")
            for on in (False, True):
                q = dict(p, save={"savepath": save}) if on else p
                res, exc = run(c, name, world, q, allow_write=save if on else None)
                if exc and world["hu"].max() > 0 and "Series.plot" != name:
                    c.tag("plot raised")
                plt.close("all")
                c.expect(os.listdir(d) == (["out.png"] if on and not exc else []), "exactly the requested file", f"{name} {on}: {os.listdir(d)} {exc}")
                if on and not exc:
                    os.remove(save)
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    c.nontrivial(world["x"], world["hu"])


WORKLOADS = {"history": (w_history, 320, 6000), "scribble": (w_scribble, 200, 3000), "siblings": (w_siblings, 200, 4000),
             "results": (w_results, 200, 3000), "random": (w_random, 200, 2000), "files": (w_files, 16, 200),
             "far": (gens.far(w_history, 21000), 4, 32), "large": (gens.far(w_large, 21000), 8, 64), "far_results": (gens.far(w_results, 21000), 4, 32)}
REQUIRED = {"inputs unchanged": 20000, "earlier results unchanged": 20000, "same result as in a fresh process": 5000,
            "repeated call gives the identical result": 3000, "global state unchanged": 50000, "exactly the requested file": 100}
