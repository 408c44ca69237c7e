"""C31: analyses of separate objects do not interfere when they run concurrently.

Two schedulers drive several threads through the real code: a deterministic one that hands a token from thread to
thread at source lines inside the package (seeded, so a schedule can be replayed), and free-running threads with a
minimal switch interval and injected yields.  The monitor compares every result with the one the same call gives alone,
checks that results stay what they were when other threads go on, and records the interleavings it saw.
"""
import copy
import os
import pickle
import sys
import threading
import time
import warnings

import numpy as np

from rv import gens, ops, target
from rv.core import digest
from rv.target import W

PROP = "C31"
RULE = ("2..4 threads of 3..8 operations each, drawn from the ~90 operations of rv.ops without plots and random generation, on own "
        "objects over equal, equally long or shared input arrays; seeded line-level schedules, every operation against itself, the first use of every operation in a newly loaded package interrupted at each line, and free-running threads; "
        "non-trivial: a schedule with at least 10 switches inside the package, counted once per interleaving")
ASSUMPTIONS = [
    "one object is used by one thread at a time; plots (global pyplot state) and random generation (global random state) are outside the property",
    "a thread switch is observed at the source lines of the package; switches inside numpy and scipy calls happen only in the free-running workload",
]
NAMES = []
TOOL = 4


def names():
    if not NAMES:
        NAMES.extend(k for k in ops.OPS if k not in ops.PLOTS and k not in ops.RANDOM)
    return NAMES


class Lines:
    """Calls back at every line of the package executed by one of the given threads."""

    def __init__(self, fn):
        root = os.path.realpath(os.path.join(target.REPO, target.PKG)) + os.sep
        mon = sys.monitoring

        def on(code, line):
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            fn(code.co_filename[len(root):], line)

        self.on = on

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "rv schedule")
        mon.register_callback(TOOL, mon.events.LINE, self.on)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


class Token:
    """Deterministic scheduler: one thread runs at a time, the token moves at package lines with probability p."""

    def __init__(self, n, r, p):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.draw = r.random(200003)
        self.pick = r.integers(0, 1 << 30, 200003)
        self.p, self.k, self.j = p, 0, 0
        self.free = False
        self.me = {}
        self.log = []
        self.lines = 0

    def line(self, f, ln):
        i = self.me.get(threading.get_ident())
        if i is None or self.free:
            return
        self.lines += 1
        self.k += 1
        if self.draw[self.k % 200003] < self.p and len(self.alive) > 1:
            self.pass_on(i, (f, ln))
            if not self.free:
                self.sem[i].acquire()

    def pass_on(self, i, where):
        others = [q for q in self.alive if q != i]
        if not others:
            return
        self.j += 1
        nxt = others[int(self.pick[self.j % 200003]) % len(others)]
        self.log.append((i, nxt) + where)
        self.sem[nxt].release()

    def begin(self, i):
        self.me[threading.get_ident()] = i
        self.sem[i].acquire()

    def end(self, i):
        self.alive.remove(i)
        if self.alive and not self.free:
            self.pass_on(i, ("end", 0))

    def release(self):
        self.free = True
        for s in self.sem:
            s.release()
            s.release()


class Preempt(Token):
    """One preemption: thread 0 stops at its k-th line of the package, the others run to completion, then it goes on."""

    def __init__(self, n, r, k):
        super().__init__(n, r, 0.0)
        self.at, self.own = k, 0

    def line(self, f, ln):
        i = self.me.get(threading.get_ident())
        if i is None or self.free:
            return
        self.lines += 1
        if i == 0:
            self.own += 1
            if self.own == self.at and len(self.alive) > 1:
                self.pass_on(0, (f, ln))
                self.sem[0].acquire()

    def end(self, i):
        self.alive.remove(i)
        if self.alive and not self.free:
            nxt = max(self.alive)       # thread 0 last
            self.log.append((i, nxt, "end", 0))
            self.sem[nxt].release()


class Fresh:
    """The package as in a new process: modules loaded anew, so that no function has run yet."""

    def __enter__(self):
        self.mods = {k: v for k, v in sys.modules.items() if k == target.PKG or k.startswith(target.PKG + ".")}
        self.w = dict(vars(W))
        self.load()

    def load(self):
        for k in [k for k in sys.modules if k == target.PKG or k.startswith(target.PKG + ".")]:
            del sys.modules[k]
        target.load()

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == target.PKG or k.startswith(target.PKG + ".")]:
            del sys.modules[k]
        sys.modules.update(self.mods)
        vars(W).clear()
        vars(W).update(self.w)


def alone(jobs):
    """The reference: every call by itself on its own copy of the inputs."""
    out = []
    for name, world, params in jobs:
        try:
            out.append(("ok", copy.deepcopy(ops.flatten(ops.OPS[name](copy.deepcopy(world), params)))))
        except Exception as e:  # noqa: BLE001
            out.append(("raised", type(e).__name__))
    return out


def judge(c, jobs, want, got, what):
    for (name, _, _), a, b in zip(jobs, want, got):
        c.count("same result as alone")
        if b is None:
            c.fail("every call returns", f"{name} under {what} did not return")
        if a[0] != b[0] or (a[0] == "raised" and a[1] != b[1]):
            c.fail("same result as alone", f"{name} under {what}: {b[0]} {b[1] if b[0] == 'raised' else ''}, alone {a[0]} {a[1] if a[0] == 'raised' else ''}")
        if a[0] == "ok":
            d = ops.same(b[1], a[1])
            if d:
                c.fail("same result as alone", f"{name} under {what}: {d}")


def plan(c, nth, per):
    """Worlds and jobs per thread."""
    r = c.rng
    kind = ["own worlds of one length", "one shared world", "sibling worlds", "unrelated worlds"][int(r.integers(0, 4))]
    c.tag(kind)
    base, _ = ops.make_world(r, lo=8, hi=64)
    par = ops.make_params(r, base)
    worlds = []
    for i in range(nth):
        if kind == "one shared world" or i == 0:
            w, p = base, par if i == 0 else ops.make_params(r, base)
        elif kind == "unrelated worlds":
            w, _ = ops.make_world(r, lo=8, hi=64)
            p = ops.make_params(r, w)
        else:
            w = {k: v.copy() for k, v in base.items()}
            for k in ("x", "x2", "S", "hu"):
                v = w[k]
                if kind == "sibling worlds" and len(v) > 4:
                    j = r.permutation(np.arange(1, len(v) - 1))
                    v[1:-1] = v[j]       # same ends, same sum, same length
                else:
                    v *= 1 + 0.5 * r.random(len(v))
            w["X"] = w["X"] * (1 + i)
            w["Xq"], w["Xq2"], w["Xfull"] = np.fft.rfft(w["x"]), np.fft.rfft(w["x2"]) + 0.1 * np.fft.rfft(w["x"]), np.fft.fft(w["x"])
            o = np.argsort(-w["hu"], kind="stable")
            w["hs"], w["ts"] = w["hu"][o], w["tu"][o]
            from rv import refs
            w["tc"] = refs.crossings(w["t"], w["x"], "down")[1]
            p = dict(par) if r.random() < 0.5 else ops.make_params(r, w)
        if kind == "one shared world" and r.random() < 0.3:
            for v in w.values():
                v.setflags(write=False)
        worlds.append((w, p))
    pool = [str(v) for v in r.choice(names(), 3)]      # few operations, so that threads meet in the same code
    jobs = [[(pool[int(r.integers(3))] if r.random() < 0.7 else str(r.choice(names())), w, p) for _ in range(per)] for w, p in worlds]
    return jobs


def run_threads(jobs, sched=None):
    n = len(jobs)
    got = [[None] * len(j) for j in jobs]
    live = [[None] * len(j) for j in jobs]
    gate = threading.Barrier(n)

    def body(i):
        if sched:
            sched.begin(i)
        else:
            gate.wait()
        try:
            for k, (name, world, params) in enumerate(jobs[i]):
                try:
                    res = ops.flatten(ops.OPS[name](world, params))
                    live[i][k] = res
                    got[i][k] = ("ok", copy.deepcopy(res))
                except Exception as e:  # noqa: BLE001
                    got[i][k] = ("raised", type(e).__name__)
        finally:
            if sched:
                sched.end(i)

    th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for q in th:
        q.start()
    if sched:
        sched.sem[0].release()
        last, t0 = -1, time.time()
        while any(q.is_alive() for q in th):
            for q in th:
                q.join(0.2)
            if sched.lines != last:
                last, t0 = sched.lines, time.time()
            elif time.time() - t0 > 10 and not sched.free:
                sched.release()      # a lock of the code under test is held by a thread without the token
    for q in th:
        q.join(120)
    return got, live


def w_schedule(c):
    r = c.rng
    nth, per = int(r.integers(2, 5)), int(r.integers(2, 6))
    jobs = plan(c, nth, per)
    flat = [j for q in jobs for j in q]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = alone(flat)
        s = Token(nth, r, float(r.choice([0.02, 0.1, 0.5, 1.0])))
        dig = [{k: digest(v) for k, v in q[0][1].items()} for q in jobs]
        with Lines(s.line):
            got, live = run_threads(jobs, s)
    record(c, flat)
    c.events.append({"schedule": [f"{a}->{b} at {f}:{ln}" for a, b, f, ln in s.log[:30]], "switches": len(s.log), "lines": s.lines})
    judge(c, flat, want, [g for q in got for g in q], f"a schedule of {nth} threads with {len(s.log)} switches")
    after(c, jobs, got, live, dig)
    c.note["switches inside the package per schedule"] = len(s.log)
    c.note["package lines executed under the scheduler"] = s.lines
    c.note["distinct switch points per schedule"] = len({q[2:] for q in s.log})
    if s.free:
        c.tag("scheduler gave up (lock in the code)")
    if len(s.log) >= 10:
        c.nontrivial(repr(s.log))


def w_duel(c):
    """Every operation against itself on unlike data, switching at (nearly) every line."""
    r = c.rng
    todo = names()
    name = todo[c.idx % len(todo)]
    nth = 2 if r.random() < 0.7 else 3
    per = int(r.integers(1, 4))
    jobs = []
    for i in range(nth):
        w, _ = ops.make_world(r, lo=8, hi=[40, 24, 60][i])
        p = ops.make_params(r, w)
        jobs.append([(name, w, p)] * per)
    if r.random() < 0.3:
        other = todo[int(r.integers(len(todo)))]
        jobs[-1] = [(other,) + q[1:] for q in jobs[-1]]
    flat = [j for q in jobs for j in q]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = alone(flat)
        s = Token(nth, r, [1.0, 0.7, 0.3][(c.idx // len(todo)) % 3])
        dig = [{k: digest(v) for k, v in q[0][1].items()} for q in jobs]
        with Lines(s.line):
            got, live = run_threads(jobs, s)
    record(c, flat)
    c.events.append({"schedule": [f"{a}->{b} at {f}:{ln}" for a, b, f, ln in s.log[:30]], "switches": len(s.log), "lines": s.lines})
    judge(c, flat, want, [g for q in got for g in q], f"a duel of {nth} threads with {len(s.log)} switches")
    after(c, jobs, got, live, dig)
    c.note["switches inside the package per duel"] = len(s.log)
    if len(s.log) >= 10:
        c.nontrivial(repr(s.log))


ATLAS = {}


def atlas():
    """Lines of the package reached by the first use of each operation: {(file, line): [operation, ...]}."""
    if not ATLAS:
        r = np.random.default_rng(5)
        fresh = Fresh()
        with fresh:
            for name in names():
                w, _ = ops.make_world(r, lo=20, hi=40)
                p = ops.make_params(r, w)
                fresh.load()
                seen = set()
                with Lines(lambda f, ln: seen.add((f, ln))):
                    alone([(name, w, p)])
                for q in seen:
                    ATLAS.setdefault(q, []).append(name)
    return ATLAS


def w_first(c):
    """The first use of every operation in a process, interrupted once at each line of the package by another thread."""
    r = c.rng
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        where = atlas()
    lines = sorted(where)
    spot = lines[c.idx % len(lines)]
    nth_time = c.idx // len(lines)      # at its first, second, ... execution
    name = where[spot][int(r.integers(len(where[spot])))]
    nth = 2 if r.random() < 0.8 else 3
    jobs = []
    for i in range(nth):
        w, _ = ops.make_world(r, lo=20, hi=40)
        jobs.append([(name, w, ops.make_params(r, w))])
    if r.random() < 0.2:      # another operation that may share the state
        other = where[spot][int(r.integers(len(where[spot])))]
        jobs[-1] = [(other,) + jobs[-1][0][1:]]
    flat = [j for q in jobs for j in q]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = alone(flat)
        fresh = Fresh()
        with fresh:
            trace = []
            with Lines(lambda f, ln: trace.append((f, ln))):
                alone([flat[0]])
            if not trace:
                return
            occ = [k + 1 for k, q in enumerate(trace) if q == spot] or [int(r.integers(1, len(trace) + 1))]
            k = occ[min(nth_time, len(occ) - 1)] if nth_time < 2 else int(r.choice(occ[:8]))
            fresh.load()
            s = Preempt(nth, r, k)
            dig = [{m: digest(v) for m, v in q[0][1].items()} for q in jobs]
            with Lines(s.line):
                got, live = run_threads(jobs, s)
    record(c, flat)
    c.events.append({"schedule": [f"{a}->{b} at {f}:{ln}" for a, b, f, ln in s.log[:30]], "lines": s.lines})
    judge(c, flat, want, [g for q in got for g in q], f"a first use interrupted at {trace[k - 1]}")
    c.count("first use interrupted once")
    after(c, jobs, got, live, dig)
    c.note["lines of the package at which a first use was interrupted"] = len(lines)
    c.nontrivial(name, trace[k - 1], nth_time)


def record(c, flat):
    for name, _, _ in flat:
        c.n_events += 1
        c.calls[name] = c.calls.get(name, 0) + 1
        if len(c.events) < 30:
            c.events.append({"call": name})


def after(c, jobs, got, live, dig):
    for i, q in enumerate(jobs):
        for k, (name, world, _) in enumerate(q):
            if live[i][k] is None:
                continue
            c.count("results stay what they were")
            d = ops.same(live[i][k], got[i][k][1])
            if d:
                c.fail("results stay what they were", f"{name}: changed by other threads: {d}")
        for k, v in q[0][1].items():
            c.count("shared inputs unchanged")
            if digest(v) != dig[i][k]:
                c.fail("shared inputs unchanged", f"{k} after {[j[0] for j in q]}")


def w_parallel(c):
    """Free-running threads: switches inside numpy calls and between any two bytecodes."""
    r = c.rng
    nth = 4
    jobs = plan(c, nth, int(r.integers(4, 9)))
    flat = [j for q in jobs for j in q]
    seen = []
    old = sys.getswitchinterval()

    def line(f, ln):
        seen.append(threading.get_ident())
        if len(seen) % 7 == 0:
            time.sleep(0)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = alone(flat)
        dig = [{k: digest(v) for k, v in q[0][1].items()} for q in jobs]
        try:
            sys.setswitchinterval(1e-6)
            with Lines(line):
                got, live = run_threads(jobs)
        finally:
            sys.setswitchinterval(old)
    record(c, flat)
    sw = int(sum(a != b for a, b in zip(seen, seen[1:])))
    c.note["switches between package lines, free-running"] = sw
    judge(c, flat, want, [g for q in got for g in q], f"{nth} free-running threads ({sw} switches)")
    after(c, jobs, got, live, dig)
    if sw >= 10:
        ids = {}
        c.nontrivial(repr([ids.setdefault(q, len(ids)) for q in seen[:4000]]))


def w_copies(c):
    """Copies and pickles of objects (what multiprocessing sends around) answer like the originals, and on their own."""
    r = c.rng
    world, _ = ops.make_world(r, lo=8, hi=120)
    params = ops.make_params(r, world)
    mk = {"_series": lambda: W.Series(world["t"], world["x"]), "_spectrum": lambda: W.Spectrum(world["f"], world["S"]),
          "_heights": lambda: W.WaveHeights(world["hu"], world["tu"])}
    pool = [k for k in names() if k.startswith(("Series.", "Spectrum.", "WaveHeights.")) and "individual" not in k]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orig = {k: c.call(f) for k, f in mk.items()}
        for name in r.choice(pool, 3):      # used, not fresh
            _quiet(str(name), {**world, **orig}, params)
        cp = {}
        how = {"deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o)), "copy": copy.copy}[str(r.choice(["deepcopy", "pickle", "copy"]))]
        for k, o in orig.items():
            cp[k] = c.call(how, o, raw=True, clause="objects can be copied and pickled")
        for name in r.choice(pool, 8):
            name = str(name)
            a = _quiet(name, {**world, **orig}, params)
            b = _quiet(name, {**world, **cp}, params)
            f = _quiet(name, {**world, **{k: q() for k, q in mk.items()}}, params)
            c.n_events += 3
            c.calls[name] = c.calls.get(name, 0) + 3
            for u, who in ((b, "copy"), (f, "fresh object")):
                c.count("copies answer like the original")
                if a[0] != u[0]:
                    c.fail("copies answer like the original", f"{name}: original {a[0]} {a[1] if a[0] == 'raised' else ''}, {who} {u[0]} {u[1] if u[0] == 'raised' else ''}")
                if a[0] == "ok" and name not in ("Series.sort", "WaveHeights.sort"):
                    d = ops.same(a[1], u[1])
                    if d:
                        c.fail("copies answer like the original", f"{name}, {who}: {d}")
    c.nontrivial(world["x"], params["seed"])


def _quiet(name, world, params):
    try:
        return "ok", copy.deepcopy(ops.flatten(ops.OPS[name](world, params)))
    except Exception as e:  # noqa: BLE001
        return "raised", type(e).__name__


WORKLOADS = {"schedule": (w_schedule, 600, 16000), "duel": (w_duel, 800, 12000), "first": (w_first, 1600, 20000), "parallel": (w_parallel, 200, 5000), "copies": (w_copies, 200, 3000),
             "far": (gens.far(w_duel, 21000), 4, 32)}
REQUIRED = {"same result as alone": 6000, "results stay what they were": 5000, "first use interrupted once": 1000, "copies answer like the original": 1000}
