"""Case runner, boundary recorder, verdicts and evidence.

A property module (rv/props/cXX.py) defines

    PROP      the property id
    RULE      how cases are made and what makes one non-trivial
    WORKLOADS {name: (function(case), cases in quick, cases in thorough)}
    REQUIRED  {clause: minimal number of evaluations}   (fewer: inconclusive)

Each case gets its own generator seeded with (VERIF_SEED, property, workload, index), so a case
replays on its own.  The workload drives the real code through Case.call (which records the event,
catches exceptions and enforces a CPU budget) and states what must have been observed with
Case.expect / Case.close; the first clause that fails ends the case as a violation.
"""
from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_BUDGET = 40.0  # CPU seconds of one call; ordinary calls take milliseconds


class Violation(Exception):
    def __init__(self, clause, detail):
        super().__init__(f"{clause}: {detail}")
        self.clause, self.detail = clause, detail


class OverBudget(BaseException):
    """Raised by the CPU timer inside a call that does not finish."""


def brief(x, depth=0):
    """Short printable form of a value (for samples, replay files and events)."""
    if isinstance(x, np.ndarray):
        if x.size <= 8:
            return f"{x.dtype}{list(x.shape)} {np.array2string(x, precision=17, separator=', ', max_line_width=10000)}"
        h = hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:10]
        fl = x.ravel()
        return f"{x.dtype}{list(x.shape)} [{fl[0]!r}, {fl[1]!r}, ..., {fl[-1]!r}] sha1:{h}"
    if isinstance(x, (list, tuple)) and depth < 2:
        if len(x) > 8:
            return f"{type(x).__name__}({len(x)}) [{brief(x[0], 2)}, {brief(x[1], 2)}, ..., {brief(x[-1], 2)}]"
        return f"{type(x).__name__}[" + ", ".join(brief(v, depth + 1) for v in x) + "]"
    if isinstance(x, dict):
        return {str(k): brief(v, depth + 1) for k, v in x.items()}
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def _copy(a):
    if isinstance(a, np.ndarray):
        return np.array(a, copy=True, order="K", subok=False)
    if isinstance(a, list):
        return [_copy(v) for v in a]
    if isinstance(a, tuple):
        return tuple(_copy(v) for v in a)
    return a


def digest(*xs):
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x).encode())
        h.update(b"|")
    return h.hexdigest()


class Case:
    def __init__(self, prop, workload, idx, seed, tier):
        self.prop, self.workload, self.idx, self.seed, self.tier = prop, workload, idx, seed, tier
        self.rng = np.random.default_rng(
            [seed & 0x7FFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(workload.encode()), idx]
        )
        self.events = []
        self.n_events = 0
        self.calls = {}
        self.clauses = {}
        self.digests = []
        self.known = []
        self.tags = {}
        self.note = {}

    # ------------------------------------------------------------------ recorder
    def call(self, fn, *args, raw=False, clause="returns", **kw):
        """Call the code under test on well-formed input; an exception is a violation."""
        res, exc, warned = self.observe(fn, *args, raw=raw, **kw)
        self.count(clause)
        if exc is not None:
            tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-3:])
            self.fail(clause, f"{name_of(fn)} raised {type(exc).__name__}: {exc}\n{tb}")
        return res

    def rejects(self, fn, *args, raw=False, clause="rejects", what="", **kw):
        """The call must raise an error."""
        res, exc, _ = self.observe(fn, *args, raw=raw, **kw)
        self.count(clause)
        if exc is None:
            self.fail(clause, f"{name_of(fn)} accepted {what}: args {[brief(a) for a in args]} {brief(kw)} -> {brief(res)}")
        return exc

    def observe(self, fn, *args, raw=False, **kw):
        nm = name_of(fn)
        if not raw:
            args = tuple(_copy(a) for a in args)
            kw = {k: _copy(v) for k, v in kw.items()}
        self.n_events += 1
        self.calls[nm] = self.calls.get(nm, 0) + 1
        ev = {"call": nm}
        if len(self.events) < 40:
            ev["args"] = [brief(a) for a in args]
            if kw:
                ev["kw"] = brief(kw)
            self.events.append(ev)
        else:
            self.events = self.events[:20] + self.events[21:] + [ev]
        res = exc = None
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                with cpu_budget():
                    res = fn(*args, **kw)
            except OverBudget:
                ev["outcome"] = "over CPU budget"
                self.fail("terminates", f"{nm} used more than {CPU_BUDGET:.0f} s of CPU; args {[brief(a) for a in args]} {brief(kw)}")
            except Exception as e:  # noqa: BLE001 - everything the code raises is an observation
                exc = e
                ev["outcome"] = f"{type(e).__name__}: {e}"
            else:
                if len(self.events) <= 40:
                    ev["outcome"] = brief(res)
        self.warned = [w for w in log]
        return res, exc, self.warned

    # -------------------------------------------------------------------- oracle
    def count(self, clause, n=1):
        self.clauses[clause] = self.clauses.get(clause, 0) + n

    def fail(self, clause, detail):
        raise Violation(clause, detail)

    def expect(self, cond, clause, detail=""):
        self.count(clause)
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail)

    def close(self, got, want, clause, rtol=1e-9, atol=0.0, scale=None, detail=""):
        """|got - want| <= rtol * max(|want| elementwise) + atol; scale overrides |want|."""
        self.count(clause)
        got = np.asarray(got)
        want = np.asarray(want)
        if got.dtype == bool:
            got = got.astype(int)
        if want.dtype == bool:
            want = want.astype(int)
        if got.shape != want.shape:
            self.fail(clause, f"shape {got.shape}, expected {want.shape}. {detail}")
        if got.size == 0:
            return
        if not (np.issubdtype(got.dtype, np.number) or got.dtype == bool):
            self.fail(clause, f"non-numeric result of type {got.dtype}. {detail}")
        s = np.abs(want) if scale is None else scale
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= rtol * s + atol + (1e-300 if rtol > 0 else 0))  # denormal numbers carry fewer digits
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if np.any(bad):
            i = np.unravel_index(np.argmax(bad), bad.shape)
            n = int(np.sum(bad))
            self.fail(
                clause,
                f"{n} of {bad.size} values differ; first at {tuple(int(v) for v in i)}: got {got[i]!r}, expected {want[i]!r}. "
                + (detail() if callable(detail) else str(detail)),
            )

    def nontrivial(self, *data):
        """Counts this case (once per digest) as non-trivial by the module's RULE."""
        self.digests.append(digest(*data))

    def tag(self, name):
        self.tags[name] = self.tags.get(name, 0) + 1

    def finding(self, key, text):
        """A violation whose mechanism is `key`; suppressed only when listed as a known finding."""
        self.known.append((key, text))


def name_of(fn):
    m = getattr(fn, "__module__", "") or ""
    q = getattr(fn, "__qualname__", getattr(fn, "__name__", repr(fn)))
    return f"{m.rsplit('.', 1)[-1]}.{q}"


class cpu_budget:
    """ITIMER_VIRTUAL: counts CPU time of this process only, so load cannot trip it."""

    def __enter__(self):
        def on(_s, _f):
            raise OverBudget()

        self.old = signal.signal(signal.SIGVTALRM, on)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


# ------------------------------------------------------------------------- running
class Tally:
    def __init__(self):
        self.evals = 0
        self.events = 0
        self.calls, self.clauses, self.tags = {}, {}, {}
        self.digests = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.errors = []
        self.lines = {}
        self.notes = {}
        self.by_workload = {}

    def add(self, c):
        self.evals += 1
        self.events += c.n_events
        for src, dst in ((c.calls, self.calls), (c.clauses, self.clauses), (c.tags, self.tags)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        self.digests.update(c.digests)
        self.by_workload[c.workload] = self.by_workload.get(c.workload, 0) + 1
        for k, t in c.known:
            n, first = self.known.get(k, (0, (t, c.workload, c.idx)))
            self.known[k] = (n + 1, first)
        for k, v in c.note.items():
            self.notes.setdefault(k, []).append(v)

    def merge(self, o):
        self.evals += o.evals
        self.events += o.events
        for src, dst in (
            (o.calls, self.calls),
            (o.clauses, self.clauses),
            (o.tags, self.tags),
            (o.by_workload, self.by_workload),
        ):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        self.digests |= o.digests
        self.samples += o.samples
        self.violations += o.violations
        self.errors += o.errors
        for k, (n, first) in o.known.items():
            n0, f0 = self.known.get(k, (0, first))
            self.known[k] = (n0 + n, f0)
        for k, v in o.lines.items():
            self.lines.setdefault(k, set()).update(v)
        for k, v in o.notes.items():
            self.notes.setdefault(k, []).extend(v)


def run_case(mod, name, idx, seed, tier):
    c = Case(mod.PROP, name, idx, seed, tier)
    fn = mod.WORKLOADS[name][0]
    try:
        fn(c)
    except Violation as v:
        return c, {"clause": v.clause, "detail": v.detail, "workload": name, "idx": idx, "events": c.events}, None
    except Exception as e:  # a fault of the harness itself, or an unusable result
        last = traceback.extract_tb(e.__traceback__)
        if c.n_events and isinstance(e, (IndexError, TypeError, ValueError)):
            # the oracle could not even take the recorded results apart
            return c, {"clause": "results have the documented form", "workload": name, "idx": idx, "events": c.events,
                       "detail": f"{type(e).__name__}: {e}\n" + "".join(traceback.format_list(last)[-4:])}, None
        return c, None, {"workload": name, "idx": idx, "error": f"{type(e).__name__}: {e}",
                         "where": "".join(traceback.format_list(last)[-4:]), "events": c.events[-5:]}
    finally:
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
    return c, None, None


def work(mod, jobs, seed, tier, deadline, stop):
    from rv import target

    cov = target.LineCoverage()
    cov.start()
    t = Tally()
    for name, idx in jobs:
        if time.time() > deadline or stop.value >= 3:
            break
        c, viol, err = run_case(mod, name, idx, seed, tier)
        t.add(c)
        if viol:
            t.violations.append(viol)
            with stop.get_lock():
                stop.value += 1
        if err:
            t.errors.append(err)
            if len(t.errors) > 5:
                break
        if not viol and len(c.events) and sum(s["workload"] == name for s in t.samples) < 1:
            t.samples.append({"workload": name, "idx": idx, "events": c.events[:4], "clauses": c.clauses})
    t.lines = cov.hit
    return t


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as fh:
            for e in json.load(fh)["findings"]:
                if e["property"] == prop:
                    out[e["key"]] = e
    return out


def main(mod, argv):
    import argparse
    import multiprocessing as mp

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="restrict to one workload")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    t0 = time.time()

    if a.replay:
        with open(a.replay) as fh:
            r = json.load(fh)
        c, viol, err = run_case(mod, r["workload"], r["idx"], r["seed"], r["tier"])
        print(json.dumps({"violation": viol, "error": err}, indent=1, default=str))
        if viol:
            print(f"VIOLATION property={mod.PROP} replay={a.replay}")
            return 1
        return 2 if err else 0

    limit = 240.0 if a.tier == "quick" else 780.0
    jobs = []
    for name, (_, nq, nt) in mod.WORKLOADS.items():
        if a.only and name != a.only:
            continue
        n = max(1, int((nq if a.tier == "quick" else nt) * (a.scale if (nq if a.tier == "quick" else nt) > 20 else 1)))
        jobs += [(name, i) for i in range(n)]
    planned = len(jobs)
    # deterministic shuffle: every worker sees every workload, and a time limit cuts all evenly
    order = np.random.default_rng(12345).permutation(planned)
    jobs = [jobs[i] for i in order]

    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    deadline = t0 + limit
    procs = []
    for k in range(a.procs):
        chunk = jobs[k:: a.procs]
        if not chunk:
            continue
        rd, wr = ctx.Pipe(False)

        def child(chunk=chunk, wr=wr):
            try:
                wr.send(work(mod, chunk, a.seed, a.tier, deadline, stop))
            except BaseException as e:  # noqa: BLE001
                t = Tally()
                t.errors.append({"error": f"worker: {type(e).__name__}: {e}", "where": traceback.format_exc()})
                wr.send(t)
            wr.close()

        p = ctx.Process(target=child)
        p.start()
        wr.close()
        procs.append((p, rd))
    total = Tally()
    for p, rd in procs:
        try:
            if rd.poll(max(1.0, deadline + 100 - time.time())):
                total.merge(rd.recv())
            else:
                total.errors.append({"error": "worker gave no answer", "where": ""})
                p.kill()
        except EOFError:
            total.errors.append({"error": "worker died", "where": ""})
        p.join(5)
    return report(mod, a, total, planned, t0)


def report(mod, a, total, planned, t0):
    prop = mod.PROP
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known = load_known(prop)
    viols = list(total.violations)
    lines = []
    for key, (n, (text, wl, idx)) in sorted(total.known.items()):
        if key in known:
            lines.append(f"KNOWN-FINDING: property={prop} {key}: {known[key]['what']} (observed {n} times)")
        else:
            viols.append({"clause": key, "detail": text, "workload": wl, "idx": idx, "events": []})
    req = getattr(mod, "REQUIRED", {})
    missing = {k: (total.clauses.get(k, 0), n) for k, n in req.items() if total.clauses.get(k, 0) < n}
    if a.only or a.scale < 1:
        missing = {}

    cov = coverage_summary(total.lines)
    doc = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.digests),
            "rule": mod.RULE,
            "samples": [s for i, s in enumerate(total.samples) if [q["workload"] for q in total.samples].index(s["workload"]) == i],
            "planned_cases": planned,
            "cases_per_workload": dict(sorted(total.by_workload.items())),
            "recorded_calls": total.events,
            "calls_per_function": dict(sorted(total.calls.items())),
            "oracle_evaluations_per_clause": dict(sorted(total.clauses.items())),
            "situations_seen": dict(sorted(total.tags.items())),
            "package_lines_executed": cov,
            "notes": {k: summarise(v) for k, v in sorted(total.notes.items())},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as fh:
        json.dump(doc, fh, indent=1, default=str)

    for ln in lines:
        print(ln)
    print(
        f"{prop} {a.tier} seed={a.seed}: {total.evals}/{planned} cases, {total.events} calls recorded, "
        f"{sum(total.clauses.values())} oracle evaluations, {len(total.digests)} distinct non-trivial, "
        f"{len(viols)} violations, {len(total.errors)} harness errors, {time.time() - t0:.1f} s"
    )
    if viols:
        seen = set()
        for i, v in enumerate(sorted(viols, key=lambda v: (v["workload"], v["idx"]))):
            if v["clause"] in seen and i:
                continue
            seen.add(v["clause"])
            p = os.path.join("evidence", f"{prop}-replay-{len(seen)}.json")
            with open(os.path.join(VERIF, p), "w") as fh:
                json.dump(dict(v, property=prop, seed=a.seed, tier=a.tier,
                               command=f"./check {prop} --replay {p}"), fh, indent=1, default=str)
            print(f"  clause {v['clause']!r} in {v['workload']}[{v['idx']}]: {str(v['detail'])[:1500]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if total.errors:
        print("INCONCLUSIVE: the harness failed:")
        for e in total.errors[:3]:
            print("  ", e.get("workload"), e.get("idx"), e["error"], e["where"])
        return 2
    if missing:
        print("INCONCLUSIVE: too few observations of", missing)
        return 2
    return 0


def summarise(v):
    try:
        x = np.asarray(v, dtype=float)
        return {"n": int(x.size), "min": float(np.min(x)), "max": float(np.max(x))}
    except (TypeError, ValueError):
        return v[:5]


def coverage_summary(hit):
    from rv import target

    out = {}
    for f, ex in sorted(target.LineCoverage().executable().items()):
        h = hit.get(f, set()) & ex
        if ex:
            out[f] = f"{len(h)}/{len(ex)}"
    return out
