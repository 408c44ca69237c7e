"""C33: the answers do not depend on how and where the package is loaded.

Every case starts a fresh interpreter (rv/probe.py) in some environment, loads the modules of the package in some
order under an audit hook, compares the state of the process before and after, and performs a set of operations whose
results are compared with those of the monitoring process.
"""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from rv import ops, target
from rv.core import VERIF

PROP = "C33"
RULE = ("fresh interpreters: every module of the package loaded first, random orders of all of them, and environments that differ in hash seed, "
        "optimisation level, warning filters, locale, time zone, encoding, matplotlib backend, thread limits, working directory (among "
        "them one on the module path with modules named like those of the package) and modules loaded before; 12..30 operations of "
        "rv.ops each; non-trivial: at least 10 operations with equal results")
ASSUMPTIONS = ["results are compared to 1e-13 of their largest value; only input that is well-formed is used, as `python -O` removes assertions",
               "the package sets the matplotlib style of its own style file when loaded, and no other setting"]
MODS = ["", ".series", ".spectrum", ".cores", ".cores.core_engine", ".cores.core_spectral", ".cores.core_time", ".cores.core_wavefunctions",
        ".cores.core_dispersion", ".cores.core_wave_decomposition"]


def run(c, order, opts, env, pre, cwd, path, names, seed):
    d = tempfile.mkdtemp(dir=os.environ.get("RV_SCRATCH"))
    a, b = os.path.join(d, "in"), os.path.join(d, "out")
    with open(a, "wb") as fh:
        pickle.dump({"order": order, "preload": pre, "path": path, "repo": target.REPO, "pkg": target.PKG, "ops": names, "seed": seed}, fh)
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "PYTHONDONTWRITEBYTECODE")}
    e.update(env)  # byte code is cached below the scratch directory of this check (PYTHONPYCACHEPREFIX)
    p = subprocess.run([sys.executable, "-s", "-P", *opts, os.path.join(VERIF, "rv", "probe.py"), a, b], cwd=cwd or d, env=e,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    c.n_events += 1 + len(names)
    what = f"order {order[:3]}.. options {opts} environment {env}"
    c.count("loads")
    if not os.path.exists(b):
        c.fail("loads", f"{what}: interpreter ended with {p.returncode}: {p.stderr[-500:]!r}")
    with open(b, "rb") as fh:
        o = pickle.load(fh)
    if "error" in o:
        c.fail("loads", f"{what}, at {o['step']}: {o['error']}")
    return o, p, what


def judge(c, order, opts=(), env=None, pre=True, cwd=None, path=(), k=12, all_ops=False):
    r = c.rng
    seed = int(r.integers(0, 2 ** 31))
    names = sorted(ops.OPS) if all_ops else [str(v) for v in r.choice(sorted(ops.OPS), k, replace=False)]
    o, p, what = run(c, order, list(opts), dict(env or {}), pre, cwd, [*path, target.REPO], names, seed)
    c.expect(p.returncode == 0, "interpreter ends normally", f"{what}: {p.returncode} {p.stderr[-300:]!r}")
    c.expect(not p.stdout.strip(), "no output", f"{what}: {p.stdout[:300]!r}")
    c.expect(not p.stderr.strip(), "no messages", f"{what}: {p.stderr[:600]!r}")
    if pre:
        pyc = os.environ.get("PYTHONPYCACHEPREFIX", "-")
        ev = [v for v in o["events"] if pyc not in v[1]]
        c.expect(not ev, "loading has no outside effect", f"{what}: {ev[:4]}")
        c.expect(not o["changed"], "loading leaves the process state alone", f"{what}: {o['changed']}")
        odd = {q: (v, o["style"].get(q)) for q, v in o["rc"].items() if o["style"].get(q) != v}
        c.expect(not odd, "loading sets no other matplotlib setting than those of the style file", f"{what}: {odd}")
    n = 0
    for name in names:
        g = np.random.default_rng(seed)
        world, _ = ops.make_world(g)
        par = ops.make_params(g, world)
        res, exc, _ = c.observe(ops.OPS[name], world, par, raw=True)
        st, val = o["results"][name]
        c.count("same results")
        if exc is not None:
            if st == "ok" and not any(v.startswith("-O") for v in opts):  # assertions are gone under -O
                c.fail("same results", f"{what}: {name} raised {exc!r} only in the monitoring process")
            continue
        if st != "ok":
            c.fail("same results", f"{what}: {name} {val}")
        df = ops.same(val, ops.flatten(res))
        if df:
            c.fail("same results", f"{what}: {name}: {df}; world seed {seed}")
        n += 1
    if n >= 10:
        c.nontrivial(order, opts, sorted((env or {}).items()), seed)


def w_first(c):
    """Every module first, the others never, or in random order; or only part of the package."""
    r = c.rng
    m = target.PKG + MODS[c.idx % len(MODS)]
    rest = [target.PKG + v for v in r.permutation(MODS)]
    k = int(r.integers(0, len(MODS)))
    c.tag("first: " + m)
    judge(c, [m] + rest[:k], pre=bool(r.random() < 0.7))


ENVS = [
    ("-O", ["-O"], {}), ("-OO", ["-OO"], {}), ("hash seed", [], {"PYTHONHASHSEED": "random"}), ("locale C", [], {"LC_ALL": "C", "LANG": "C"}),
    ("locale POSIX, no utf-8", ["-X", "utf8=0"], {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}), ("time zone", [], {"TZ": "Asia/Kathmandu"}),
    ("backend pdf", [], {"MPLBACKEND": "pdf"}), ("backend svg", [], {"MPLBACKEND": "svg"}), ("errors from warnings while loading", ["-W", "error"], {}),
    ("development mode", ["-X", "dev"], {}), ("threads", [], {"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"}),
    ("no cache", ["-B"], {}), ("bytes warnings", ["-bb"], {}), ("no module cache", ["-X", "frozen_modules=off"], {}), ("narrow terminal", [], {"COLUMNS": "20", "LINES": "5"}),
    ("int limit", ["-X", "int_max_str_digits=640"], {}),
]


def w_environment(c):
    r = c.rng
    name, opts, env = ENVS[c.idx % len(ENVS)]
    c.tag("environment: " + name)
    order = [target.PKG] if r.random() < 0.5 else [target.PKG + v for v in r.permutation(MODS)]
    judge(c, order, opts, env, pre=True, k=20)


def w_hostile(c):
    """The working directory holds, and comes first on the module path, modules named like those of the package."""
    r = c.rng
    d = tempfile.mkdtemp(dir=os.environ.get("RV_SCRATCH"))
    for m in ("series", "spectrum", "core_engine", "core_time", "core_spectral", "core_wavefunctions", "core_dispersion", "core_wave_decomposition", "deltares"):
        with open(os.path.join(d, m + ".py"), "w") as fh:
            fh.write("raise RuntimeError('module of the working directory used')\n")
    os.mkdir(os.path.join(d, "cores"))
    with open(os.path.join(d, "cores", "__init__.py"), "w") as fh:
        fh.write("raise RuntimeError('module of the working directory used')\n")
    with open(os.path.join(d, "Style.mplstyle"), "w") as fh:
        fh.write("lines.linewidth: 17\nfont.size: 31\n")
    ro = r.random() < 0.5
    if ro:
        os.chmod(d, 0o555)
    c.tag("hostile working directory")
    listing = sorted(os.listdir(d))
    judge(c, [target.PKG + v for v in r.permutation(MODS)[: int(r.integers(1, len(MODS)))]], cwd=d, path=[d], k=30)
    c.expect(sorted(os.listdir(d)) == listing, "nothing is written to the working directory", f"{sorted(os.listdir(d))}")


def w_all(c):
    """All operations in one fresh interpreter."""
    name, opts, env = ENVS[int(c.rng.integers(0, len(ENVS)))]
    c.tag("all operations")
    judge(c, [target.PKG], opts, env, all_ops=True)


WORKLOADS = {"first": (w_first, 20, 400), "environment": (w_environment, 32, 480), "hostile": (w_hostile, 6, 80), "all": (w_all, 8, 160)}
REQUIRED = {"same results": 900, "loading leaves the process state alone": 40, "loading sets no other matplotlib setting than those of the style file": 40,
            "loading has no outside effect": 40}
