"""Runs in a fresh interpreter (see props/c33.py): imports the package in a given order, watches what that does to the
process, performs operations of rv.ops and reports everything through a pickle file.

usage: python probe.py SPEC.pickle OUT.pickle
"""
import importlib
import os
import pickle
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THIRD = ["numpy", "scipy", "scipy.signal", "scipy.fft", "scipy.fftpack", "scipy.integrate", "scipy.interpolate", "scipy.stats", "scipy.special",
         "scipy.optimize", "scipy.linalg", "scipy.ndimage", "scipy.sparse", "matplotlib", "matplotlib.pyplot", "copy", "logging", "decimal"]


def snapshot():
    import builtins
    import decimal
    import gc
    import hashlib
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    import matplotlib as mpl
    import numpy as np

    def h(x):
        return hashlib.sha1(repr(x).encode()).hexdigest()[:12]
    return {
        "numpy error handling": repr(np.geterr()) + repr(np.geterrcall()), "numpy print options": repr(np.get_printoptions()),
        "numpy random state": h([v.tolist() if hasattr(v, "tolist") else v for v in np.random.get_state()]), "random state": h(random.getstate()),
        "warning filters": repr(warnings.filters), "showwarning": repr(warnings.showwarning), "working directory": os.getcwd(),
        "environment": h(sorted(os.environ.items())), "arguments": repr(sys.argv), "module path": repr(sys.path), "locale": repr(locale.setlocale(locale.LC_ALL)),
        "decimal context": repr(decimal.getcontext()), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "garbage collection": repr((gc.isenabled(), gc.get_threshold())), "builtins": h(sorted(vars(builtins))),
        "signal handlers": repr([(int(s), str(signal.getsignal(s))) for s in signal.valid_signals()]), "threads": threading.active_count(),
        "logging": repr((logging.root.level, len(logging.root.handlers), logging.root.manager.disable)),
        "trace": repr((sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook)), "umask": _umask(),
        "figures": repr(__import__("matplotlib.pyplot").pyplot.get_fignums()), "backend": str(mpl.get_backend()),
        "rc": {k: repr(v) for k, v in mpl.rcParams.items() if k not in ("backend",)},
    }


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def main():
    with open(sys.argv[1], "rb") as fh:
        spec = pickle.load(fh)
    out = {"events": [], "results": {}, "changed": {}, "step": "start"}
    try:
        if spec["preload"]:
            for m in THIRD:
                importlib.import_module(m)
        sys.path[:0] = spec["path"]
        before = snapshot() if spec["preload"] else None
        on = {"x": True}

        def hook(ev, args):
            if not on["x"]:
                return
            if ev == "open":
                path, mode, flags = (list(args) + [None, None])[:3]
                w = (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (
                    mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
                if w and not isinstance(path, int):  # a file descriptor was reported when it was opened
                    out["events"].append(("write", str(path)))
            elif ev.split(".")[0] in ("subprocess", "socket", "shutil") or ev in (
                    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "os.system", "os.exec", "os.fork", "os.posix_spawn"):
                out["events"].append((ev, str(args)[:200]))
        if spec["preload"]:
            sys.addaudithook(hook)
        out["step"] = "import"
        for m in spec["order"]:
            out["step"] = "import " + m
            importlib.import_module(m)
        on["x"] = False
        if before is not None:
            after = snapshot()
            out["changed"] = {k: (before[k], after[k]) for k in before if k != "rc" and before[k] != after[k]}
            out["rc"] = {k: after["rc"].get(k) for k in before["rc"] if before["rc"][k] != after["rc"].get(k)}
            import matplotlib as mpl
            style = os.path.join(spec["repo"], spec["pkg"], "Style.mplstyle")
            out["style"] = {k: repr(v) for k, v in mpl.rc_params_from_file(style, use_default_template=False).items()}
        out["step"] = "operations"
        sys.path.insert(0, VERIF)
        import numpy as np

        from rv import ops, target

        target.REPO = spec["repo"]
        target.load()
        import warnings
        warnings.simplefilter("ignore")
        for name in spec["ops"]:
            out["step"] = name
            rng = np.random.default_rng(spec["seed"])
            world, _ = ops.make_world(rng)
            par = ops.make_params(rng, world)
            try:
                out["results"][name] = ("ok", ops.flatten(ops.OPS[name](world, par)))
            except Exception as e:  # noqa: BLE001
                out["results"][name] = ("raised", f"{type(e).__name__}: {e}")
        out["step"] = "done"
    except BaseException as e:  # noqa: BLE001
        import traceback
        out["error"] = traceback.format_exc(limit=-4) or repr(e)
    with open(sys.argv[2], "wb") as fh:
        pickle.dump(out, fh)


if __name__ == "__main__":
    main()
