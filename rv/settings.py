"""The process-wide settings a user may have made, and a reading of all of them.

A call that saves, changes and "restores" a setting to its default is only seen by a user whose setting is not
the default: `unusual` draws a user who has changed many of them.
"""
import contextlib
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def _handler(kind, flag):  # numpy's error callback of our users
    return None


class _Out:
    """A stdout that passes everything on."""

    def __init__(self, to):
        self.to = to

    def write(self, s):
        return self.to.write(s)

    def flush(self):
        return self.to.flush()


RC = {
    "font.size": [6.5, 13.0, 17.0], "figure.figsize": [[3.0, 2.5], [7.0, 7.0]], "figure.dpi": [50.0, 72.0, 120.0], "savefig.dpi": [40, 90, "figure"],
    "axes.grid": [True], "axes.labelsize": ["small", "x-large", 9.0], "axes.titlesize": ["small", 20.0], "axes.facecolor": ["#eeeeee", "lightyellow"],
    "lines.linewidth": [0.5, 3.0], "lines.linestyle": ["--", ":"], "lines.marker": ["o", "x"], "grid.alpha": [0.3], "grid.linestyle": [":"],
    "legend.fontsize": ["small", 7.0], "legend.loc": ["upper left", "center"], "legend.framealpha": [0.4], "xtick.labelsize": ["small", 6.0], "ytick.labelsize": ["small"],
    "savefig.bbox": ["tight"], "savefig.format": ["pdf", "svg"], "savefig.transparent": [True], "figure.max_open_warning": [5, 0, 100], "font.family": [["serif"], ["monospace"]],
    "mathtext.fontset": ["stix", "cm"], "axes.unicode_minus": [False], "figure.autolayout": [True], "axes.formatter.useoffset": [False], "axes.xmargin": [0.0, 0.2],
    "axes.axisbelow": [True, False], "hist.bins": [7], "agg.path.chunksize": [100], "axes.spines.top": [False], "image.cmap": ["gray"],
    "figure.facecolor": ["none", "#ffeeee"], "text.hinting": ["none"], "svg.hashsalt": ["salt"], "date.epoch": ["2000-01-01T00:00:00"],
}
RC.pop("date.epoch")  # can be set only once
CALM = ("savefig.format", "savefig.bbox", "savefig.dpi", "savefig.transparent", "figure.autolayout", "hist.bins", "figure.max_open_warning", "axes.xmargin", "lines.marker",
        "lines.linestyle")  # left alone where plots themselves are compared or files are counted


@contextlib.contextmanager
def unusual(r, plots=True):
    """Settings of a user who is not on the defaults; restored afterwards."""
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    with contextlib.ExitStack() as st:
        st.enter_context(warnings.catch_warnings())
        old = np.geterr(), np.geterrcall(), np.get_printoptions(), dict(mpl.rcParams), plt.isinteractive(), gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit()
        olog = logging.root.level, logging.root.manager.disable
        ost = np.random.get_state(), random.getstate(), sys.getswitchinterval(), decimal.getcontext().copy(), sys.stdout
        try:
            if r.random() < 0.7:
                how = ["ignore", "warn", "ignore", "call", "log"]
                np.seterrcall(_Log() if r.random() < 0.5 else _handler)
                modes = {k: str(r.choice(how if hasattr(np.geterrcall(), "write") else how[:4])) for k in ("divide", "over", "under", "invalid")}
                if hasattr(np.geterrcall(), "write"):
                    modes = {k: "log" if v == "call" else v for k, v in modes.items()}
                np.seterr(**modes)
            warnings.simplefilter("ignore", RuntimeWarning)  # the harness's own arithmetic
            if r.random() < 0.6:
                np.set_printoptions(precision=int(r.integers(1, 12)), suppress=bool(r.integers(2)), threshold=int(r.integers(5, 5000)), linewidth=int(r.integers(40, 200)))
            if r.random() < 0.7:
                for k in r.choice(list(RC), int(r.integers(3, 14)), replace=False):
                    if k not in CALM:
                        v = RC[str(k)]
                        mpl.rcParams[str(k)] = v[int(r.integers(len(v)))]
            if r.random() < 0.5:
                plt.ion()
            if r.random() < 0.3:
                gc.disable()
            if r.random() < 0.3:
                gc.set_threshold(int(r.integers(300, 5000)), int(r.integers(5, 20)), int(r.integers(5, 20)))
            if r.random() < 0.3:
                sys.setrecursionlimit(int(r.integers(3000, 9000)))
            if r.random() < 0.4:
                logging.root.setLevel(int(r.choice([5, 10, 20, 40])))
            if r.random() < 0.2:
                logging.disable(int(r.choice([10, 20])))
            if r.random() < 0.3:
                sys.setswitchinterval(float(r.uniform(0.001, 0.02)))
            if r.random() < 0.3:
                decimal.getcontext().prec = int(r.integers(10, 60))
            if r.random() < 0.3:
                sys.stdout = _Out(sys.stdout)
            np.random.seed(int(r.integers(2 ** 31)))
            np.random.standard_normal(int(r.integers(0, 4)))  # half a pair of normal numbers may be in store
            random.seed(int(r.integers(2 ** 31)))
            for k, v in (("error", "nothing of ours"), ("ignore", "nor this")):
                if r.random() < 0.4:
                    warnings.filterwarnings(k, message=v)
            yield
        finally:
            np.seterr(**old[0])
            np.seterrcall(old[1])
            np.set_printoptions(**{k: v for k, v in old[2].items() if k != "override_repr"})
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mpl.rcParams.update({k: v for k, v in old[3].items() if mpl.rcParams[k] != v})
            plt.interactive(old[4])
            (gc.enable if old[5] else gc.disable)()
            gc.set_threshold(*old[6])
            sys.setrecursionlimit(old[7])
            logging.root.setLevel(olog[0])
            logging.disable(olog[1])
            np.random.set_state(ost[0])
            random.setstate(ost[1])
            sys.setswitchinterval(ost[2])
            decimal.setcontext(ost[3])
            sys.stdout = ost[4]


class _Log:
    def write(self, s):
        return None


def _state(s):
    return hashlib.sha1(repr((s[0], s[2], s[3], s[4])).encode() + np.ascontiguousarray(s[1]).tobytes()).hexdigest()


def now():
    """Every setting of the process a call could have changed."""
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    return {
        "random state": _state(np.random.get_state()),
        "python random state": hash(random.getstate()),
        "numpy error handling": (tuple(sorted(np.geterr().items())), id(np.geterrcall())),
        "numpy buffer size": np.getbufsize(),
        "warning filters": (tuple(map(repr, warnings.filters)), id(warnings.showwarning), id(warnings.formatwarning)),
        "matplotlib settings": dict(mpl.rcParams),
        "matplotlib backend": mpl.get_backend().lower(),
        "interactive": (plt.isinteractive(), mpl.is_interactive()),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "stdout": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "recursion limit": sys.getrecursionlimit(),
        "path": tuple(sys.path),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
        "logging": (logging.root.level, logging.root.manager.disable, tuple(map(id, logging.root.handlers))),
        "switch interval": sys.getswitchinterval(),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": tuple(id(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGFPE)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.getprofile()), id(threading.excepthook), id(sys.breakpointhook)),
        "umask": _umask(),
        "thread stack size": threading.stack_size(),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m
