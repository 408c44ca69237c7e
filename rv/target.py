"""Loads the code under test from the repository's current working tree.

RV_REPO (default /repo) is only meant for working on scratch copies by hand; the
registered commands never set it.
"""
import os
import sys
import types

REPO = os.environ.get("RV_REPO", "/repo")
PKG = "deltares_wave_toolbox"

W = types.SimpleNamespace()


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib

    pkg = importlib.import_module(PKG)
    root = os.path.realpath(os.path.join(REPO, PKG))
    got = os.path.realpath(os.path.dirname(pkg.__file__))
    if got != root:
        raise RuntimeError(f"package imported from {got}, expected {root}")
    imp = importlib.import_module
    W.pkg = pkg
    W.engine = imp(PKG + ".cores.core_engine")
    W.spectral = imp(PKG + ".cores.core_spectral")
    W.time = imp(PKG + ".cores.core_time")
    W.wavef = imp(PKG + ".cores.core_wavefunctions")
    W.disp = imp(PKG + ".cores.core_dispersion")
    W.decomp = imp(PKG + ".cores.core_wave_decomposition")
    W.series = imp(PKG + ".series")
    W.spectrum = imp(PKG + ".spectrum")
    W.Series = W.series.Series
    W.WaveHeights = W.series.WaveHeights
    W.Spectrum = W.spectrum.Spectrum
    return W


# ---------------------------------------------------------------- reach evidence
class LineCoverage:
    """Which lines of the package the monitored workload really executed."""

    def __init__(self):
        self.hit = {}
        self.root = os.path.realpath(os.path.join(REPO, PKG)) + os.sep
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "rv")
        except ValueError:
            return
        root, hit = self.root, self.hit

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(root):
                hit.setdefault(fn[len(root):], set()).add(line)
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def executable(self):
        """Line numbers with code inside function bodies, per file."""
        out = {}
        for d, _, files in os.walk(self.root):
            for f in files:
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as fh:
                    top = compile(fh.read(), p, "exec")
                lines, stack = set(), [c for c in top.co_consts if hasattr(c, "co_code")]
                while stack:
                    c = stack.pop()
                    stack += [k for k in c.co_consts if hasattr(k, "co_code")]
                    if c.co_flags & 0x2:  # CO_NEWLOCALS: functions, not class bodies
                        lines |= {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
                out[p[len(self.root):]] = lines
        return out
