"""Entry point: rv/main.py <property> [options]."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(3000)

from rv import core, target  # noqa: E402


def run():
    prop = sys.argv[1]
    argv = [os.path.abspath(os.path.join(core.VERIF, a)) if a.endswith(".json") and not os.path.isabs(a) else a
            for a in sys.argv[2:]]
    try:
        target.load()
    except Exception as e:
        print(f"INCONCLUSIVE: the package does not import: {type(e).__name__}: {e}")
        return 2
    if prop == "--selftest":
        import matplotlib
        import numpy
        import scipy
        print("package imports; numpy", numpy.__version__, "scipy", scipy.__version__, "matplotlib", matplotlib.__version__)
        return 0
    mod = importlib.import_module(f"rv.props.{prop.lower()}")
    return core.main(mod, argv)


if __name__ == "__main__":
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
