"""Plants bugs: builds seeded/<id>/ from a spec module and confirms everything about it in a scratch copy.

usage: plant.py SPEC.py [ID ...] [--checks C01,C02]   (SPEC defines BUGS = [dict(id, prop, edits, needs, breaks, demo), ...])
edits: [(file below deltares_wave_toolbox, function or "", old, new), ...].  Never touches /repo.
"""
import ast
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PKG = "deltares_wave_toolbox"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=dict(ENV, **kw))


def span(s, fn):
    """Character range of function, method (Class.name) or "" (whole file)."""
    if not fn:
        return 0, len(s)
    node = ast.parse(s)
    for part in fn.split("."):
        node = next(n for n in node.body if getattr(n, "name", None) == part)
    body = node.body
    start = body[1].lineno if isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant) and len(body) > 1 else node.lineno
    off = [0]
    for q in s.splitlines(True):
        off.append(off[-1] + len(q))
    return off[start - 1], off[node.end_lineno]


def plant(b, checks):
    d = f"/tmp/plant/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"cp -a /repo {d}", "/")
    sh("git checkout -q -- . && git clean -fdxq -e .venv", d)
    try:
        for f, fn, old, new in b["edits"]:
            p = os.path.join(d, PKG, f)
            s = open(p).read()
            a, z = span(s, fn)
            n = s[a:z].count(old)
            if n != 1:
                return f"{b['id']}: text occurs {n} times in {f}:{fn}: {old!r}"
            open(p, "w").write(s[:a] + s[a:z].replace(old, new) + s[z:])
        patch = sh("git diff", d).stdout
        # only lines of the original repository may go
        mine = sh("git log --format=%h --abbrev=40 --grep=^fix: ", d).stdout.split()
        for f in {e[0] for e in b["edits"]}:
            rem, ln = [], 0
            for q in sh(f"git diff -U0 -- {PKG}/{f}", d).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", q)
                if m:
                    a, k = int(m[1]), int(m[2] or 1)
                    rem += range(a, a + k)
            bl = sh(f"git blame -s --abbrev=40 HEAD -- {PKG}/{f}", d).stdout.splitlines()
            orig = [i for i in rem if bl[i - 1].lstrip("^")[:40].strip() not in {m[:40] for m in mine} and not any(bl[i - 1].lstrip("^").startswith(m[:39]) for m in mine)]
            if not orig:
                return f"{b['id']}: REJECTED {f}: removes only lines of fix commits or none"
            elif len(orig) < len(rem):
                print(f"  note {b['id']}: {f}: {len(rem) - len(orig)} of {len(rem)} removed lines come from fix commits")
        s = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        open(s + "/patch.diff", "w").write(patch)
        open(s + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(s + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        bad = []
        r = sh(f"{s}/demo.sh", "/repo", 300)
        if r.returncode:
            bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:])
        r = sh(f"{s}/demo.sh", d, 300)
        if not r.returncode:
            bad.append("demo passes with the patch")
        else:
            last = (r.stdout + r.stderr).strip().splitlines()[-1:]
            if not any("Assert" in q for q in last):
                print(f"  note {b['id']}: demo ends with {last}")
        r = sh(f"{PY} -m pytest -q -p no:cacheprovider -x", d, PYTHONPATH=d)
        if r.returncode:
            bad.append("tests fail: " + r.stdout[-300:])
        if bad:
            shutil.rmtree(s)
            return f"{b['id']}: REJECTED {bad}"
        out = []
        for c in checks or [b["prop"]]:
            r = sh(f"./check {c}", V, 900, RV_REPO=d)
            v = [q.strip() for q in r.stdout.splitlines() if q.strip().startswith("clause")]
            out.append(f"{c}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'INCONCLUSIVE'} {v[0][:110] if v else ''}")
        return f"{b['id']}: " + "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    args = sys.argv[2:]
    checks = []
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        args = args[:i]
    for b in m.BUGS:
        if not args or b["id"] in args:
            print(plant(b, checks), flush=True)


main()
