"""Mutation campaign: which small changes of the package pass its tests and are not noticed by any relevant check?

usage: mutate.py OUT.jsonl [--workers 4] [--files a.py,b.py] [--sample N] [--seed N] [--scale 0.4] [--all]
Scratch copies live in /tmp/mut/<k>; /repo is never touched.  Results: one JSON line per mutant with
status tests | caught | SURVIVED | broken.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PKG = "deltares_wave_toolbox"
FILES = ["cores/core_dispersion.py", "cores/core_engine.py", "cores/core_spectral.py", "cores/core_time.py",
         "cores/core_wave_decomposition.py", "cores/core_wavefunctions.py", "series.py", "spectrum.py"]
REL = {
    "cores/core_dispersion.py": "C17 C23 C18 C29 C35 C32 C34",
    "cores/core_engine.py": "C23 C24 C11 C28 C01 C12 C35 C32 C34",
    "cores/core_spectral.py": "C01 C02 C03 C04 C05 C06 C20 C27 C24 C28 C23 C22 C35 C32 C34",
    "cores/core_time.py": "C07 C08 C09 C30 C24 C28 C23 C35 C32 C34",
    "cores/core_wave_decomposition.py": "C18 C19 C24 C29 C28 C35 C32 C34",
    "cores/core_wavefunctions.py": "C11 C12 C13 C16 C21 C24 C28 C29 C23 C35 C32 C34",
    "series.py": "C09 C26 C04 C25 C30 C08 C10 C05 C24 C28 C23 C27 C35 C32 C34",
    "spectrum.py": "C12 C13 C14 C15 C11 C25 C24 C27 C28 C23 C35 C32 C34",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
CALLS = {"max": "min", "min": "max", "floor": "ceil", "ceil": "floor", "round": "floor", "argmin": "argmax", "argmax": "argmin",
         "mean": "median", "sum": "mean", "conj": "real", "real": "abs", "imag": "real", "flatten": "ravel", "deepcopy": None, "isnan": "isfinite",
         "cos": "sin", "sin": "cos", "all": "any", "any": "all", "var": "std", "flipud": "array", "simpson": "trapezoid", "atleast_1d": "asarray"}


class Mut(ast.NodeTransformer):
    """Applies (or only counts) the k-th mutation."""

    def __init__(self, k=None):
        self.k, self.n, self.where, self.what = k, 0, None, None
        self.fn = []

    def hit(self, node, what):
        i = self.n
        self.n += 1
        if i == self.k:
            self.where, self.what = getattr(node, "lineno", 0), ".".join(self.fn) + ": " + what
            return True
        return False

    def generic_body(self, node):
        self.fn.append(node.name)
        b = node.body
        doc = []
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            doc, b = b[:1], b[1:]
        if isinstance(node, ast.FunctionDef):
            for i, d in enumerate(node.args.defaults):
                node.args.defaults[i] = self.visit(d)
        node.body = doc + [q for s in b for q in self.stmt(s)]
        self.fn.pop()
        return node

    visit_FunctionDef = generic_body
    visit_ClassDef = generic_body

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise)) and self.fn:
            if self.hit(s, "delete statement " + ast.unparse(s)[:70]):
                return [ast.copy_location(ast.Pass(), s)]
        s = self.visit(s)
        return s if isinstance(s, list) else [s]

    def body(self, stmts):
        return [q for s in stmts for q in self.stmt(s)]

    def visit_If(self, node):
        if self.hit(node, "condition true " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(True), node.test)
            return node
        if self.hit(node, "condition false " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(False), node.test)
            return node
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self.body(node.body)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        return node

    def visit_AnnAssign(self, node):
        return node

    def visit_Raise(self, node):
        return node

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        return node

    def visit_Compare(self, node):
        for i, o in enumerate(node.ops):
            for alt in CMP.get(type(o), []):
                if self.hit(node, f"{ast.unparse(node)[:60]} -> {alt.__name__}"):
                    node.ops[i] = alt()
                    return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.hit(node, "and/or swapped in " + ast.unparse(node)[:60]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        for i in range(len(node.values)):
            if self.hit(node, f"operand {i} dropped in " + ast.unparse(node)[:60]):
                node.values.pop(i)
                return node.values[0] if len(node.values) == 1 else node
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not) and self.hit(node, "not removed"):
            return node.operand
        if isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant) and self.hit(node, "minus removed " + ast.unparse(node)[:50]):
            return node.operand
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        for alt in BIN.get(type(node.op), []):
            if self.hit(node, f"{ast.unparse(node)[:60]} -> {alt.__name__}"):
                node.op = alt()
                return node
        if isinstance(node.op, (ast.Add, ast.Sub)) and isinstance(node.right, ast.Constant):
            if self.hit(node, f"constant term dropped in {ast.unparse(node)[:60]}"):
                return self.generic_visit(node).left
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, f"{v} -> {not v}"):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, int):
            for d in (1, -1):
                if self.hit(node, f"{v} -> {v + d}"):
                    return ast.copy_location(ast.Constant(v + d), node)
        elif isinstance(v, float):
            for m in (1.02, 10.0):
                if self.hit(node, f"{v} -> {v * m if v else m - 1}"):
                    return ast.copy_location(ast.Constant(v * m if v else m - 1), node)
        return node

    def visit_Subscript(self, node):
        s = node.slice
        if isinstance(s, ast.Slice):
            if s.lower is not None and self.hit(node, "lower bound dropped " + ast.unparse(node)):
                s.lower = None
                return node
            if s.upper is not None and self.hit(node, "upper bound dropped " + ast.unparse(node)):
                s.upper = None
                return node
            if s.upper is not None and self.hit(node, "upper bound - 1 " + ast.unparse(node)):
                s.upper = ast.BinOp(s.upper, ast.Sub(), ast.Constant(1))
                return node
        elif isinstance(s, ast.Constant) and s.value == 0 and self.hit(node, "[0] -> [-1] in " + ast.unparse(node)[:60]):
            node.slice = ast.Constant(-1)
            return node
        return self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        alt = CALLS.get(nm)
        if alt and self.hit(node, f"{nm} -> {alt} in {ast.unparse(node)[:60]}"):
            if isinstance(f, ast.Attribute):
                f.attr = alt
            else:
                f.id = alt
            return node
        if nm in ("abs", "float", "int", "sign", "lower", "deepcopy", "copy", "sort") and node.args and self.hit(node, f"{nm}() dropped in {ast.unparse(node)[:60]}"):
            return node.args[0]
        for i, k in enumerate(node.keywords):
            if self.hit(node, f"keyword {k.arg} dropped in {ast.unparse(node)[:60]}"):
                node.keywords.pop(i)
                return node
        if len(node.args) > 1 and self.hit(node, f"last argument dropped in {ast.unparse(node)[:70]}"):
            node.args.pop()
            return node
        if len(node.args) > 1 and self.hit(node, f"last two arguments swapped in {ast.unparse(node)[:70]}"):
            node.args[-1], node.args[-2] = node.args[-2], node.args[-1]
            return node
        return self.generic_visit(node)


def mutants(f):
    src = open(f"/repo/{PKG}/{f}").read()
    tree = ast.parse(src)
    m = Mut()
    m.visit(copy.deepcopy(tree))
    for k in range(m.n):
        t = copy.deepcopy(tree)
        q = Mut(k)
        t = ast.fix_missing_locations(q.visit(t))
        try:
            yield {"file": f, "line": q.where, "what": q.what, "k": k}, ast.unparse(t)
        except Exception as e:  # noqa: BLE001
            print("skip", f, k, e, file=sys.stderr)


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None


def worker(k, q, out, a):
    d = f"/tmp/mut/{os.getpid()}"
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    try:
        while True:
            job = q.get()
            if job is None:
                return
            meta, text = job
            p = f"{d}/{PKG}/{meta['file']}"
            open(p, "w").write(text)
            r = sh(f"{PY} -m pytest -q -p no:cacheprovider -x", d, 120, PYTHONPATH=d)
            if r is None or r.returncode:
                meta["status"] = "tests"
            else:
                meta["status"] = "SURVIVED"
                meta["by"] = []
                for c in REL[meta["file"]].split():
                    r = sh(f"timeout 300 ./check {c} --procs {a.procs} --scale {a.scale}", a.verif, 400, RV_REPO=d)
                    if r is not None and r.returncode == 1:
                        meta["status"], meta["by"] = "caught", [c]
                        break
                    if r is None or r.returncode:
                        meta["by"].append(f"{c}:{r.returncode if r else 'timeout'}")
            shutil.copy(f"/repo/{PKG}/{meta['file']}", p)
            out.put(meta)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--procs", type=int, default=2)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--scale", type=float, default=0.4)
    ap.add_argument("--verif", default=V)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    jobs = [j for f in a.files.split(",") for j in mutants(f)]
    done = set()
    if os.path.exists(a.out):
        done = {(m["file"], m["k"]) for m in map(json.loads, open(a.out))}
    jobs = [j for j in jobs if (j[0]["file"], j[0]["k"]) not in done]
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    print(len(jobs), "mutants", flush=True)
    if a.count:
        return
    q, out = mp.Queue(), mp.Queue()
    for j in jobs:
        q.put(j)
    for _ in range(a.workers):
        q.put(None)
    ps = [mp.Process(target=worker, args=(k, q, out, a)) for k in range(a.workers)]
    for p in ps:
        p.start()
    with open(a.out, "a") as fh:
        for _ in jobs:
            m = out.get()
            fh.write(json.dumps(m) + "\n")
            fh.flush()
    for p in ps:
        p.join()


if __name__ == "__main__":
    main()
