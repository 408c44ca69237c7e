"""Rewrites the generated tables of DESIGN.md (planted bugs; workloads) between their markers."""
import ast
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def put(text, name, body):
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body.rstrip() + "\n" + text[j:]


rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
work = ["| property | workload: cases quick / thorough |", "|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "rv", "props", "c*.py"))):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "WORKLOADS":
            cells = []
            for k, v in zip(n.value.keys, n.value.values):
                cells.append(f"{k.value}: {ast.unparse(v.elts[1])} / {ast.unparse(v.elts[2])}")
            work.append(f"| {os.path.basename(f)[:3].upper()} | {'; '.join(cells)} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = put(s, "bugs", "\n".join(rows))
s = put(s, "workloads", "\n".join(work))
s = re.sub(r"\b\d+ planted bugs are kept", f"{len(rows) - 2} planted bugs are kept", s)
open(p, "w").write(s)
