"""Regenerates MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C10": "runtime monitoring: history monitor comparing every answer of a used object with a fresh one and a reference set of waves",
    "C15": "runtime monitoring: history monitor comparing every answer and attribute with a fresh object and a reference model",
    "C22": "runtime monitoring: sanitizer-style guards (frozen inputs, digests, global-state snapshots, audit hook) around recorded calls",
    "C23": "runtime monitoring: container/dtype differential monitor on recorded calls of the real code",
    "C29": "runtime monitoring: metamorphic (scaling, shifting) monitor on recorded calls of the real code",
    "C30": "runtime monitoring: history monitor with a reference model of the selected waves",
    "C31": "runtime monitoring: race monitor - seeded line-level thread schedules and free-running threads, every result compared with the call alone",
    "C32": "runtime monitoring: metamorphic (mirror image) monitor on recorded calls of the real code",
    "C33": "runtime monitoring: fresh interpreters under an audit hook with process-state snapshots, results compared across environments",
    "C34": "runtime monitoring: metamorphic (cutting, changing elsewhere, pooling) monitor on recorded calls of the real code",
    "C35": "runtime monitoring: differential monitor over all ways of putting the same call",
    "C36": "runtime monitoring: resource monitor (allocation tracer, weak references, process tables) over long histories",
    "C37": "runtime monitoring: fault injection (failing calls, strict settings, interrupts at every line) with global-state guards and a twin as oracle",
    "C28": "runtime monitoring: numeric sanitizer (finiteness, shape, sign, CPU budget) on recorded calls",
}
DEF = "runtime monitoring: recorded calls of the real code judged by an independent reference-model oracle"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(V, "rv", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "monitor not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, DEF),
        "level": "exploration",
        "level_note": "Held on every execution the monitors observed (counts and situations in the evidence file); trusts numpy, "
                      "scipy and the reference models in rv/refs.py, and says nothing about inputs not driven.",
    })
doc = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every monitor observes the package from outside its public boundary."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1)
    fh.write("\n")
