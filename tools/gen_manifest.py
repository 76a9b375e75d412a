import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "check"))
import jobs

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "solver-based symbolic execution of the real code's LLVM IR (KLEE-style executor, z3)"
checks = []
for p in props:
    i = p["id"]
    q = jobs.jobs(i, "quick", 1)[1]
    t = jobs.jobs(i, "thorough", 1)[1]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check/run.py %s quick" % i,
        "thorough_cmd": "python3 check/run.py %s thorough" % i,
        "technique": TECH,
        "level": "model_checking",
        "level_note": "Holds for all values of the symbolic inputs within these bounds, and says nothing outside them. Quick: %s. "
                      "Thorough: %s. Assumes an ideal SHA-256 (injective, never zero), successful allocation and a single thread; "
                      "counterexamples are replayed natively with real SHA-256 before they are reported." % (q, t),
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash check/setup.sh",
    "checks": checks,
    "not_applicable": [],
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
