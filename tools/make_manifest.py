"""Writes /verif/MANIFEST.json from the properties and the check modules that exist."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("a pure function of its input tables: no concurrency, time, I/O, crash or multi-party behaviour for simulation and "
        "fault injection to act on, so this family of technique cannot decide it")
NOTE = ("Seeded simulation of the real code: held on every explored run (seeds x schedules x fault plans); not exhaustive. "
        "Trusts the simulated seams (files, clock, randomness, S3) listed in the evidence and the reference runs it compares with.")
checks, na = [], []
for p in props:
    f = os.path.join(V, "sim", "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "deterministic simulation with seeded fault injection",
                       "level": "exploration", "level_note": NOTE})
    elif p["id"].startswith("N"):
        na.append({"property": p["id"], "reason": PURE})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is reached from outside (files, clock, randomness, S3 client, bytecode line events)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
