#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing them)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
from props import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())
LEVEL = ("Seeded search over simulated executions of the real code: every thread interleaving, delay and fault is decided by the simulator, one seed is one repeatable run. "
         "A clean batch is evidence over the runs counted in the evidence file, not a proof. ")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    if p["id"] in PROPS:
        c = PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection: " + c["technique"],
                       "level": "exploration", "level_note": LEVEL + c["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the sources are recompiled from the working tree with compiler-inserted access hooks and their libc calls are redirected at link level, see DESIGN.md. "
              "Replay: python3 check.py --replay FILE."}
miss = [p["id"] for p in P if p["id"] not in PROPS and p["id"] not in [x["property"] for x in NA]]
if miss:
    print("unclaimed and not listed: %s" % miss)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in P:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok, %d properties, %d checks" % (len(P), len(checks)))
except ImportError:
    pass
