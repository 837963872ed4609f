#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
}
TECH = "symbolic execution of the real source (path exploration by re-execution, z3 decides branches and assertions) on a modelled kernel; counterexamples and witnesses replayed on the plain code under PyPy"
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i,
            "quick_cmd": "python3-vt -m sx.run %s --tier quick" % i,
            "thorough_cmd": "python3-vt -m sx.run %s --tier thorough" % i,
            "technique": TECH, "level": "model_checking",
            "level_note": NOTES.get(i, "bounded: see the scenarios and bounds in the evidence; the system calls are a model")})
    else:
        na.append({"property": i, "reason": "no check yet (work in progress)"})
m = {"version": 1, "setup_cmd": "true",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
