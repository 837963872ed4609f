#!/usr/bin/env python3
"""Writes BOUNDS.md: every scenario of every check with its bounds (run with python3-vt from /verif)."""
import glob, importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sx import api
out = ["# Scenarios and their bounds", "", "Written by `python3-vt tools/mkbounds.py` from the checks. Everything within a scenario's bounds is",
       "decided; nothing is claimed outside of them. The thorough tier runs both kinds.", ""]
for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
    m = importlib.import_module("checks." + os.path.basename(f)[:-3])
    p = os.path.basename(f)[:-3].upper()
    out.append("## " + m.__doc__.strip().splitlines()[0])
    out.append("")
    for tier in ("quick", "thorough"):
        for (prop, name), s in api.SCENARIOS.items():
            if prop == p and s.tier == tier:
                out.append("- %s%s: %s" % (name, "" if tier == "quick" else " (thorough)", " ".join(s.bounds.split())))
    out.append("")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
        out.append("")
open(os.path.join(HERE, "BOUNDS.md"), "w").write("\n".join(out))
