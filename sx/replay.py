"""Runs scenarios on given concrete values against the uninstrumented code.

python -m sx.replay FILE     FILE: JSON list of {"prop", "scenario", "values"}; prints a JSON list of results.
Meant for the interpreter pieshell is used with; needs neither z3 nor the instrumentation."""
import json
import sys
import traceback


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    if isinstance(jobs, dict):
        jobs = [jobs]
    from .engine import eng
    from . import load, api, worker
    load.install()
    out = []
    for j in jobs:
        worker.load_checks(j["prop"])
        sc = api.SCENARIOS[(j["prop"], j["scenario"])]
        eng.reset_stats()
        r = {}
        try:
            r["status"] = eng.run_concrete(sc.harness, j["values"])
            r["notes"] = worker.notes_of(eng.root)
            if eng.violation is not None:
                r["message"] = eng.violation["message"]
        except BaseException as x:
            if isinstance(x, KeyboardInterrupt):
                raise
            r["status"] = "error"
            r["why"] = "".join(traceback.format_exception(type(x), x, x.__traceback__))[-3000:]
        out.append(r)
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)
    else:
        for j, r in zip(jobs, out):
            print(j["prop"], j["scenario"], r["status"], r.get("message", ""), r.get("why", ""))
        sys.stdout.flush()
        import os
        os._exit(1 if any(r["status"] == "violation" for r in out) else 0)


if __name__ == "__main__":
    main()
