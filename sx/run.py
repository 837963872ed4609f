"""python3-vt -m sx.run <property> [--tier quick|thorough] [--only NAME] [-v]

Decides one property: explores its scenarios symbolically on the current /repo, replays witnesses and
counterexamples on the uninstrumented code under pieshell's own interpreter, writes evidence/<property>.json.
Exit status: 0 held on everything explored, 1 violation (reproduced), 2 nothing could be decided."""
import argparse
import fnmatch
import json
import multiprocessing
import os
import subprocess
import re
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sx import api, worker, load          # noqa: E402
from sx.engine import eng                 # noqa: E402

RUNTIME = load.RUNTIME if os.path.exists(load.RUNTIME) else sys.executable
OUT = os.path.join(HERE, "out")


def warm():
    """instrument everything once, before the workers are forked"""
    load.install()
    eng.mode = "sym"
    load.stdlib_dir()
    for name in load.STDLIB_MODULES:
        load.code_for(os.path.join(load.stdlib_dir(), name + ".py"), name)
    n = 0
    for d, ds, fs in os.walk(os.path.join(load.REPO, "pieshell")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, load.REPO)[:-3].replace("/", ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                try:
                    load.code_for(p, mod)
                    n += 1
                except SyntaxError:
                    pass
    import z3
    z3.Solver().check()
    return n


class Share(object):
    """the worker's end of handing subtrees to idle workers"""

    def __init__(self, conn, idle):
        self.conn = conn
        self.idle = idle
        self.t0 = time.time()

    def wanted(self):
        if time.time() - self.t0 < 0.3 or self.idle.value <= 0:
            return False
        with self.idle.get_lock():
            if self.idle.value <= 0:
                return False
            self.idle.value -= 1
        return True

    def give(self, prefix, values):
        self.conn.send(("job", prefix, values))


def child(conn, idle, sc, seconds, seed, prefix, values):
    try:
        r = worker.explore(sc, seconds, seed, prefix=prefix, prefix_values=values, share=Share(conn, idle))
    except BaseException as x:
        r = {"scenario": sc.name, "status": "error", "why": repr(x)}
    conn.send(("result", r))
    conn.close()
    os._exit(0)


RANK = {"ok": 0, "inconclusive": 1, "error": 2, "violation": 3}


def merge(sc, parts):
    """one result out of those of all the workers that had a part of the scenario"""
    out = dict(max(parts, key=lambda r: RANK[r["status"]]))
    stats, covered, functions = {}, {}, set()
    for r in parts:
        for k, v in r.get("stats", {}).items():
            stats[k] = max(stats.get(k, 0), v) if k == "max_depth" else stats.get(k, 0) + v
        for k, v in r.get("covered", {}).items():
            covered[k] = covered.get(k, 0) + v
        functions |= set(r.get("functions", []))
    out["stats"], out["covered"], out["functions"] = stats, covered, sorted(functions)
    samples = [s for i in range(3) for r in parts for s in r.get("samples", [])[i:i + 1]]
    out["samples"] = samples[:4]
    out["probes"] = [v for i in range(24) for r in parts for v in r.get("probes", [])[i:i + 1]][:24]
    out["wall_s"] = sum(r.get("wall_s", 0) for r in parts)
    out["workers"] = len(parts)
    out["missing"] = [c for c in sc.covers if c not in covered] if out["status"] == "ok" else []
    return out


def explore_all(scs, tier, seed, jobs, verbose):
    ctx = multiprocessing.get_context("fork")
    idle = ctx.Value("i", 0)
    t0 = time.time()
    total = float(os.environ.get("SX_TOTAL", 780 if tier == "quick" else 20000))
    todo = []
    pending, parts, deadline, started = {}, {}, {}, {}
    for sc in scs:
        todo.append((sc, (), None))
        pending[sc.name] = 1
        parts[sc.name] = []
        started[sc.name] = time.time()
    running = []
    results = {}
    while todo or running:
        while todo and len(running) < jobs:
            sc, prefix, values = todo.pop(0)
            if sc.name not in deadline:
                started[sc.name] = time.time()
                deadline[sc.name] = min(time.time() + (sc.budget or (400 if tier == "quick" else 4000)), t0 + total)
            if sc.name in results:
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, idle, sc, max(1, deadline[sc.name] - time.time()), seed, prefix, values))
            p.start()
            b.close()
            running.append((p, a, sc))
        rest = []
        progressed = False
        for p, a, sc in running:
            done = None
            try:
                while done is None and a.poll(0):
                    msg = a.recv()
                    if msg[0] == "job":
                        pending[sc.name] += 1
                        todo.append((sc, msg[1], msg[2]))
                        progressed = True
                    else:
                        done = msg[1]
            except EOFError:
                done = {"scenario": sc.name, "status": "error", "why": "worker died"}
            if done is None and time.time() > deadline[sc.name] + 60:
                p.kill()
                done = {"scenario": sc.name, "status": "inconclusive", "why": "time budget exhausted"}
            if done is None and sc.name in results:
                p.kill()
                p.join()
                continue
            if done is None:
                rest.append((p, a, sc))
                continue
            p.join()
            progressed = True
            if sc.name in results:
                continue
            pending[sc.name] -= 1
            parts[sc.name].append(done)
            if pending[sc.name] and done["status"] in ("ok", "inconclusive"):
                continue
            # finished, or decided already
            r = results[sc.name] = merge(sc, parts[sc.name])
            r["elapsed_s"] = time.time() - started[sc.name]
            todo = [x for x in todo if x[0].name != sc.name]
            if verbose:
                print("  %-36s %-12s %6.1fs cpu %6.1fs paths=%s queries=%s %s" % (
                    sc.name, r["status"], r["elapsed_s"], r.get("wall_s", 0), r.get("stats", {}).get("paths"),
                    r.get("stats", {}).get("queries"), (r.get("why") or "")[-400:] if r["status"] != "ok" else
                    ("MISSING " + str(r["missing"]) if r.get("missing") else "")))
                if r.get("violation"):
                    print("      ", r["violation"]["message"], r["violation"]["values"])
                sys.stdout.flush()
        running = rest
        with idle.get_lock():
            idle.value = max(0, jobs - len(running) - len(todo))
        if not progressed:
            time.sleep(0.01)
    return [results[s.name] for s in scs]


def replay(jobs, timeout=300):
    """runs concrete values on the plain code; list of results (None where the run did not come back)"""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        n = min(6, max(1, len(jobs) // 8))
        parts = [jobs[i::n] for i in range(n)]
        procs = []
        for i, part in enumerate(parts):
            fi, fo = os.path.join(d, "i%d" % i), os.path.join(d, "o%d" % i)
            with open(fi, "w") as f:
                json.dump(part, f)
            env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            with open(os.path.join(d, "e%d" % i), "w") as err:
                procs.append((subprocess.Popen([RUNTIME, "-m", "sx.replay", fi, fo], cwd=HERE, env=env, stdin=subprocess.DEVNULL,
                                               stdout=err, stderr=err), fo, part, i))
        out = [None] * len(jobs)
        end = time.time() + timeout
        for p, fo, part, i in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(fo):
                with open(fo) as f:
                    rs = json.load(f)
                for j, r in enumerate(rs):
                    out[i + j * n] = r
            else:
                with open(os.path.join(d, "e%d" % i)) as f:
                    sys.stderr.write(f.read()[-2000:])
        return out
    finally:
        subprocess.call(["rm", "-rf", d])


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    m = re.match(r'known: property=(\S+) scenario=(\S+) message="([^"]*)" (.*)', line)
                    out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    eng.tier = a.tier
    mod = worker.load_checks(a.prop)
    scs = [s for (p, n), s in api.SCENARIOS.items() if p == a.prop and (s.tier == "quick" or a.tier == "thorough")]
    if a.only:
        scs = [s for s in scs if fnmatch.fnmatch(s.name, a.only)]
    warm()
    results = explore_all(scs, a.tier, seed, a.jobs, a.v)

    # replays: witnesses of complete paths, and every counterexample
    jobs, refs = [], []
    for r in results:
        for s in r.get("samples", []):
            jobs.append({"prop": a.prop, "scenario": r["scenario"], "values": s["values"]})
            refs.append((r, s))
        if r.get("violation"):
            jobs.append({"prop": a.prop, "scenario": r["scenario"], "values": r["violation"]["values"]})
            refs.append((r, None))
        else:
            # what could not be decided is at least tried out
            for v in r.get("probes", []):
                jobs.append({"prop": a.prop, "scenario": r["scenario"], "values": v})
                refs.append((r, "probe"))
    outs = replay(jobs)
    validated = disagreements = 0
    known = known_findings()
    violations, knowns, undecided = [], [], []
    for (r, s), o, j in zip(refs, outs, jobs):
        if s is not None and o is not None and o["status"] == "violation":
            # the real code breaks the property for these values
            v = {"message": o.get("message") or "", "values": j["values"]}
            k = [x for x in known if x[0] == a.prop and x[1] == r["scenario"] and v["message"].startswith(x[2])]
            if k:
                if not any(x[0] is r for x in knowns):
                    knowns.append((r, k[0]))
            elif not any(x[0] is r for x in violations):
                violations.append((r, v, j))
            continue
        if s == "probe":
            continue
        if s is not None:
            if o is not None and o["status"] == "ok" and o["notes"] == s["notes"]:
                validated += 1
            else:
                disagreements += 1
                r["disagreement"] = {"values": s["values"], "symbolic": s["notes"], "concrete": o}
                undecided.append("%s: a path witness behaves differently on the plain code: %s" % (
                    r["scenario"], json.dumps(r["disagreement"])[:1500]))
            continue
        v = r["violation"]
        if o is not None and o["status"] == "violation":
            v["confirmed"] = o.get("message")
            k = [x for x in known if x[0] == a.prop and x[1] == r["scenario"] and v["message"].startswith(x[2])]
            if k:
                knowns.append((r, k[0]))
            else:
                violations.append((r, v, j))
        else:
            undecided.append("%s: counterexample not reproduced on the plain code: %s %s -> %s" % (
                r["scenario"], v["message"], json.dumps(v["values"])[:800], json.dumps(o)[:800]))
    for r in results:
        if r["status"] in ("inconclusive", "error"):
            undecided.append("%s: %s: %s" % (r["scenario"], r["status"], r.get("why")))
        elif r["status"] == "ok" and r.get("missing"):
            undecided.append("%s: not reached: %s" % (r["scenario"], r["missing"]))

    os.makedirs(OUT, exist_ok=True)
    for r, k in knowns:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, k[3], r["scenario"]))
    for i, (r, v, j) in enumerate(violations):
        path = os.path.join(OUT, "%s-%s.json" % (a.prop, r["scenario"]))
        with open(path, "w") as f:
            json.dump({"prop": a.prop, "scenario": r["scenario"], "values": j["values"], "message": v["message"],
                       "run": "cd %s && PYTHONPATH=. %s -m sx.replay %s" % (HERE, RUNTIME, path)}, f, indent=1)
        print("%s: %s" % (r["scenario"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    for u in undecided:
        print("UNDECIDED " + u[:200] + (" ... " + u[-400:] if len(u) > 600 else u[200:]))

    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_depth" else tot.get(k, 0) + v
    functions = sorted(set(f for r in results for f in r.get("functions", [])))
    ok = [r for r in results if r["status"] == "ok" and not r.get("missing")]
    sample = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            sample.append({"scenario": r["scenario"], "inputs": s["values"], "observed": s["notes"]})
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("decisions", 0) + tot.get("paths", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": validated,
            "samples": sample[:12],
            "paths": tot.get("paths", 0),
            "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
            "obligations_decided_without_query": tot.get("concrete_asserts", 0),
            "solver_queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0), 2),
            "symbolic_worlds": tot.get("worlds", 0), "max_branch_depth": tot.get("max_depth", 0),
            "witness_disagreements": disagreements,
            "functions_encoded": functions,
            "scenarios": [{"name": r["scenario"], "bounds": r.get("bounds"), "status": r["status"],
                           "paths": r.get("stats", {}).get("paths"), "queries": r.get("stats", {}).get("queries"),
                           "wall_s": round(r.get("wall_s", 0), 2), "reached": r.get("covered")} for r in results],
            "undecided": [u[:400] for u in undecided],
            "exhaustive": not undecided,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "the operating system, the event loop's selector and the started programs are the models in sx/simos.py and sx/simloop.py",
            "bounds as listed per scenario; nothing is claimed outside them"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d decided, %d paths, %d queries (%.1f s in the solver), %d obligations, "
          "%d witnesses replayed, %d violations, %d known, %d undecided, %.1f s" % (
              a.prop, a.tier, len(results), len(ok), tot.get("paths", 0), tot.get("queries", 0),
              tot.get("solver_s", 0), tot.get("obligations", 0), validated, len(violations), len(knowns),
              len(undecided), time.time() - t0))
    sys.stdout.flush()
    if violations:
        return 1
    if undecided and not ok:
        return 2
    if undecided:
        return 3 if os.environ.get("SX_STRICT") else 0
    return 0


if __name__ == "__main__":
    sys.exit(main())
