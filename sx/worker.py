"""Explores one scenario (in its own process) and reports what was found."""
import json
import sys
import time
import traceback

from .engine import eng


def load_checks(prop):
    import importlib
    return importlib.import_module("checks." + prop.lower())


def plain(x):
    """JSON-able rendering of an observed value"""
    if isinstance(x, (bool, type(None), str)):
        return x if not isinstance(x, str) else ["s"] + [ord(c) for c in x]
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (bytes, bytearray)):
        return ["b"] + list(x)
    if isinstance(x, (list, tuple)):
        return ["l"] + [plain(v) for v in x]
    if isinstance(x, dict):
        return ["d"] + [[plain(k), plain(v)] for k, v in x.items()]
    return ["o", type(x).__name__]


def notes_of(world, model=None):
    out = []
    for k, v in world.data.get("notes", []):
        if model is not None:
            from .values import evaluate
            v = evaluate(v, model)
        out.append([k, plain(v)])
    return out


def explore(sc, seconds, seed=1, nsamples=3, prefix=(), prefix_values=None, share=None):
    """runs in a worker process"""
    from . import load
    import random
    load.install()
    rnd = random.Random("%s/%s/%s" % (seed, sc.prop, sc.name))
    eng.reset_stats()
    t0 = time.time()
    samples = []
    seen = [0]

    def on_path(e, world):
        seen[0] += 1
        if len(samples) < nsamples:
            i = len(samples)
        else:
            i = rnd.randrange(seen[0])
            if i >= nsamples:
                return
        values = e.path_values()
        # the model has to stay the same one for values and notes
        s = {"values": values, "notes": notes_of(world, e.model)}
        if i < len(samples):
            samples[i] = s
        else:
            samples.append(s)
    res = {"scenario": sc.name, "bounds": sc.bounds, "finding": sc.finding}
    probes = []
    try:
        res["status"] = eng.explore(sc.harness, deadline=t0 + seconds, on_path=on_path, prefix=prefix,
                                   prefix_values=prefix_values, share=share, on_undecided=probes.append)
        res["why"] = eng.why
    except BaseException as x:
        if isinstance(x, KeyboardInterrupt):
            raise
        res["status"] = "error"
        res["why"] = "".join(traceback.format_exception(type(x), x, x.__traceback__))[-3000:]
    res["wall_s"] = time.time() - t0
    res["stats"] = eng.stats
    res["functions"] = sorted(eng.functions)
    res["covered"] = eng.covered
    res["samples"] = samples
    res["probes"] = probes
    res["violation"] = eng.violation
    if eng.violation is not None:
        res["violation"]["notes"] = []
    return res
