"""C23  The job list holds exactly the pipelines that have not finished."""
import asyncio

from sx.api import *

ASSUMPTIONS = ["the event loop gets to run (a list is not brought up to date while the user's code never returns to the loop)"]


class Job(object):
    def __init__(self, kind, rp, env, pids):
        self.kind = kind
        self.rp = rp
        self.env = env
        self.pids = pids            # of the programs that are part of it
        self.parts = []             # other jobs it waits for


def make(t, kind, n, env, jobs):
    """a pipeline of some kind"""
    names = ["p%d%s" % (n, x) for x in "ab"]
    for x in names:
        t.prog(x, forever)
    a, b = env._(names[0]), env._(names[1])
    if kind == "program":
        return a
    if kind == "pipe":
        return a | b
    if kind == "group":
        return a + b
    if kind == "captured":
        return a | t.redir.Redirect(1, t.redir.STRING)
    if kind == "argument":
        return env._(names[0], b)
    if kind == "function":
        async def f(stdin):
            async for line in stdin:
                yield line
        return a | f
    if kind == "function first":
        async def f(stdin):
            yield "line"
        return f | a
    if kind == "iterator first":
        return iter(["line"]) | a | b
    if kind == "function in a group":
        async def f(stdin):
            yield "line"
        return t.mod("pipeline.function").Function(env, f) + a
    if kind == "failing function":
        async def f(stdin):
            async for line in stdin:
                yield line
            raise ValueError("function")
        return a | f
    if kind == "quick":
        t.prog(names[0], exits(0))
        return a
    if kind == "quick failing":
        t.prog(names[0], exits(1))
        return a
    if kind == "only function":
        return t.mod("pipeline.function").Function(env, iter(["x"]))
    if kind == "missing":
        t.k.programs.pop(names[0])
        return a
    if kind == "cd":
        return env.cd("/w")
    if kind == "cache":
        return env.clear_dir_cache
    if kind == "fg":
        return env.fg(jobs[-1].rp)
    raise AssertionError(kind)


NOTHING = ("cd", "cache", "bg")


def start(t, kind, n, env, jobs):
    before = len(t.k.procs)
    pids = set(t.k.procs)
    pl = t.call(lambda: make(t, kind, n, env, jobs), "building a pipeline")
    rp = t.call(lambda: pl.run(), "starting a pipeline")
    job = Job(kind, rp, env, [p for p in t.k.procs if p not in pids])
    if kind == "fg":
        job.parts = [jobs[-1]]
    jobs.append(job)
    return job


def alive(t, job):
    """something of it is still to end"""
    return any(t.k.procs[p].state in ("run", "stop") for p in job.pids) or any(alive(t, j) for j in job.parts)


def check(t, jobs, settled, envs):
    for e in envs:
        listed = list(e.running_pipelines)
        for i, rp in enumerate(listed):
            t.prove(not any(rp is x for x in listed[:i]), "a pipeline is listed twice")
            mine = [j for j in jobs if j.rp is rp]
            t.prove(len(mine) == 1, "something else is listed")
            j = mine[0]
            t.prove(j.env is e, "a pipeline is listed in another environment")
            t.prove(j.kind not in NOTHING, "a pipeline that has nothing to run is listed")
            if settled:
                t.prove(alive(t, j), "a pipeline that has ended is listed")
        for j in jobs:
            if j.env is e and j.kind not in NOTHING and alive(t, j):
                t.prove(any(j.rp is x for x in listed), "a pipeline that has not ended is not listed")
                t.cover("listed")
        mine = [j for j in jobs if j.env is e and j.kind not in NOTHING]
        last = e.__dict__.get("last_pipeline")
        t.prove(last is (mine[-1].rp if mine else None), "the last pipeline is another one")
    for j in jobs:
        if settled and not alive(t, j):
            t.prove(not j.rp.is_running, "a pipeline that has ended is running")
            t.cover("ended")


def history(t, length, npipes, kinds, nenvs, stops=True, manager="signalfd"):
    """Any history of pipelines that start and end."""
    t.boot(signalfd=(manager == "signalfd"))
    envs = [t.env]
    if nenvs > 1:
        envs.append(t.call(lambda: t.env(), "copying the environment"))
    jobs = []
    for i in range(length):
        pids = [p for j in jobs for p in j.pids if t.k.procs[p].state in ("run", "stop")]
        actions = ["settle"] + [("end", p) for p in pids] + ([("stop", p) for p in pids] if stops else [])
        if len(jobs) < npipes:
            actions += [("start", k) for k in kinds if k != "fg" or jobs and jobs[-1].kind not in NOTHING]
        a = t.pick("do%d" % i, actions)
        if a == "settle":
            t.settle()
        elif a[0] == "start":
            start(t, a[1], len(jobs), envs[t.choose("env%d" % i, nenvs)] if a[1] != "fg" else jobs[-1].env, jobs)
        elif a[0] == "end":
            status = t.int("status%d" % i, 0, 255)
            t.k.finish(t.k.procs[a[1]], status * 256)
        else:
            p = t.k.procs[a[1]]
            t.k.signal_proc(p, 18 if p.state == "stop" else 19)
            t.cover("stopped")
        check(t, jobs, a == "settle", envs)
    t.settle()
    check(t, jobs, True, envs)


MAIN = ["program", "pipe", "function", "quick", "cd"]
ALL = ["program", "pipe", "group", "captured", "argument", "function", "function first", "iterator first", "function in a group", "failing function", "quick", "quick failing", "only function", "missing", "cd",
       "cache", "fg"]
scenario("C23", "one", args=(5, 1, ALL, 1), covers=["listed", "ended", "stopped"],
         bounds="one pipeline of 16 kinds, 5 events (start, a stage ends or is stopped, the loop runs)")(history)
scenario("C23", "two", args=(5, 2, ["program", "pipe", "function", "cd", "fg"], 1, False), covers=["listed", "ended"],
         bounds="two pipelines of 5 kinds, 5 events")(history)
scenario("C23", "environments", args=(5, 2, ["program", "cd"], 2, False), covers=["listed", "ended"],
         bounds="two pipelines in two environments, 5 events")(history)
scenario("C23", "three", args=(6, 3, ["program"], 1, False, "asyncio"), covers=["listed", "ended"],
         bounds="three programs, 6 events, without signalfd")(history)
scenario("C23", "two_deep", args=(7, 2, ALL, 1, False), covers=["listed", "ended"], tier="thorough", bounds="two pipelines of 16 kinds, 7 events")(history)
scenario("C23", "three_deep", args=(7, 3, ["program", "function", "cd"], 2, True), covers=["listed", "ended"], tier="thorough",
         bounds="three pipelines of 3 kinds in two environments, 7 events")(history)


def listed(t, rp):
    return any(x is rp for x in t.env.running_pipelines)


def waits(t, nwaits, kinds, interactive):
    """When a wait returns the pipeline is not listed any more, whenever the wait was started."""
    t.boot(interactive=interactive)
    jobs = []
    job = start(t, t.pick("kind", kinds), 0, t.env, jobs)
    k = t.k
    log = []

    async def waiter():
        try:
            await job.rp.wait()
        except Exception as e:
            if not isinstance(e, t.running.PipelineError):
                raise
        log.append(listed(t, job.rp))
        k.check_wait = True
    tasks = []
    pids = list(job.pids)
    # the ends of the programs and the starts of the waits in any order, with the loop running in between or not
    events = ["end"] * len(pids) + ["wait"] * nwaits
    i = 0
    while events:
        e = t.pick("event%d" % i, sorted(set(events)))
        events.remove(e)
        if e == "end":
            p = pids.pop(t.choose("pid%d" % i, len(pids)))
            if k.procs[p].state == "run":
                k.finish(k.procs[p], t.int("status%d" % i, 0, 255) * 256)
        else:
            tasks.append(t.loop.create_task(waiter()))
        n = t.choose("spins%d" % i, 3)
        if n == 2:
            t.settle()
        elif n:
            t.spin(1)
        check(t, jobs, n == 2, [t.env])
        i += 1
    t.settle()
    for x in tasks:
        t.prove(x.done(), "a wait does not end")
        t.prove(x.exception() is None, "a wait raises %s" % type(x.exception()).__name__)
    t.prove(len(log) == nwaits, "a wait does not end")
    for x in log:
        t.prove(not x, "a pipeline is still listed when a wait for it returns")
        t.cover("waited")
    check(t, jobs, True, [t.env])


scenario("C23", "waits", args=(2, ["program", "pipe", "function", "failing function", "captured"], False), covers=["waited"],
         bounds="two waits for a pipeline of 5 kinds, before and after its programs end, in any order")(waits)
scenario("C23", "waits_interactive", args=(1, ["program", "pipe", "captured"], True), covers=["waited"],
         bounds="a wait for a pipeline of 3 kinds in an interactive environment")(waits)


def ways(t):
    """Every way of running a pipeline to its end."""
    t.boot()
    t.prog("src", emits([b"a\n"], 0))
    t.prog("bad", emits([b"b\n"], 3))
    t.prog("cat", cat)
    e = t.env

    async def f(stdin):
        async for line in stdin:
            yield line + "x"
    pls = {"src": lambda: e.src, "bad": lambda: e.bad, "pipe": lambda: e.src | e.cat, "group": lambda: e.src + e.bad, "cd": lambda: e.cd("/"),
           "function": lambda: e.src | f, "subshell": lambda: e.subshell(e.src), "redirected": lambda: e.src > "/w/out"}
    t.k.mkdir_p("/w")
    kind = t.pick("kind", sorted(pls))
    pl = pls[kind]()
    seen = []
    run = t.mod("pipeline.base").Pipeline.run
    how = t.pick("how", ["run_interactive", "+", "await", "list", "str", "bytes", "repr", "partly"])
    if how in ("list", "str", "bytes", "partly") and kind in ("redirected", "cd"):
        t.assume(False)
    if how == "repr":
        e._interactive = True

    async def wait():
        await pl
    before = e.__dict__.get("last_pipeline")

    def partly():
        it = iter(pl)
        next(it)
        return it
    act = {"run_interactive": lambda: pl.run_interactive(), "+": lambda: +pl, "await": lambda: t.loop.run_until_complete(wait()), "list": lambda: list(pl),
           "str": lambda: str(pl), "bytes": lambda: bytes(pl), "repr": lambda: repr(pl), "partly": partly}[how]
    r = t.attempt(act)
    t.prove(not r.hung, "running a pipeline never ends")
    fails = kind in ("bad", "group")
    if fails and how != "partly":
        t.prove(not r.ok and isinstance(r.value, t.running.PipelineFailed), "a failing pipeline does not fail")
    else:
        t.prove(r.ok, "running a pipeline raises %s" % type(r.value).__name__)
    last = e.__dict__.get("last_pipeline")
    if how != "partly":
        t.prove(len(e.running_pipelines) == 0, "a pipeline is listed after it was run to its end")
        t.cover("ended")
    t.settle()
    t.prove((last is None) == (kind == "cd"), "the last pipeline is another one")
    if last is not None:
        t.prove(fails == bool(last.is_failed), "the last pipeline is another one")
        if how == "partly":
            t.prove(listed(t, last) == bool(last.is_running), "the list of running pipelines is wrong")
    if how != "partly":
        # again
        r = t.attempt(act)
        t.prove(len(e.running_pipelines) == 0, "a pipeline is listed after it was run to its end")
        again = e.__dict__.get("last_pipeline")
        t.prove(kind == "cd" or again is not last, "the last pipeline is another one")


scenario("C23", "ways", covers=["ended"], bounds="8 pipelines, 8 ways of running them")(ways)


def ctrl_c(k):
    raise KeyboardInterrupt()


def kept(t):
    """A pipeline whose wait ended otherwise stays listed until it ends; a removed capture file changes nothing."""
    t.boot(interactive=True)
    jobs = []
    kind = t.pick("kind", ["program", "pipe", "captured", "function"])
    job = start(t, kind, 0, t.env, jobs)
    k = t.k
    how = t.pick("how", ["interrupt", "stopped", "cancel", "interactive"])
    if how == "interrupt":
        k.external = [ctrl_c]
        t.raises(lambda: t.loop.run_until_complete(job.rp.wait()), KeyboardInterrupt, "an interrupted wait")
        t.cover("interrupted")
    elif how == "interactive":
        k.external = [ctrl_c]
        pids = set(k.procs)
        t.prog("qa", forever)
        t.raises(lambda: t.env.qa.run_interactive(), KeyboardInterrupt, "an interrupted wait")
        jobs.append(Job("program", t.env.last_pipeline, t.env, [p for p in k.procs if p not in pids]))
        t.cover("interrupted")
    else:
        task = t.loop.create_task(job.rp.wait())
        t.spin(1)
        if how == "cancel":
            task.cancel()
        else:
            job.rp.pipeline_suspended = True
            job.rp.wake_up()
        t.settle()
        t.prove(task.done(), "the wait goes on")
    check(t, jobs, False, [t.env])
    t.settle()
    check(t, jobs, True, [t.env])
    if kind == "captured" and t.flag("removed"):
        for n, x in list(k.lookup("/tmp").entries):
            t.loader.osm.unlink("/tmp/" + n)
        t.cover("removed")
    for j in list(jobs):
        for p in j.pids:
            k.finish(k.procs[p], 0)
            t.settle()
            check(t, jobs, True, [t.env])
    if t.flag("wait"):
        for j in jobs:
            t.call(lambda: t.loop.run_until_complete(j.rp.wait()), "waiting for a pipeline that has ended")
    t.cover("kept")


scenario("C23", "kept", covers=["kept", "removed", "interrupted"],
         bounds="4 kinds of pipelines, their waits interrupted, cancelled or ended by a stop, their captured output removed")(kept)


def foreground(t):
    """A job waited for with fg: both are listed exactly until it ends, however the wait ended."""
    t.boot(interactive=True)
    k, e = t.k, t.env
    jobs = []
    job = start(t, t.pick("kind", ["program", "pipe", "captured", "function"]), 0, e, jobs)
    how = t.pick("how", ["ended", "stopped", "interrupt"])
    again = t.flag("twice")
    for i in range(1 + again):
        rp = t.call(lambda: e.fg(job.rp).run(), "fg")
        t.spin(1)
        t.prove(listed(t, rp) and listed(t, job.rp), "a job in the foreground is not listed")
        if how == "stopped":
            job.rp.pipeline_suspended = True
            job.rp.wake_up()
        elif how == "interrupt":
            k.external = [ctrl_c]
            t.raises(lambda: t.loop.run_until_complete(rp.wait()), KeyboardInterrupt, "an interrupted fg")
        t.settle()
        t.prove(rp.is_running and listed(t, rp) and listed(t, job.rp), "a job is not listed while it runs")
        t.cover(how)
    for p in list(job.pids):
        k.finish(k.procs[p], 0)
        t.settle()
        t.prove(listed(t, job.rp) == job.rp.is_running and listed(t, rp) == job.rp.is_running, "the list of running pipelines is wrong")
    t.prove(not job.rp.is_running, "the job is still running")
    t.prove(not list(e.running_pipelines), "a pipeline is listed although nothing runs any more")
    if t.flag("wait"):
        t.call(lambda: t.loop.run_until_complete(rp.wait()), "waiting for a fg that has ended")
        t.prove(not list(e.running_pipelines), "a pipeline is listed although nothing runs any more")


scenario("C23", "foreground", covers=["ended", "stopped", "interrupt"],
         bounds="4 kinds of jobs, waited for with fg once or twice, the wait going on, stopped or interrupted; then every program ends")(foreground)
