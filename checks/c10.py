"""C10  A pipeline is reported failed exactly when one of its stages failed."""
import asyncio
from sx.api import *
from .shapes import tree

HOWS = ["wait", "await", "interactive", "list", "bytes", "async for", "str"]


class Boom(RuntimeError, ValueError, LookupError, TypeError, ArithmeticError, EOFError):
    """any kind of error"""


class Unusable(object):
    """something that can not be iterated over after all: the pipeline can not be started"""

    def __init__(self, t, b):
        self.t, self.text = t, ["no text", ""][t.choose("text", 2)]

    def __iter__(self):
        raise Boom(*([self.text] if self.text else []))


class Cancelled(asyncio.CancelledError):
    """what an await on something that has been cancelled raises"""


class Build(object):
    """Pipelines whose commands end with any status, and whose functions may raise."""

    def __init__(self, t, ends, exceptions=1):
        self.t = t
        self.exceptions = exceptions
        self.ends = ends
        self.raised = {}
        self.finished = []
        self.functions = []

    def command(self, name):
        t = self.t
        how = t.pick("end_" + name, self.ends) if len(self.ends) > 1 else self.ends[0]
        if how in ("code", "late"):
            code = t.int("code_" + name, 0, 255)
            status = code * 256
        elif how == "signal":
            sig = t.int("sig_" + name, 1, 64)
            status = sig
        elif how == "core":
            status = t.int("sig_" + name, 1, 64) + 128
        else:
            status = 0

        def prog(k, p):
            while True:
                d = yield ("read", 0, 65536)
                if isinstance(d, OSError) or len(d) == 0:
                    break
            yield ("write", 1, name.encode() + b"\n")
            if how == "late":
                pid = p.pid
                yield ("call", lambda k, p: setattr(k, "external", k.external + [lambda k: k.finish(k.procs[pid], status)]))
                yield ("never",)
            yield ("call", lambda k, p: k.finish(p, status))
        t.prog(name, prog)
        return name

    def function(self, name, kind):
        b = self
        self.functions.append(name)

        def boom():
            b.raised[name] = [Boom("stage %s fails" % name), Boom(), Cancelled()][b.t.choose("exception_" + name, min(b.exceptions, 2 if kind == "fncall" else 3))]
            return b.raised[name]
        if kind == "fn":
            async def fn(stdin):
                async for line in stdin:
                    yield line
                b.finished.append(name)
        elif kind == "fnearly":
            async def fn(stdin):
                yield "early"
                b.finished.append(name)
        elif kind == "fnraise":
            async def fn(stdin):
                yield "before"
                async for line in stdin:
                    yield line
                raise boom()
        elif kind == "fnfirst":
            async def fn(stdin):
                raise boom()
                yield
        elif kind == "fncall":
            def fn(stdin):
                raise boom()
        elif kind == "it":
            def it():
                yield name
                b.finished.append(name)
            return it()
        elif kind == "itraise":
            def it():
                yield name
                raise boom()
            return it()
        else:
            raise AssertionError(kind)
        return fn

    def build(self, spec):
        e, kind = self.t.env, spec[0]
        Function = self.t.mod("pipeline.function").Function
        Pipeline = self.t.mod("pipeline.base").Pipeline
        if kind == "cmd":
            return e._(self.command(spec[1]))
        if kind == "arg":
            return e._(self.command(spec[1]), self.build(spec[2]))
        if kind == "unstartable":
            return self.t.mod("pipeline.function").Function(e, Unusable(self.t, self))
        if kind not in ("pipe", "group"):
            return Function(e, self.function(spec[1], kind))
        a, b = self.build(spec[1]), self.build(spec[2])
        return a | b if kind == "pipe" else a + b


def run(t, pl, how):
    def go():
        if how == "wait":
            rp = pl.run()
            return t.loop.run_until_complete(rp.wait())
        if how == "await":
            async def main():
                await pl
            return t.loop.run_until_complete(main())
        if how == "interactive":
            return pl.run_interactive()
        if how == "list":
            return list(pl)
        if how == "bytes":
            return bytes(pl)
        if how == "str":
            return str(pl)

        async def main():
            return [x async for x in pl]
        return t.loop.run_until_complete(main())
    return t.attempt(go)


def nonzero(status):
    return not_(eq(status, 0))


def own_epipes(t, pids):
    """writes of function stages of these processes to a pipe without a reader"""
    return [x for x in t.k.epipes if x[0] in pids]


def judge(t, b, r, foreign=()):
    if r.hung:
        t.fail("the wait never ends: %s" % r.value)
    k = t.k
    ps = [p for p in t.started() if p.pid not in foreign]
    left = [p for p in ps if p.state in ("run", "stop")]
    t.prove(not left, "failure or success is reported while a process is still running")
    rp = r.value.pipeline if isinstance(r.value, t.running.PipelineError) else t.env.last_pipeline
    t.prove(not rp.is_running, "failure or success is reported while a stage is still running")
    anyfailed = or_(*([nonzero(p.status) for p in ps] + [bool(b.raised), bool(own_epipes(t, [k.root_pid]))]))
    if r.ok:
        t.prove(not_(anyfailed), "a failure is not reported")
        t.cover("success")
    elif isinstance(r.value, t.running.PipelineFailed):
        t.prove(anyfailed, "a pipeline without a failing stage is reported as failed")
        t.cover("failed")
    else:
        import traceback
        t.fail("something else is raised: %s" % "".join(
            traceback.format_exception(type(r.value), r.value, r.value.__traceback__)[-4:]))
    listed = rp.failed_processes
    t.prove(rp.is_failed == (len(listed) > 0), "is_failed does not agree with the failed stages")
    procs = [x for x in listed if isinstance(x, t.running.RunningProcess)]
    funcs = [x for x in listed if not isinstance(x, t.running.RunningProcess)]
    for p in ps:
        n = len([x for x in procs if x.pid == p.pid])
        t.prove(n <= 1, "a failed stage is listed twice")
        t.prove(eq(n == 1, nonzero(p.status)), "the listed stages are not those that failed")
    t.prove(len(procs) <= len(ps), "another process is listed as failed")
    excs = [x.iohandler.exception for x in funcs]
    for name, x in b.raised.items():
        t.prove(len([y for y in excs if y is x]) == 1, "a function that raised is not listed as failed")
    rest = [x for x in excs if not any(x is y for y in b.raised.values())]
    t.prove(all(isinstance(x, BrokenPipeError) for x in rest) and len(rest) == len(own_epipes(t, [k.root_pid])),
            "a function that did not fail is listed as failed, or one that could not write is not")
    t.note("r", [r.kind, sorted(getattr(x, "pid", 0) for x in procs), len(funcs)])


def failures(t, n, leaves, ops, ends, hows, sched, manager="signalfd"):
    t.boot(signalfd=(manager == "signalfd"), maxfd=60)
    t.k.waitpid_choice = sched > 0
    b = Build(t, ends, 3 if n == 1 else 1)
    pl = b.build(tree(t, n, leaves, ops, [], ""))
    t.k.sched_budget = sched
    how = t.pick("how", hows) if len(hows) > 1 else hows[0]
    judge(t, b, run(t, pl, how))


FN = ["fn", "fnearly", "fnraise", "fnfirst", "fncall", "it", "itraise"]
PG = ["pipe", "group"]
SF = ["success", "failed"]
scenario("C10", "one", args=(1, ["cmd"] + FN, PG, ["code", "signal", "core"], HOWS, 0), covers=SF,
         bounds="1 stage of 8 kinds, any status, 7 ways of waiting")(failures)
scenario("C10", "one_asyncio", args=(1, ["cmd"], PG, ["code", "signal", "core"], HOWS, 0, "asyncio"), covers=SF,
         bounds="1 command, any status, 7 ways of waiting, signals through asyncio")(failures)
scenario("C10", "commands", args=(3, ["cmd"], PG, ["code", "signal"], ["wait"], 0), covers=SF,
         bounds="3 commands in pipes and groups, any codes and signals")(failures)
scenario("C10", "order", args=(3, ["cmd"], PG, ["late"], ["wait"], 3), covers=SF,
         bounds="3 commands in pipes and groups that end in any order (3 free decisions) with any codes, any order of reaping")(failures)
scenario("C10", "two", args=(2, ["cmd"] + FN, PG + ["arg"], ["code"], ["wait", "list"], 0), covers=SF,
         bounds="2 stages of 8 kinds in pipes, groups and arguments, any codes")(failures)
scenario("C10", "three", args=(3, ["cmd", "fn", "fnraise"], PG, ["code"], ["wait"], 0), covers=SF,
         bounds="3 stages of 3 kinds in pipes and groups, any codes")(failures)
scenario("C10", "schedules", args=(2, ["cmd", "fn", "fnearly", "itraise"], PG, ["code"], ["interactive"], 4), covers=SF,
         bounds="2 stages of 4 kinds, any codes, 4 free scheduling decisions")(failures)
scenario("C10", "commands_deep", args=(4, ["cmd"], PG + ["arg"], ["code", "signal"], ["wait", "bytes"], 0), covers=SF, tier="thorough",
         bounds="4 commands in pipes, groups and arguments, any statuses")(failures)
scenario("C10", "order_deep", args=(3, ["cmd"], PG, ["late"], ["wait"], 7), covers=SF, tier="thorough",
         bounds="3 commands that end in any order (7 free decisions), any order of reaping")(failures)
scenario("C10", "three_deep", args=(3, ["cmd"] + FN, PG + ["arg"], ["code"], ["wait"], 0), covers=SF, tier="thorough",
         bounds="3 stages of 8 kinds in pipes, groups and arguments")(failures)
scenario("C10", "schedules_deep", args=(2, ["cmd"] + FN, PG, ["code"], ["interactive"], 7), covers=SF, tier="thorough",
         bounds="2 stages of 8 kinds, 7 free scheduling decisions")(failures)


def kinds(spec):
    if spec[0] in ("pipe", "group"):
        return kinds(spec[1]) + kinds(spec[2])
    return [spec[0]]


def subshell(t, n, leaves, ends, outer):
    """A subshell fails exactly if the pipeline run inside it fails."""
    t.boot(maxfd=60)
    e = t.env
    b = Build(t, ends, 2 if n == 1 else 1)
    spec = tree(t, n, leaves, PG, [], "")
    inner = b.build(spec)
    form = t.pick("outer", outer)
    sub = e.subshell(inner)
    ob = Build(t, ["code"])
    if form == "alone":
        pl = sub
    elif form == "head":
        pl = sub | e._(ob.command("y"))
    elif form == "tail":
        pl = e._(ob.command("y")) | sub
    elif form == "nested":
        pl = e.subshell(sub)
    elif form == "file":
        pl = "/w/in" | sub | "/w/out"
        t.k.add_file("/w/in", b"in\n")
    r = run(t, pl, "wait")
    if r.hung:
        t.fail("the wait never ends: %s" % r.value)
    ps = [p for p in t.started() if p.name != "y"]
    t.prove(not [p for p in ps if p.state in ("run", "stop")], "the subshell ends before its pipeline")
    # which functions inside it raise is decided by their kind
    raising = [x for x in kinds(spec) if x in ("unstartable", "fnraise", "fnfirst", "fncall", "itraise")]
    failed = or_(*([nonzero(p.status) for p in ps] + [bool(raising), bool(own_epipes(t, [p.pid for p in t.children() if not p.execd]))]))
    subproc = [p for p in t.children() if not p.execd][0]
    t.prove(eq(nonzero(subproc.status), failed), "a subshell does not fail exactly if its pipeline does")
    if r.ok:
        t.prove(not_(failed), "a failure inside a subshell is not reported")
        t.prove(not_(nonzero(subproc.status)), "a failure of a subshell is not reported")
        t.cover("success")
    else:
        t.prove(isinstance(r.value, t.running.PipelineFailed), "something else is raised")
        listed = [x.pid for x in r.value.pipeline.failed_processes]
        t.prove(eq(subproc.pid in listed, nonzero(subproc.status)), "the listed stages are not those that failed")
        t.cover("failed")
    t.note("r", [r.kind, subproc.status])


scenario("C10", "subshell", args=(1, ["cmd", "fnraise", "fncall", "fn", "itraise", "unstartable"], ["code", "signal"], ["alone", "head", "tail", "nested", "file"]),
         covers=SF, bounds="a subshell of 1 stage of 6 kinds, any status, in 5 positions")(subshell)
scenario("C10", "subshell_two", args=(2, ["cmd", "fnraise"], ["code"], ["alone", "tail"]), covers=SF,
         bounds="a subshell of 2 stages of 2 kinds, any codes, in 2 positions")(subshell)
scenario("C10", "subshell_deep", args=(3, ["cmd", "fnraise"], ["code", "signal"], ["alone", "head", "nested"]), covers=SF, tier="thorough",
         bounds="a subshell of 3 stages of 2 kinds, any statuses, in 3 positions")(subshell)


def meanwhile(t, n, shapes, text=False):
    """While other stages go on, exactly the stages that have failed so far are shown as failed."""
    t.boot(interactive=True, maxfd=60)
    k, e = t.k, t.env
    names = "abc"[:n]
    codes = [t.pick("code%d" % i, [0, 7]) if text else t.int("code%d" % i, 0, 255) for i in range(n)]
    for x in names:
        t.prog(x, forever)
    boom = Boom("the function fails")
    shape = t.pick("shape", shapes)
    pl = e._(names[0])
    for x in names[1:]:
        pl = pl | e._(x) if shape == "pipe" else pl + e._(x)
    if shape == "raising":
        async def fn(stdin):
            yield "line"
            raise boom
        pl = t.mod("pipeline.function").Function(e, fn) + pl
    rp = t.call(lambda: pl.run(), "starting")
    pids = [t.one(x).pid for x in names]
    ended = t.choose("ended", n)
    first = t.choose("first", n)
    order = pids[first:] + pids[:first]

    def end(pid):
        def f(k):
            if k.procs[pid].state in ("run", "stop"):
                k.finish(k.procs[pid], codes[pids.index(pid)] * 256)
        return f

    def stop(k):
        k.raise_signal(k.rootp, 20)
    k.external = [end(pid) for pid in order[:ended]]
    if ended:
        t.spin(3)
    k.external = k.external + [stop]
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    t.prove(isinstance(r.value, t.running.PipelineSuspended), "Ctrl-Z does not suspend the pipeline: %s" % r)
    gone = order[:ended]
    more = 1 if shape == "raising" else 0

    def look(gone, what):
        failed = t.call(lambda: rp.failed_processes, "looking at the failed stages")
        fns = [x for x in failed if not isinstance(x, t.running.RunningProcess)]
        procs = [x for x in failed if isinstance(x, t.running.RunningProcess)]
        t.prove(len(fns) == more, "%s, a function is not listed as failed exactly if it raised" % what)
        t.prove(all(x.pid in gone for x in procs), "%s, a stage that is running is listed as failed" % what)
        for pid in gone:
            t.prove(eq(pid in [x.pid for x in procs], nonzero(codes[pids.index(pid)])), "%s, the listed stages are not those that failed" % what)
        t.prove(t.call(lambda: rp.is_failed, "looking at the state") == bool(failed), "%s, is_failed does not agree with the failed stages" % what)
        alive = t.call(lambda: [x.pid for x in rp.running_processes], "looking at the running stages")
        t.prove(sorted(alive) == sorted(pid for pid in pids if pid not in gone), "%s, the running stages are wrong" % what)
        return failed
    failed = look(gone, "while other stages run")
    if text:
        shown = t.call(lambda: str(r.value), "describing the suspended pipeline")
        t.prove((boom.args[0] in shown) == bool(more), "a function that failed is not described")
    t.cover("some failed" if failed else "none failed")
    k.external = [end(pid) for pid in order[ended:]]
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    look(pids, "at the end")
    t.prove(eq(r.ok, not_(or_(more > 0, *[nonzero(c) for c in codes]))), "the result of the pipeline is wrong")
    if text and not r.ok:
        shown = t.call(lambda: str(r.value), "describing the failed pipeline")
        t.prove((boom.args[0] in shown) == bool(more), "a function that failed is not described")


scenario("C10", "meanwhile", args=(2, ["pipe", "group", "raising"]), covers=["some failed", "none failed"],
         bounds="2 commands in a pipe or a group, with or without a function that raises; any number of them end with any codes in any order before Ctrl-Z, the others later")(meanwhile)
scenario("C10", "described", args=(2, ["pipe", "group", "raising"], True), covers=["some failed", "none failed"],
         bounds="what is shown in the same cases, two codes")(meanwhile)
scenario("C10", "meanwhile_deep", args=(3, ["pipe", "group", "raising"]), covers=["some failed", "none failed"], tier="thorough",
         bounds="3 commands in a pipe or a group, with or without a function that raises; any number of them end with any codes in any order before Ctrl-Z, the others later")(meanwhile)
