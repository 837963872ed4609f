"""C09  Waiting for a pipeline always ends once its stages have ended."""
import asyncio
from sx.api import *

PROGRAMS = {"cat": cat, "fails": exits(3), "sink": sink, "killed": killed(9), "emit": emit(b"one\ntwo\n"), "nothing": exits(0),
            "endless": endless, "forever": forever}


class Stages(object):
    """The stages of a pipeline and whether they have ended."""

    def __init__(self, t):
        self.t = t
        self.functions = {}
        self.kinds = []
        self.commands = []

    def command(self, name, prog):
        self.t.prog(name, PROGRAMS.get(prog, prog))
        self.commands.append(name)
        return self.t.env._(name)

    def function(self, name, kind):
        t = self.t
        done = self.functions
        done[name] = False
        if kind == "copy":
            async def fn(stdin):
                async for line in stdin:
                    yield line
                done[name] = True
        elif kind == "early":
            async def fn(stdin):
                yield "early"
                done[name] = True
        elif kind == "one":
            async def fn(stdin):
                async for line in stdin:
                    yield line
                    break
                done[name] = True
        elif kind == "drop":
            async def fn(stdin):
                async for line in stdin:
                    yield None
                done[name] = True
        elif kind in ("raise", "cancelled", "exit", "interrupt", "base"):
            class Base(BaseException):
                pass
            exc = {"raise": ValueError, "cancelled": asyncio.CancelledError, "exit": SystemExit,
                   "interrupt": KeyboardInterrupt, "base": Base}[kind]

            async def fn(stdin):
                yield "before"
                done[name] = True
                raise exc("stage fails")
        elif kind == "call":
            def fn(stdin):
                done[name] = True
                raise ValueError("stage fails")
        elif kind == "late":
            async def fn(stdin):
                f = t.loop.create_future()
                t.k.external = t.k.external + [lambda k: f.get_loop().call_soon(f.set_result, None)]
                await f
                async for line in stdin:
                    yield line
                done[name] = True
        elif kind == "plain":
            def fn(stdin):
                done[name] = True
                return ["a", "b"]
        elif kind == "empty":
            def fn(stdin):
                done[name] = True
                return []
        else:
            raise AssertionError(kind)
        return t.mod("pipeline.function").Function(t.env, fn)

    def running(self, rp):
        """the stages that have not ended"""
        k = self.t.k
        r = [n for n, d in self.functions.items() if not d]
        # a function whose reader has gone is given up in the middle
        gone = [f for f in rp.failed_processes if isinstance(f, self.t.running.RunningFunction)
                and isinstance(f.iohandler.exception, BrokenPipeError)] if rp is not None else []
        r = r[len(gone):]
        for n in self.commands:
            r += [n for p in k.procs.values() if p.name == n and p.state in ("run", "stop")]
        return r


QUITS = ["fails", "killed", "ends", "one", "early", "raise", "call", "plain", "empty"]
FKINDS = ["copy", "early", "one", "drop", "raise", "call", "late", "plain", "empty"]


def stage(t, st, i, kinds):
    kind = t.pick("stage%d" % i, kinds)
    st.kinds.append(kind)
    name = "abcd"[i]
    if kind in FKINDS or kind in ("cancelled", "exit", "interrupt", "base"):
        return st.function(name, kind)
    if kind == "ends":
        # ends at any moment, in any way
        how = t.choose("how%d" % i, 3)

        def ends(k, p):
            pid = p.pid

            def end(k):
                q = k.procs[pid]
                if q.state in ("run", "stop"):
                    k.finish(q, [0, 256 * 3, 9][how])
            yield ("call", lambda k, p: setattr(k, "external", k.external + [end]))
            yield ("never",)
        return st.command(name, ends)
    if kind == "noise":
        data = t.bytes("noise%d" % i, 2)
        return st.command(name, emits([(2, data), (1, data)]))
    return st.command(name, kind)


def pipeline(t, st, n, kinds, ops):
    pl = stage(t, st, 0, kinds[0])
    endless_ = t.e.w.kernel.programs.get("a") is endless
    for i in range(1, n):
        op = t.pick("op%d" % i, ops) if len(ops) > 1 else ops[0]
        nxt = stage(t, st, i, kinds[min(i, len(kinds) - 1)])
        if endless_ and (op != "pipe" or st.kinds[-1] not in QUITS):
            t.assume(False)             # it really never ends
        pl = (pl | nxt) if op == "pipe" else (pl + nxt)
    return pl


WAITS = ["wait", "await", "cancelled", "finished"]


def outcome(t, r, what):
    if r.hung:
        t.fail("%s never ends: %s" % (what, r.value))
    if not r.ok and not isinstance(r.value, t.running.PipelineFailed):
        import traceback
        eng_tb = "".join(traceback.format_exception(type(r.value), r.value, r.value.__traceback__)[-4:])
        t.fail("%s raises %s: %s" % (what, type(r.value).__name__, eng_tb))


def waits(t, n, kinds, ops, nwait, sched, manager="signalfd", interactive=False):
    """Any waiters, early and late."""
    t.boot(signalfd=(manager == "signalfd"), maxfd=60, interactive=interactive)
    k = t.k
    st = Stages(t)
    pl = pipeline(t, st, n, kinds, ops)
    k.sched_budget = sched
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    hows = [t.pick("wait%d" % i, WAITS if i else WAITS[:2]) for i in range(nwait)]
    late = t.choose("late", nwait) if nwait > 1 else 0        # so many of them only start when the others have ended
    ended = []

    async def one(i, how):
        try:
            if how == "await":
                await rp
            else:
                await rp.wait()
        except t.running.PipelineFailed:
            pass
        ended.append(i)
        left = st.running(rp)
        if left:
            t.fail("a wait returns while %s is still running" % left)
        if rp.is_running:
            t.fail("a wait returns while the pipeline counts as running")

    async def main():
        tasks = []
        for i in range(nwait - late):
            task = t.loop.create_task(one(i, hows[i]))
            tasks.append(task)
            if hows[i] == "cancelled":
                await asyncio.sleep(0)
                task.cancel()
        for task in tasks:
            try:
                await task
            except asyncio.CancelledError:
                t.cover("cancelled")
        for i in range(nwait - late, nwait):
            await one(i, hows[i])
    r = t.attempt(lambda: t.loop.run_until_complete(main()))
    outcome(t, r, "a wait")
    t.prove(r.ok, "a wait raises something else")
    t.prove(len(ended) >= nwait - len([h for h in hows if h == "cancelled"]), "a wait is lost")
    t.cover("ended")
    t.note("r", [sorted(ended), len(rp.failed_processes)])


CMDS = ["cat", "fails", "killed", "ends", "noise"]
scenario("C09", "one", args=(1, [CMDS + FKINDS], ["pipe"], 2, 2), covers=["ended", "cancelled"],
         bounds="1 stage of 14 kinds, 2 waiters (4 kinds, early and late), 2 free scheduling decisions")(waits)
scenario("C09", "one_asyncio", args=(1, [CMDS], ["pipe"], 2, 2, "asyncio"), covers=["ended"],
         bounds="1 command of 5 kinds, 2 waiters, signals through asyncio")(waits)
scenario("C09", "two_asyncio", args=(2, [["nothing", "fails", "ends"], ["nothing", "killed", "ends"]], ["pipe", "group"], 1, 2, "asyncio"),
         covers=["ended"], bounds="2 commands of 3 kinds, 2 free scheduling decisions (several ends in one notification), "
         "signals through asyncio")(waits)
scenario("C09", "two_signalfd", args=(2, [["nothing", "fails", "ends"], ["nothing", "killed", "ends"]], ["pipe", "group"], 1, 2),
         covers=["ended"], bounds="2 commands of 3 kinds, 2 free scheduling decisions (several ends in one notification)")(waits)
scenario("C09", "three_waiters", args=(1, [["ends", "late", "raise"]], ["pipe"], 3, 3), covers=["ended", "cancelled"],
         bounds="1 stage of 3 kinds, 3 waiters (4 kinds, early and late), 3 free scheduling decisions")(waits)
scenario("C09", "two", args=(2, [["emit", "endless", "ends"] + FKINDS, CMDS + FKINDS], ["pipe", "group"], 1, 0),
         covers=["ended"], bounds="2 stages of 12 x 14 kinds, pipes and groups")(waits)
scenario("C09", "two_schedules", args=(2, [["emit", "ends", "one"], ["ends", "one", "raise"]], ["pipe", "group"], 1, 5),
         covers=["ended"], bounds="2 stages of 3 x 3 kinds, 5 free scheduling decisions")(waits)
scenario("C09", "three", args=(3, [["emit", "late"], ["cat", "one", "ends", "call"], ["cat", "early", "raise"]], ["pipe", "group"], 1, 0),
         covers=["ended"], bounds="3 stages of 2 x 4 x 3 kinds, pipes and groups")(waits)
scenario("C09", "interactive", args=(2, [["ends"], ["ends", "one"]], ["pipe", "group"], 2, 1, "signalfd", True),
         covers=["ended"], bounds="2 stages in an interactive environment, 2 waiters")(waits)
scenario("C09", "two_deep", args=(2, [["emit", "ends", "endless", "late"] + FKINDS[:4], CMDS + FKINDS], ["pipe", "group"], 2, 4),
         covers=["ended"], tier="thorough", bounds="2 stages of 8 x 14 kinds, 2 waiters, 4 free scheduling decisions")(waits)
scenario("C09", "three_deep", args=(3, [["emit", "ends", "late"], CMDS + FKINDS, CMDS + FKINDS], ["pipe", "group"], 1, 3),
         covers=["ended"], tier="thorough", bounds="3 stages of 3 x 14 x 14 kinds, 3 free scheduling decisions")(waits)
scenario("C09", "schedules_deep", args=(2, [["emit", "ends", "one"], ["ends", "one", "raise", "copy"]], ["pipe", "group"], 1, 10),
         covers=["ended"], tier="thorough", bounds="2 stages, 10 free scheduling decisions")(waits)


def odd(t):
    """A function that ends by an exception that is none of the usual errors (a cancelled task inside it, an exit, an interrupt)."""
    t.boot(maxfd=60)
    k = t.k
    st = Stages(t)
    kind = t.pick("kind", ["cancelled", "base", "interrupt", "exit"])
    form = t.choose("form", 3)
    fn = st.function("f", kind)
    if form == 0:
        pl = fn
    elif form == 1:
        pl = fn | st.command("c", "cat")
    else:
        pl = st.command("c", "emit") | fn
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    if r.hung:
        t.fail("the wait never ends")
    if kind in ("interrupt", "exit", "base") and not isinstance(r.value, t.running.PipelineFailed):
        # it may also reach the caller; after that the pipeline can still be waited for
        t.prove(not r.ok, "the pipeline is not reported as failed")
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
        if r.hung:
            t.fail("the wait never ends")
        t.cover("interrupted")
    t.prove(isinstance(r.value, t.running.PipelineFailed), "the pipeline is not reported as failed (%s)" % r)
    t.prove(not rp.is_running, "the pipeline is still running")
    t.prove(not st.running(rp), "a wait returns while a stage is still running")
    t.cover("ended")


scenario("C09", covers=["ended"], bounds="functions that end by 4 kinds of unusual exceptions, alone and in pipelines")(odd)


def iteration(t, n, kinds, ops, sched):
    """Iterating over the output ends, and only when everything has ended."""
    t.boot(maxfd=60)
    k = t.k
    st = Stages(t)
    pl = pipeline(t, st, n, kinds, ops)
    k.sched_budget = sched
    how = t.choose("how", 4)

    def go():
        if how == 0:
            return list(pl)
        if how == 1:
            return bytes(pl)
        if how == 2:
            async def main():
                return [x async for x in pl]
            return t.loop.run_until_complete(main())
        return pl.run_interactive()
    r = t.attempt(go)
    outcome(t, r, "reading the output")
    left = st.running(t.env.last_pipeline)
    t.prove(not left, "reading the output ends while %s is still running" % left)
    t.cover("ended")
    t.note("r", r.kind)


scenario("C09", "iterate", args=(1, [CMDS[:4] + FKINDS], ["pipe"], 3), covers=["ended"],
         bounds="1 stage of 13 kinds, list(), bytes(), async for, run_interactive; 3 free scheduling decisions")(iteration)
scenario("C09", "iterate_two", args=(2, [["emit", "ends", "endless"], ["ends", "one", "call", "cat"]], ["pipe", "group"], 0),
         covers=["ended"], bounds="2 stages of 3 x 4 kinds")(iteration)
scenario("C09", "iterate_deep", args=(2, [["emit", "ends", "late"] + FKINDS, CMDS[:4] + FKINDS], ["pipe", "group"], 3),
         covers=["ended"], tier="thorough", bounds="2 stages of 12 x 13 kinds, 3 free scheduling decisions")(iteration)


def fg(t, sched, kinds):
    """Waiting through fg."""
    t.boot(maxfd=60, interactive=True)
    k = t.k
    st = Stages(t)
    pl = pipeline(t, st, 1, [kinds], ["pipe"])
    k.sched_budget = sched
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    if t.flag("ended_before"):
        while k.external:
            k.fire(0)
        t.settle()
    named = t.flag("named")
    cmd = t.env.fg(rp) if named else t.env.fg
    twice = t.flag("piped")
    r = t.attempt(lambda: cmd.run_interactive())
    outcome(t, r, "fg")
    t.prove(not st.running(rp), "fg returns while a stage is still running")
    t.prove(not rp.is_running, "fg returns while the pipeline is running")
    if twice:
        r = t.attempt(lambda: t.env.fg(rp).run_interactive())
        outcome(t, r, "a second fg")
    t.cover("ended")
    t.note("r", r.kind)


scenario("C09", "fg", args=(2, CMDS[1:4] + ["late", "raise", "early"]), covers=["ended"],
         bounds="1 stage of 6 kinds, fg with and without a pipeline, before and after its end; 2 free scheduling decisions")(fg)
scenario("C09", "fg_deep", args=(6, CMDS + FKINDS), covers=["ended"], tier="thorough",
         bounds="1 stage of 14 kinds, 6 free scheduling decisions")(fg)


def release(t, sched):
    """A function that does not read all of its input does not keep the stages that feed it."""
    t.boot(maxfd=60)
    k = t.k
    st = Stages(t)
    src = t.pick("source", ["endless", "emit", "function", "chain"])
    kind = t.pick("kind", ["early", "one", "plain", "empty", "raise", "call"])
    f = st.function("f", kind)
    done = []

    async def numbers(stdin=None):
        while True:
            yield "x" * 500
    Function = t.mod("pipeline.function").Function
    if src == "function":
        head = Function(t.env, numbers())
    elif src == "chain":
        head = st.command("s", "endless") | st.command("m", "cat")
    else:
        head = st.command("s", src)
    tail = t.flag("tail")
    pl = head | f
    if tail:
        pl = pl | st.command("z", "sink")
    k.sched_budget = sched
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    outcome(t, r, "the wait")
    t.prove(not st.running(rp), "a wait returns while a stage is still running")
    t.prove(not rp.is_running, "the pipeline is still running")
    t.cover("ended")


scenario("C09", "release", args=(2,), covers=["ended"], bounds="4 sources, 6 kinds of functions, 2 free scheduling decisions")(release)
scenario("C09", "release_deep", args=(6,), covers=["ended"], tier="thorough", bounds="4 sources, 6 kinds of functions, 6 free scheduling "
         "decisions")(release)


def after_suspend(t, n):
    """Stages end while the pipeline is suspended: every later wait ends."""
    t.boot(maxfd=60, interactive=True)
    k = t.k
    names = "ab"[:n]
    for x in names:
        t.prog(x, forever)
    e = t.env
    pl = e.a
    if n > 1:
        pl = (pl | e.b) if t.flag("pipe") else (pl + e.b)
    how = t.pick("how", ["suspend", "ctrl-z", "stopped"])

    def stop(p):
        k.signal_proc(p, 19)
    if how == "ctrl-z":
        k.external = [lambda k: k.raise_signal(k.rootp, 20)]
        r = t.attempt(lambda: pl.run_interactive())
        if r.hung or not isinstance(r.value, t.running.PipelineSuspended):
            t.fail("Ctrl-Z does not suspend the pipeline (%s)" % r)
        rp = r.value.pipeline
    else:
        rp = t.call(lambda: pl.run(), "starting the pipeline")
        if how == "suspend":
            t.call(lambda: rp.suspend(), "suspending")
        else:
            for x in names:
                stop(t.one(x))
    t.settle()
    ends = [t.pick("end%d" % i, [9, 0, 3 * 256, None]) for i in range(n)]

    def finish(i):
        p = t.one(names[i])
        if p.state in ("run", "stop"):
            k.finish(p, 0 if ends[i] is None else ends[i])
    order = list(range(n))
    if n > 1 and t.flag("reverse"):
        order.reverse()
    for i in order:
        if ends[i] is not None:
            finish(i)
            if t.flag("turn%d" % i):
                t.settle()
    # the others end later
    k.external = [lambda k, i=i: finish(i) for i in order if ends[i] is None]
    wait = t.pick("wait", ["wait", "await", "fg", "twice"])
    if wait == "fg":
        r = t.attempt(lambda: e.fg(rp).run_interactive())
    else:
        async def main():
            if wait == "await":
                await rp
            else:
                await rp.wait()
        r = t.attempt(lambda: t.loop.run_until_complete(main()))
        if wait == "twice" and not r.hung:
            r = t.attempt(lambda: t.loop.run_until_complete(main()))
    outcome(t, r, "a wait for a pipeline that had been suspended")
    t.prove(r.ok == (not any(ends)), "the result of the wait is wrong")
    t.prove(not rp.is_running, "a wait returns while a stage is still running")
    t.cover(how)


scenario("C09", "after_suspend", args=(1,), covers=["suspend", "ctrl-z", "stopped"],
         bounds="1 command, suspended in 3 ways, ended in 4 ways before or after the wait starts, 4 ways to wait")(after_suspend)
scenario("C09", "after_suspend_two", args=(2,), covers=["suspend", "ctrl-z", "stopped"],
         bounds="2 commands, suspended in 3 ways, each ended in 4 ways before or after the wait starts, any order, 4 ways to wait"
         )(after_suspend)


def nothing_to_run(t):
    """Builtins that do all their work right away."""
    t.boot(maxfd=60, interactive=t.flag("interactive"))
    k = t.k
    k.add_dir("/w/d")
    e = t.env
    t.prog("x", exits(0))
    which = t.pick("which", ["cd", "clear_dir_cache", "bg", "group", "pipe"])
    if which == "bg":
        t.call(lambda: e.x.run(), "starting a program")
    pl = {"cd": lambda: e.cd("d"), "clear_dir_cache": lambda: e.clear_dir_cache, "bg": lambda: e.bg,
          "group": lambda: e.cd("d") + e.clear_dir_cache, "pipe": lambda: e.cd("d") + e.x}[which]()
    how = t.pick("how", ["interactive", "wait", "await", "fg", "twice"])
    if how == "interactive":
        r = t.attempt(lambda: pl.run_interactive())
    elif how == "await":
        async def main():
            await pl
        r = t.attempt(lambda: t.loop.run_until_complete(main()))
    else:
        rp = t.call(lambda: pl.run(), "starting the pipeline")
        if how == "fg":
            r = t.attempt(lambda: e.fg(rp).run_interactive())
        else:
            for i in range(2 if how == "twice" else 1):
                r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    outcome(t, r, "a wait for a pipeline that has nothing to run")
    t.prove(r.ok, "a pipeline that has nothing to run is reported as failed")
    t.cover(which)


scenario("C09", covers=["cd", "clear_dir_cache", "bg", "group", "pipe"], bounds="5 pipelines of builtins, 5 ways to wait")(nothing_to_run)
