"""C11  Suspending and resuming act on the whole pipeline and on nothing else."""
import asyncio
from sx.api import *
from sx.simos import Proc

TSTP, CONT, STOP = 20, 18, 19


def ctrl_z(t, group):
    """what the terminal does: the signal goes to this process, and to the processes it started (group)"""
    def f(k):
        k.user_z = getattr(k, "user_z", 0) + 1
        k.raise_signal(k.rootp, TSTP)
        if group:
            for p in list(k.procs.values()):
                if p.execd and p.state == "run":
                    k.signal_proc(p, TSTP)
    return f


def end_of(pid, status):
    def f(k):
        p = k.procs[pid]
        if p.state in ("run", "stop"):
            k.finish(p, status)
    return f


def alive(t, names):
    return [p for p in t.started() if p.name in names and p.state in ("run", "stop")]


def check_signals(t, pids, only=(STOP, CONT)):
    """signals are only sent to processes of the pipeline that still exist"""
    for by, pid, sig, state in t.k.kill_log:
        t.prove(pid in pids, "a signal is sent to a process that is no part of the pipeline")
        t.prove(state in ("run", "stop", "zombie"), "a signal is sent to a process number that is no longer that of the process")
        t.prove(sig in only, "another signal is sent")


def build(t, form, names, fn=None):
    e = t.env
    k = t.k
    for n in names:
        t.prog(n, forever)
    if form == "single":
        return e._(names[0])
    pl = e._(names[0])
    for n in names[1:]:
        pl = (pl | e._(n)) if form == "pipe" else (pl + e._(n))
    if form == "function":
        async def f(stdin):
            async for line in stdin:
                yield line
        pl = e._(names[0]) | f
        for n in names[1:]:
            pl = pl | e._(n)
    return pl


def number(form, n):
    return 1 if form == "single" else n


def suspended(t, r, rp, what="the wait"):
    if r.hung:
        t.fail("%s never ends although Ctrl-Z was pressed" % what)
    t.prove(isinstance(r.value, t.running.PipelineSuspended), "%s does not raise PipelineSuspended (%s)" % (what, r))
    if rp is not None:
        t.prove(r.value.pipeline is rp, "another pipeline is reported as suspended")


def wait_end(t, rp, names, how):
    """everything ends; the pipeline can be waited for to its end"""
    for i, p in enumerate(alive(t, names)):
        t.k.external = t.k.external + [end_of(p.pid, 0)]
    if how == "wait":
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    else:
        r = t.attempt(lambda: (t.env.fg(rp)).run_interactive())
    if r.hung:
        t.fail("a resumed pipeline cannot be waited for")
    if not r.ok and not isinstance(r.value, t.running.PipelineFailed):
        t.fail("a resumed pipeline cannot be waited for: %s" % r)
    t.prove(not rp.is_running, "a resumed pipeline does not end")
    t.prove(r.ok == (not [p for p in t.started() if p.name in names and p.status]),
            "the result of a resumed pipeline is wrong")


def ctrlz(t, n, forms, sched, manager, rounds, extra=False):
    """Ctrl-Z at any moment of a wait; resumed by another wait, by fg or restart; again."""
    t.boot(signalfd=(manager == "signalfd"), interactive=True, maxfd=60)
    k = t.k
    form = t.pick("form", forms)
    names = "abc"[:number(form, n)]
    pl = build(t, form, names)
    start = t.pick("start", ["run", "interactive"])
    other = None
    if extra:
        # another pipeline in the background of the same environment
        t.prog("zz", forever)
        other = t.call(lambda: t.env.zz.run(), "starting a program")
    group = t.flag("group")
    enders = t.choose("enders", len(names) + 1)
    rp = None
    pids = []
    if start == "run":
        rp = t.call(lambda: pl.run(), "starting the pipeline")
        pids = [t.one(x).pid for x in names]
    for i in range(rounds):
        k.sched_used = 0
        k.sched_budget = sched
        k.external = [ctrl_z(t, group)]
        if i == 0 and rp is not None:
            k.external = k.external + [end_of(pids[j], 0) for j in range(enders)]
        if rp is None:
            how = "interactive"
            r = t.attempt(lambda: pl.run_interactive())
            suspended(t, r, None)
            rp = r.value.pipeline
            pids = [t.one(x).pid for x in names]
        else:
            how = t.pick("how%d" % i, ["wait", "await", "fg"])
            if how == "fg":
                r = t.attempt(lambda: t.env.fg(rp).run_interactive())
            elif how == "wait":
                r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
            else:
                async def main():
                    await rp
                r = t.attempt(lambda: t.loop.run_until_complete(main()))
        k.sched_budget = 0
        if not rp.is_running and not isinstance(r.value, t.running.PipelineSuspended):
            # everything had ended before
            t.prove(r.ok or isinstance(r.value, t.running.PipelineFailed), "the wait raises something else")
            t.cover("ended")
            break
        suspended(t, r, rp if how != "fg" else None)
        for p in alive(t, names):
            t.prove(p.state == "stop", "a process of a suspended pipeline is not stopped")
        if other is not None and not group:
            t.prove(t.one("zz").state == "run", "a pipeline nobody waits for is suspended")
        check_signals(t, pids)
        t.cover("suspended")
        t.settle()
        for p in alive(t, names):
            t.prove(p.state == "stop", "a process of a suspended pipeline is not stopped")
        if t.flag("restart%d" % i):
            t.call(lambda: rp.restart(), "restarting the pipeline")
            for p in alive(t, names):
                t.prove(p.state == "run", "a process of a restarted pipeline is not continued")
            t.settle()
            t.cover("restarted")
    if rp.is_running:
        k.external = [x for x in k.external if x.__qualname__.startswith("end_of")]
        before = {p.pid for p in alive(t, names)}
        sent = len(k.kill_log)
        wait_end(t, rp, names, t.pick("last", ["wait", "fg"]))
        for pid in before:
            t.prove([x for x in k.kill_log[sent:] if x[1] == pid and x[2] == CONT], "waiting does not continue a process")
        check_signals(t, pids)
    t.note("kills", [list(x[:3]) for x in k.kill_log])


scenario("C11", "ctrlz", args=(2, ["single", "pipe", "group", "function"], 3, "signalfd", 1),
         covers=["suspended", "restarted", "ended"],
         bounds="pipelines of 1-2 commands (and a function), Ctrl-Z at any of 3 free moments, ends of stages at any of them")(ctrlz)
scenario("C11", "ctrlz_asyncio", args=(2, ["single", "pipe", "group"], 3, "asyncio", 1),
         covers=["suspended", "restarted", "ended"],
         bounds="the same with signals through asyncio")(ctrlz)
scenario("C11", "twice", args=(2, ["pipe"], 1, "signalfd", 2), covers=["suspended", "restarted"],
         bounds="2 commands, Ctrl-Z twice, resumed in between by wait, fg or restart")(ctrlz)
scenario("C11", "background", args=(2, ["single", "pipe"], 2, "signalfd", 1, True), covers=["suspended", "restarted"],
         bounds="1-2 commands waited for, another one in the background")(ctrlz)
scenario("C11", "ctrlz_deep", args=(3, ["pipe", "group", "function"], 6, "signalfd", 1), covers=["suspended", "ended"],
         tier="thorough", bounds="3 commands, 6 free moments")(ctrlz)
scenario("C11", "thrice_deep", args=(2, ["single", "pipe", "group"], 3, "asyncio", 3), covers=["suspended"], tier="thorough",
         bounds="2 commands, Ctrl-Z three times, 3 free moments each")(ctrlz)


def direct(t, n, form, manager):
    """suspend() and restart() called directly, in any order, with stages that end in between."""
    t.boot(signalfd=(manager == "signalfd"), maxfd=60, interactive=t.flag("interactive"))
    k = t.k
    k.waitpid_choice = True
    names = "abc"[:n]
    pl = build(t, form, names)
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    pids = [t.one(x).pid for x in names]
    dead = []
    for i in range(4):
        c = t.choose("op%d" % i, 2 + n)
        if c == 0:
            t.call(lambda: rp.suspend(), "suspending")
            for p in alive(t, names):
                t.prove(p.state == "stop", "a process of a suspended pipeline is not stopped")
            t.cover("suspended")
        elif c == 1:
            t.call(lambda: rp.restart(), "restarting")
            for p in alive(t, names):
                t.prove(p.state == "run", "a process of a restarted pipeline is not continued")
            t.cover("restarted")
        else:
            p = k.procs[pids[c - 2]]
            if p.state not in ("run", "stop") or p.user.get("foreign"):
                t.assume(False)
            k.finish(p, t.pick("status%d" % i, [0, 9]))
            if t.flag("reaped%d" % i):
                t.settle()
                # its number now belongs to somebody else
                if p.state != "reaped":
                    t.fail("an ended process is not noticed")
                q = k.procs[p.pid] = Proc(p.pid, 1)
                q.state = "run"
                q.user["foreign"] = True
                dead.append(q)
                t.cover("reused")
    for q in dead:
        t.prove(q.state == "run", "a process that took over the number is stopped")
    check_signals(t, pids)
    for pid in pids:
        if k.procs[pid].state in ("run", "stop") and not k.procs[pid].user.get("foreign"):
            k.external = k.external + [end_of(pid, 0)]
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    if r.hung or not (r.ok or isinstance(r.value, t.running.PipelineFailed)):
        t.fail("the pipeline cannot be waited for (%s)" % r)
    check_signals(t, pids)
    t.note("kills", [list(x[:3]) for x in k.kill_log])


for m in ("signalfd", "asyncio"):
    scenario("C11", "direct_" + m, args=(2, "pipe", m), covers=["suspended", "restarted", "reused"],
             bounds="2 commands, any 4 of suspend, restart, ends; numbers of ended processes in use again")(direct)
scenario("C11", "direct_deep", args=(3, "group", "signalfd"), covers=["suspended", "restarted", "reused"], tier="thorough",
         bounds="3 commands, any 4 of suspend, restart, ends; numbers of ended processes in use again")(direct)


def outside(t, manager, pending):
    """A suspend request when nobody waits, or when the wait is not interactive, affects no pipeline."""
    t.boot(signalfd=(manager == "signalfd"), maxfd=60, interactive=True)
    k = t.k
    t.prog("a", forever)
    t.prog("b", forever)
    e2 = t.env(interactive=False)
    pl, pl2 = t.env.a, e2.b
    when = t.choose("when", 4)
    ra = rb = None
    z = ctrl_z(t, False)
    if when == 0:                       # before anything runs
        z(k)
    else:
        ra = t.call(lambda: pl.run(), "starting a program")
        rb = t.call(lambda: pl2.run(), "starting a program")
        if when == 1:                   # while nobody waits
            z(k)
        elif when == 2:                 # after a wait that has ended
            t.prog("c", exits(0))
            t.call(lambda: t.env.c.run_interactive(), "running a program")
            z(k)
        else:                           # while something that is not interactive is waited for
            k.external = [z]
            k.sched_budget = 2
            pid = t.one("b").pid
            k.external = k.external + [end_of(pid, 0)]
            r = t.attempt(lambda: t.loop.run_until_complete(rb.wait()))
            if not r.ok:
                t.fail("a wait that is not interactive is suspended (%s)" % r)
            k.sched_budget = 0
            if k.external:
                k.fire(0)
    if not pending:
        t.settle()
    if ra is None:
        ra = t.call(lambda: pl.run(), "starting a program")
    t.prove(t.one("a").state == "run", "a suspend request stops a pipeline nobody waits for")
    t.prove(not [x for x in k.kill_log if x[2] == STOP], "a suspend request stops a pipeline nobody waits for")
    k.external = [end_of(t.one("a").pid, 0)]
    r = t.attempt(lambda: t.loop.run_until_complete(ra.wait()))
    t.prove(r.ok, "a suspend request from before the wait suspends it (%s)" % r)
    t.cover("outside")


for m in ("signalfd", "asyncio"):
    scenario("C11", "outside_" + m, args=(m, False), covers=["outside"],
             bounds="Ctrl-Z before anything runs, while nobody waits, after a wait, during a wait that is not interactive")(outside)
    scenario("C11", "pending_" + m, args=(m, True), covers=["outside"],
             bounds="the same, noticed only when the next wait begins")(outside)


def two(t, sched, manager):
    """Two interactive pipelines, one waited for: only that one is suspended; both waited for: both are."""
    t.boot(signalfd=(manager == "signalfd"), maxfd=60, interactive=True)
    k = t.k
    t.prog("a", forever)
    t.prog("b", forever)
    ra = t.call(lambda: t.env.a.run(), "starting a program")
    rb = t.call(lambda: t.env.b.run(), "starting a program")
    both = t.flag("both")
    out = {}

    async def one(name, rp):
        try:
            await rp.wait()
            out[name] = "ended"
        except t.running.PipelineSuspended as x:
            out[name] = x.pipeline

    async def main():
        tasks = [t.loop.create_task(one("a", ra))]
        if both:
            tasks.append(t.loop.create_task(one("b", rb)))
        for i in range(3):
            await asyncio.sleep(0)
        k.external = [ctrl_z(t, False)]
        k.sched_budget = sched
        for x in tasks:
            await x
    t.call(lambda: t.loop.run_until_complete(main()), "the wait")
    t.prove(out.get("a") is ra, "the pipeline waited for is not suspended")
    t.prove(t.one("a").state == "stop", "the pipeline waited for is not stopped")
    if both:
        t.prove(out.get("b") is rb, "the pipeline waited for is not suspended")
        t.prove(t.one("b").state == "stop", "the pipeline waited for is not stopped")
    else:
        t.prove(t.one("b").state == "run", "a pipeline nobody waits for is suspended")
    t.settle()
    k.external = [end_of(t.one("a").pid, 0)]
    r = t.attempt(lambda: t.loop.run_until_complete(ra.wait()))
    t.prove(r.ok, "a resumed pipeline cannot be waited for (%s)" % r)
    if both:
        t.prove(t.one("b").state == "stop", "resuming one pipeline continues another one")
    k.external = [end_of(t.one("b").pid, 0)]
    r = t.attempt(lambda: t.loop.run_until_complete(rb.wait()))
    t.prove(r.ok, "a resumed pipeline cannot be waited for (%s)" % r)
    check_signals(t, [t.one("a").pid, t.one("b").pid])
    t.cover("suspended")


def two_parts(t, sched, manager, count):
    """Several pipelines waited for, parts of them ended: all of what still runs is suspended, nothing else."""
    t.boot(signalfd=(manager == "signalfd"), maxfd=60, interactive=True)
    k = t.k
    for c in "abcdef":
        t.prog(c, forever)
    names = ["ab", "cd", "ef"][:count]
    rps = [t.call(lambda: (t.env._(n[0]) | t.env._(n[1])).run(), "starting a pipeline") for n in names]
    waited = [t.flag("waited%d" % i) for i in range(count)]
    order = list(range(count))
    if t.flag("backwards"):
        order.reverse()
    over = t.choose("over", 2 * count + 1)
    out = {}

    async def one(i):
        try:
            await rps[i].wait()
            out[i] = "ended"
        except t.running.PipelineSuspended as x:
            out[i] = x.pipeline

    async def main():
        tasks = [t.loop.create_task(one(i)) for i in order if waited[i]]
        for i in range(3):
            await asyncio.sleep(0)
        if over:
            k.finish(t.one("abcdef"[over - 1]), 0)
            for i in range(3):
                await asyncio.sleep(0)
        k.external = [ctrl_z(t, False)]
        k.sched_budget = sched
        for x in tasks:
            await x
    t.assume(any(waited))
    t.call(lambda: t.loop.run_until_complete(main()), "the wait")
    k.sched_budget = 0
    if k.external:
        k.fire(0)
    t.settle()
    for i, n in enumerate(names):
        rest = alive(t, n)
        if waited[i]:
            t.prove(out.get(i) is rps[i], "a pipeline waited for is not suspended")
        for p in rest:
            t.prove(p.state == ("stop" if waited[i] else "run"),
                    "a process of a pipeline waited for is not stopped" if waited[i] else "a pipeline nobody waits for is suspended")
    for i, n in enumerate(names):
        k.external = [end_of(p.pid, 0) for p in alive(t, n)]
        r = t.attempt(lambda: t.loop.run_until_complete(rps[i].wait()))
        t.prove(r.ok, "a resumed pipeline cannot be waited for (%s)" % r)
        for j in range(i + 1, count):
            for p in alive(t, names[j]):
                t.prove(p.state == ("stop" if waited[j] else "run"), "resuming one pipeline changes another one")
    check_signals(t, [t.one(c).pid for n in names for c in n])
    t.cover("suspended")
    if over:
        t.cover("parts")


for m in ("signalfd", "asyncio"):
    scenario("C11", "parts_" + m, args=(1, m, 2), covers=["suspended", "parts"],
             bounds="two pipelines of 2 commands, any of them waited for in any order, any one command ended before; Ctrl-Z")(two_parts)
scenario("C11", "parts_deep", args=(3, "signalfd", 3), covers=["suspended", "parts"], tier="thorough",
         bounds="three pipelines of 2 commands, any of them waited for, any one command ended before; Ctrl-Z at any of 3 free moments")(two_parts)


for m in ("signalfd", "asyncio"):
    scenario("C11", "two_" + m, args=(3, m), covers=["suspended"],
             bounds="two pipelines, one or both waited for, Ctrl-Z at any of 3 free moments")(two)
