"""C08  A process is running until it has terminated, and then keeps its status."""
from sx.api import *

STOP = [19, 20, 21, 22]


class Track(object):
    """What the harness knows about one process."""

    def __init__(self, rp, proc, pid):
        self.rp = rp
        self.proc = proc
        self.pid = pid
        self.status = None          # the number it has to report once it has ended


def start(t, name):
    t.prog(name, forever)
    rp = t.call(lambda: t.env._(name).run(), "starting a program")
    p = t.started(name)[-1]
    return Track(rp, rp.processes[0], p.pid)


def state(t, tr):
    return t.k.procs[tr.pid].state


def happen(t, tr, tag, short=False):
    """something happens to a process"""
    k = t.k
    p = k.procs[tr.pid]
    if p.state == "run":
        c = t.choose("what" + tag, 3)
    else:
        c = 3 + t.choose("what" + tag, 2)
    if c == 0:
        k.signal_proc(p, 20 if short else t.pick("stop" + tag, STOP[:2]))
        t.cover("stopped")
    elif c == 1:
        code = t.int("code" + tag, 0, 255)
        k.finish(p, code * 256)
        tr.status = code
        t.cover("exited")
    elif c == 2:
        sig = t.int("sig" + tag, 1, 64)
        core = t.int("core" + tag, 0, 1)
        k.finish(p, sig + core * 128)
        tr.status = sig
        t.cover("killed")
    elif c == 3:
        k.signal_proc(p, 18)
        t.cover("continued")
    else:
        k.signal_proc(p, 9)
        tr.status = 9
        t.cover("killed")


def check(t, trs, settled):
    for tr in trs:
        run = tr.proc.is_running
        if tr.status is None:
            t.prove(eq(run, True), "a process that has not terminated is reported as ended")
            t.prove(eq(tr.rp.is_running, True), "a pipeline that has not ended is reported as ended")
            t.prove(len(tr.rp.failed_processes) == 0, "a process that has not terminated is reported as failed")
        elif settled:
            t.prove(eq(run, False), "a process that has terminated is reported as running")
        if tr.status is not None and not run:
            t.prove(eq(tr.proc.exit_code, tr.status), "the reported status is not that of the process")
            t.prove(eq(tr.rp.exit_code, tr.status), "the reported status is not that of the process")
            t.prove(eq(tr.proc.is_failed, not_(eq(tr.status, 0))), "is_failed does not agree with the status")
            t.prove(eq(len(tr.rp.failed_processes) == 1, not_(eq(tr.status, 0))), "failed does not agree with the status")
            t.cover("ended")


def foreign(t, tag):
    """a child of this process that the shell knows nothing about"""
    k = t.k
    q = k.procs.get(900)
    if q is None:
        from sx.simos import Proc
        q = k.procs[900] = Proc(900, k.root_pid)
        q.state = "run"
    if q.state == "run":
        if t.flag("foreign" + tag):
            k.signal_proc(q, 19)
        else:
            k.finish(q, t.int("fstatus" + tag, 0, 255) * 256)
    elif q.state == "stop":
        k.signal_proc(q, 18)
    t.cover("foreign")


def history(t, nproc, length, manager, waitpid_choice, other=False):
    """Any history of stops, continues and ends, with the event loop running at any moments in between."""
    t.boot(signalfd=(manager == "signalfd"))
    t.k.waitpid_choice = waitpid_choice
    trs = [start(t, "xyz"[i]) for i in range(nproc)]
    for i in range(length):
        tag = str(i)
        live = [tr for tr in trs if tr.status is None]
        c = t.choose("who" + tag, len(live) + 1 + other)
        if c < len(live):
            happen(t, live[c], tag, nproc > 1)
        elif c == len(live):
            # the event loop gets to run
            t.settle()
            check(t, trs, True)
        else:
            foreign(t, tag)
        check(t, trs, False)
    t.settle()
    check(t, trs, True)
    if other:
        foreign(t, "end")
        t.settle()
        check(t, trs, True)
    t.note("st", [[tr.proc.is_running, tr.proc.exit_code if tr.status is not None else None] for tr in trs])


C = ["stopped", "continued", "exited", "killed", "ended"]
for m in ("signalfd", "asyncio"):
    scenario("C08", "one_" + m, args=(1, 6, m, False), covers=C,
             bounds="1 process, any history of 6 events (any codes and signals) and turns of the event loop")(history)
    scenario("C08", "two_" + m, args=(2, 4, m, True), covers=C,
             bounds="2 processes, any history of 4 events and turns of the event loop, any order of reaping")(history)
    scenario("C08", "foreign_" + m, args=(1, 4, m, True, True), covers=C + ["foreign"],
             bounds="1 process and a child of the caller that is no part of a pipeline, any history of 4 events")(history)
    scenario("C08", "one_deep_" + m, args=(1, 10, m, False), covers=C, tier="thorough",
             bounds="1 process, any history of 10 events and turns of the event loop")(history)
    scenario("C08", "two_deep_" + m, args=(2, 6, m, True), covers=C, tier="thorough",
             bounds="2 processes, any history of 6 events, any order of reaping")(history)
    scenario("C08", "three_deep_" + m, args=(3, 5, m, True), covers=C, tier="thorough",
             bounds="3 processes, any history of 5 events, any order of reaping")(history)


def pipeline(t, n, manager, turns):
    """The stages of one pipeline end in any order, some at once; each keeps its own status."""
    t.boot(signalfd=(manager == "signalfd"))
    k = t.k
    k.waitpid_choice = True
    k.programs["*"] = forever
    e = t.env
    form = t.choose("form", 2)
    pl = e.a
    for i in range(1, n):
        pl = (pl | e._("abcd"[i])) if form == 0 else (pl + e._("abcd"[i]))
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    ps = [t.one("abcd"[i]) for i in range(n)]
    by = {p.pid: p for p in rp.processes}
    t.prove(sorted(by) == sorted(p.pid for p in ps), "the processes of the pipeline are not those started")
    status = {}
    left = list(ps)
    for i in range(n):
        p = left.pop(t.choose("next%d" % i, len(left)))
        if t.flag("exits%d" % i):
            status[p.pid] = t.int("code%d" % i, 0, 255)
            k.finish(p, status[p.pid] * 256)
        else:
            status[p.pid] = t.int("sig%d" % i, 1, 64)
            k.finish(p, status[p.pid])
        t.prove(rp.is_running, "the pipeline is reported as ended before the event loop has seen it")
        if left and t.flag("turn%d" % i):
            t.settle()
            for pid in by:
                t.prove(by[pid].is_running == (pid not in status), "the state of a stage is wrong")
            t.prove(rp.is_running, "the pipeline is reported as ended while a stage is running")
    t.settle()
    t.prove(not rp.is_running, "the pipeline is reported as running though its stages have ended")
    t.prove(not rp.running_processes, "the pipeline is reported as running though its stages have ended")
    for pid in by:
        t.prove(not by[pid].is_running, "the state of a stage is wrong")
        t.prove(eq(by[pid].exit_code, status[pid]), "a stage reports the status of another one")
        t.prove(eq(by[pid] in rp.failed_processes, not_(eq(status[pid], 0))), "failed does not agree with the status")
    t.cover("ended")
    t.note("st", [by[p.pid].exit_code for p in ps])


for m in ("signalfd", "asyncio"):
    scenario("C08", "pipeline_" + m, args=(3, m, 2), covers=["ended"],
             bounds="pipelines and groups of 3 commands, any order of ending, any statuses, event loop at any moment")(pipeline)
    scenario("C08", "pipeline4_" + m, args=(4, m, 2), covers=["ended"], tier="thorough",
             bounds="pipelines and groups of 4 commands, any order of ending")(pipeline)


def reused(t, manager):
    """The number of an ended process is given to a new one."""
    t.boot(signalfd=(manager == "signalfd"))
    k = t.k
    a = start(t, "x")
    code = t.int("code", 0, 255)
    a.status = code
    k.finish(k.procs[a.pid], code * 256)
    early = t.flag("same_turn")
    t.settle()
    check(t, [a], True)
    k.next_pid = a.pid
    b = start(t, "y")
    t.prove(b.pid == a.pid, "(harness) the number is not reused")
    t.prove(b.proc.is_running and not a.proc.is_running, "a new process with the number of an ended one has its state")
    t.settle()
    for i in range(2):
        what = t.choose("what%d" % i, 4)
        p = k.procs[b.pid]
        if what == 0:
            k.signal_proc(p, 19)
        elif what == 1:
            k.signal_proc(p, 18)
        elif what == 2 and b.status is None:
            b.status = t.int("code2", 0, 255)
            k.finish(p, b.status * 256)
        if t.flag("turn%d" % i):
            t.settle()
        t.prove(not a.proc.is_running, "an ended process is running again")
        t.prove(eq(a.proc.exit_code, code), "the status of an ended process changes")
    t.settle()
    check(t, [a, b], True)
    t.cover("reused")


for m in ("signalfd", "asyncio"):
    scenario("C08", "reused_" + m, args=(m,), covers=["reused"],
             bounds="a new process with the number of an ended one, any 2 events of it")(reused)


def details(t):
    """The same when information about processes comes from psutil."""
    t.boot(psutil=True)
    k = t.k
    trs = [start(t, "x"), start(t, "y")]
    for i in range(3):
        live = [tr for tr in trs if tr.status is None]
        if not live:
            break
        happen(t, live[t.choose("who%d" % i, len(live))], str(i), True)
        if t.flag("turn%d" % i):
            t.settle()
            check(t, trs, True)
        check(t, trs, False)
    t.settle()
    check(t, trs, True)
    t.cover("ended")


scenario("C08", "with_psutil", covers=["ended"], bounds="2 processes, any history of 3 events, psutil present")(details)


def reused_foreign(t, manager):
    """The number of an ended process is given to a child of the caller that no pipeline has started."""
    from sx.simos import Proc
    t.boot(signalfd=(manager == "signalfd"))
    k = t.k
    a = start(t, "x")
    code = t.int("code", 0, 255)
    a.status = code
    k.finish(k.procs[a.pid], code * 256)
    t.settle()
    check(t, [a], True)
    b = start(t, "y")
    q = k.procs[a.pid] = Proc(a.pid, k.root_pid)
    q.state = "run"
    for i in range(2):
        what = t.choose("what%d" % i, 3)
        if what == 0 and q.state == "run":
            k.signal_proc(q, 19)
        elif what == 1 and q.state == "stop":
            k.signal_proc(q, 18)
        elif what == 2 and q.state in ("run", "stop"):
            k.finish(q, t.int("code2", 0, 255) * 256)
            # at the same time
            b.status = t.int("code3", 0, 255)
            k.finish(k.procs[b.pid], b.status * 256)
        if t.flag("turn%d" % i):
            t.settle()
        t.prove(not a.proc.is_running, "an ended process is running again")
        t.prove(eq(a.proc.exit_code, code), "the status of an ended process changes")
    t.settle()
    check(t, [a, b], True)
    t.prove(not t.loop.errors, "an event of another process raises an error in the event loop")
    t.cover("reused")


for m in ("signalfd", "asyncio"):
    scenario("C08", "reused_foreign_" + m, args=(m,), covers=["reused"],
             bounds="a child that is no part of a pipeline with the number of an ended process, any 2 events of it")(reused_foreign)


def shown(t, length, manager):
    """What is shown of a process says which state it is in."""
    t.boot(signalfd=(manager == "signalfd"))
    tr = start(t, "x")
    k = t.k
    form = t.pick("form", ["process", "pipeline", "command"])
    for i in range(length):
        if tr.status is not None:
            break
        happen(t, tr, str(i))
        t.settle()
        p = k.procs[tr.pid]
        x = {"process": tr.proc, "pipeline": tr.rp, "command": tr.rp.pipeline}[form]
        text = t.call(lambda: t.repr(x), "showing a started command")
        t.prove(len(text) > 0 and text.find("x as %d" % tr.pid) == 0, "the process is not shown")
        ended = text.find("exit_code=")
        if tr.status is not None:
            t.prove(ended >= 0, "a process that has ended is shown as one that has not")
            rest = text[ended + len("exit_code="):]
            n = rest.find(")")
            value = 0
            for c in rest[:max(n, 0)]:
                value = value * 10 + (code(c) - 48)
            t.prove(n > 0 and eq(value, tr.status), "another exit code is shown")
            t.cover("ended")
        else:
            t.prove(ended < 0, "a process that has not ended is shown with an exit code")
            t.prove((text.find("signal=") >= 0) == (p.state == "stop"), "a process is shown as stopped exactly if it is not")
            t.cover("stopped" if p.state == "stop" else "running")


for m in ("signalfd", "asyncio"):
    scenario("C08", "shown_" + m, args=(3, m), covers=["ended", "stopped", "running"],
             bounds="1 process, any history of 3 events (any codes and signals), shown after each of them in one of 3 ways")(shown)
