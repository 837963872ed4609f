"""C07  Child status words are decoded exactly."""
from sx.api import *

SIGMAX = 64


def stop_by(sig):
    def f(k, p):
        p.state = "stop"
        p.note_stop = sig * 256 + 0x7f
        k.notify_parent(p)
    return f


def cont(pid):
    def f(k):
        q = k.procs[pid]
        if q.state == "stop":
            q.state = "run"
            q.note_stop = None
            q.note_cont = True
            k.notify_parent(q)
    return f


def arrange(t, name, kind, tag=""):
    """A program whose only status change is the given one; what its last event has to say."""
    if kind == "exit":
        code = t.int("code" + tag, 0, 255)
        t.prog(name, exits(code))
        return 1, code, True
    if kind == "signal":
        sig = t.int("sig" + tag, 1, SIGMAX)
        core = t.int("core" + tag, 0, 1)

        def prog(k, p):
            yield ("call", lambda k, p: k.finish(p, sig + core * 128))
        t.prog(name, prog)
        return ite(core == 1, 3, 2), sig, True
    if kind == "stop":
        sig = t.int("sig" + tag, 1, SIGMAX)

        def prog(k, p):
            yield ("call", stop_by(sig))
            yield ("never",)
        t.prog(name, prog)
        return 5, sig, False

    def prog(k, p):
        yield ("call", lambda k, p: setattr(k, "external", k.external + [cont(p.pid)]))
        yield ("call", stop_by(19))
        yield ("never",)
    t.prog(name, prog)
    return 6, None, False


def check(t, proc, pid, want, pending=None):
    code, status, ended = want
    ev = proc.iohandler.last_event
    if ev is None:
        t.fail("no event was delivered")
    t.prove(eq(ev["ssi_pid"], pid), "the event names another process")
    t.prove(eq(ev["ssi_signo"], 17), "the event is not a child event")
    t.prove(eq(ev["ssi_code"], code), "the kind of event is wrong")
    if status is not None:
        t.prove(eq(ev["ssi_status"], status), "the status of the event is wrong")
    t.prove(proc.is_running == (not ended), "a stopped or resumed child counts as ended, or an ended one as running")
    if ended:
        t.prove(eq(proc.exit_code, status), "the exit code is not the status of the process")
        t.prove(eq(proc.is_failed, not_(eq(status, 0))), "is_failed does not agree with the status")


def one_event(t, kind, manager):
    """The word wait(2) returns for one child, symbolic; what its event says."""
    t.boot(signalfd=(manager == "signalfd"))
    t.k.next_pid = t.pick("pid", [2, 1001, 32767, 65536, 65537, 4194303])
    want = arrange(t, "x", kind)
    pl = t.call(lambda: t.env.x.run(), "starting a program")
    p = t.one("x")
    t.settle()
    while t.k.external:
        t.k.fire(0)
    t.settle()
    check(t, pl.processes[0], p.pid, want)
    t.note("event", [pl.processes[0].iohandler.last_event[x] for x in ("ssi_pid", "ssi_code", "ssi_status")])
    t.note("running", pl.is_running)
    t.cover("event")


for manager in ("signalfd", "asyncio"):
    for kind in ("exit", "signal", "stop", "cont"):
        scenario("C07", "%s_%s" % (kind, manager), args=(kind, manager), covers=["event"],
                 bounds="one child, every %s status word (codes 0-255, signals 1-64, core flag), 6 process ids up to the largest" % kind)(one_event)


def two_events(t, manager):
    """Two children, every combination of kinds of status words, one notification, both orders of reaping."""
    t.boot(signalfd=(manager == "signalfd"))
    t.k.waitpid_choice = True
    ka = t.pick("a", ["exit", "signal", "stop", "cont"])
    kb = t.pick("b", ["exit", "signal", "stop"])
    wa, wb = arrange(t, "x", ka, "a"), arrange(t, "y", kb, "b")
    pa = t.call(lambda: t.env.x.run(), "starting a program")
    pb = t.call(lambda: t.env.y.run(), "starting a program")
    t.k.run_all()
    while t.k.external:
        t.k.fire(0)
    t.settle()
    check(t, pa.processes[0], t.one("x").pid, wa)
    check(t, pb.processes[0], t.one("y").pid, wb)
    t.cover("two")


for manager in ("signalfd", "asyncio"):
    scenario("C07", "two_%s" % manager, args=(manager,), covers=["two"],
             bounds="two children, every pair of status words, one notification, any order of reaping")(two_events)


def names(t):
    """The names shown for events are those of the codes and signals."""
    t.boot()
    su = t.mod("signalio.signalutils")
    code = t.int("code", 1, 6)
    status = t.pick("status", [0, 1, 2, 6, 9, 11, 15, 17, 18, 19, 20])
    d = t.call(lambda: su.siginfo_to_names({"ssi_signo": 17, "ssi_code": code, "ssi_status": status, "ssi_pid": 7}))
    for i, n in enumerate(["EXITED", "KILLED", "DUMPED", "TRAPPED", "STOPPED", "CONTINUED"]):
        t.prove(implies(code == i + 1, eq(d["ssi_code"], "CLD_" + n)), "wrong name of a code")
    t.prove(eq(d["ssi_pid"], 7), "a number that is no code was changed")
    if code == 1:
        t.prove(eq(d["ssi_status"], status), "an exit status is shown as something else")
    elif status:
        import signal
        t.prove(eq(getattr(signal, str(d["ssi_status"]), None), status), "wrong name of a signal")


scenario("C07", bounds="every code, 11 signal numbers")(names)


def sequence(t, manager, n):
    """Several events of one child, one after the other, each delivered before the next."""
    t.boot(signalfd=(manager == "signalfd"))
    k = t.k
    t.prog("x", forever)
    pl = t.call(lambda: t.env.x.run(), "starting a program")
    pid = t.one("x").pid
    proc = pl.processes[0]
    t.settle()
    seen = []
    for i in range(n):
        what = t.pick("what%d" % i, ["stop", "cont", "exit", "signal"])
        p = k.procs[pid]
        if what == "cont" and p.state != "stop":
            t.assume(False)
        if what == "stop":
            sig = t.int("sig%d" % i, 1, SIGMAX)
            stop_by(sig)(k, p)
            want = 5, sig, False
        elif what == "cont":
            cont(pid)(k)
            want = 6, None, False
        elif what == "exit":
            code = t.int("code%d" % i, 0, 255)
            k.finish(p, code * 256)
            want = 1, code, True
        else:
            sig, core = t.int("sig%d" % i, 1, SIGMAX), t.int("core%d" % i, 0, 1)
            k.finish(p, sig + core * 128)
            want = ite(core == 1, 3, 2), sig, True
        t.settle()
        check(t, proc, pid, want)
        seen.append(what)
        if want[2]:
            t.cover("ended")
            break
    t.note("seen", seen)


for manager in ("signalfd", "asyncio"):
    scenario("C07", "sequence_%s" % manager, args=(manager, 3), covers=["ended"],
             bounds="any 3 events of one child, every status word, each delivered before the next")(sequence)
    scenario("C07", "sequence_%s_deep" % manager, args=(manager, 6), covers=["ended"], tier="thorough",
             bounds="any 6 events of one child, every status word, each delivered before the next")(sequence)
