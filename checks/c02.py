"""C02  A stage that cannot be set up fails, and never runs the caller's code."""
import errno as E
import os
from sx.api import *

ASSUMPTIONS = ["the calls that can fail in the new process are open, dup, dup2, chdir, exec, pipe and fork; an interrupt "
               "arrives at one of them"]
CALLS = ("open", "dup", "dup2", "chdir", "exec", "pipe", "fork")
ERRORS = {"enoent": E.ENOENT, "eacces": E.EACCES, "enotdir": E.ENOTDIR, "eisdir": E.EISDIR, "eagain": E.EAGAIN,
          "eintr": E.EINTR, "eexist": E.EEXIST, "epipe": E.EPIPE, "echild": E.ECHILD, "esrch": E.ESRCH,
          "etimedout": E.ETIMEDOUT, "econnrefused": E.ECONNREFUSED}          # those with an exception class of their own
KINDS = ["oserror", "enoent", "interrupt", "memory"]


def raising(kind, errno):
    if kind == "oserror":
        x = OSError("injected")
        x.errno = errno
        return x
    if kind in ERRORS:
        return OSError(ERRORS[kind], "injected")
    if kind == "interrupt":
        return KeyboardInterrupt()
    if kind == "exit":
        return SystemExit()
    return MemoryError("injected")


def inject(t, n, who=lambda k: k.cur != k.root_pid, limit=40, kinds_=KINDS, report=False):
    """up to n failing calls of the new process, anywhere, with any error"""
    ats, last = [], -1
    for i in range(n):
        at = t.int("at%d" % i, 0, limit)
        if ats:
            t.assume(at > ats[-1])
        ats.append(at)
    kinds = [t.pick("kind%d" % i, kinds_) for i in range(n)]
    errnos = [t.int("errno%d" % i, 1, 133) for i in range(n)]
    rkind = t.pick("reporting", ["oserror", "eagain", "epipe", "interrupt", "memory"]) if report else None

    def fault(k, call):
        if not who(k) or k.me.execd or call not in CALLS + ("stdio",):
            return
        u = k.me.user
        if call == "stdio":
            if report and "failed" in u:
                # there is no way to report the failure either
                t.cover("unreported")
                raise raising(rkind, E.EBADF)
            return
        c = u.get("calls", 0)
        u["calls"] = c + 1
        for i in range(n):
            if ats[i] == c:
                u.setdefault("failed", []).append(call)
                raise raising(kinds[i], errnos[i])
    t.k.faults = fault


def configure(t, which):
    """a pipeline whose first stage has the given redirections"""
    R = t.redir.Redirect
    e = t.env
    t.k.add_file("/w/in", b"data")
    return [lambda: e.x, lambda: ("/w/in" | e.x) | "/w/out", lambda: (e.x | R(0, 1, borrowed=True)) | R(1, 0, borrowed=True),
            lambda: (e.x | R(2, 1, borrowed=True)) | "/w/out", lambda: e.x | e.y, lambda: e.y | e.x,
            lambda: e.x("a", e.y), lambda: (e.x | R("stderr", t.redir.TMP)), lambda: e.y + e.x,
            ][which]()


NCONF = 9


def check_failed(t, p, r, faulty):
    t.prove(not p.execd, "the program runs although its set-up failed (%s)" % ", ".join(faulty))
    t.prove(p.ended_how == "_exit" and p.state != "run", "the new process did not end when its set-up failed")
    t.prove(not_(eq(p.exit_code, 0)), "the new process reports success although its set-up failed")
    t.prove(not t.k.escaped, "the new process came back into the calling code")
    t.prove(isinstance(r.value, t.running.PipelineFailed) and not r.ok,
            "the pipeline is not reported as failed (%s)" % (r,))


def faults(t, which, n, kinds_=KINDS, report=False):
    t.boot()
    t.prog("x", exits(0))
    t.prog("y", exits(0))
    inject(t, n, kinds_=kinds_, report=report)
    pl = configure(t, which)
    r = t.attempt(lambda: pl.run_interactive())
    if r.hung:
        t.fail("the wait never ends")
    failed = [p for p in t.children() if "failed" in p.user]
    if not failed:
        t.prove(r.ok, "a pipeline whose set-up succeeds is reported as failed")
        t.prove(all(p.execd for p in t.children()), "a program was not started")
        t.cover("none")
    for p in failed:
        check_failed(t, p, r, p.user["failed"])
        t.cover("failed")
        if "exec" in p.user["failed"]:
            t.cover("exec")
    t.note("r", [r.kind, [p.execd for p in t.children()]])


for w in range(NCONF):
    scenario("C02", "fault_%d" % w, args=(w, 1), covers=["none", "failed", "exec"],
             bounds="one failing call (any, any errno, or an interrupt) in each new process, pipeline form %d" % w)(faults)
    scenario("C02", "two_faults_%d" % w, args=(w, 2), covers=["none", "failed"], tier="quick" if w in (1, 3) else "thorough",
             bounds="two failing calls in each new process, pipeline form %d" % w)(faults)
    scenario("C02", "classes_%d" % w, args=(w, 1, sorted(ERRORS)), covers=["none", "failed"],
             tier="quick" if w in (0, 1, 3, 6) else "thorough",
             bounds="one failing call with each of the errors Python has a class for, pipeline form %d" % w)(faults)
    scenario("C02", "unreported_%d" % w, args=(w, 1, ["oserror", "interrupt", "exit"], True), covers=["none", "failed", "unreported"],
             tier="quick" if w in (0, 3) else "thorough",
             bounds="one failing call, and the failure can not be written to stderr either (or an interrupt arrives then), "
                    "pipeline form %d" % w)(faults)
    scenario("C02", "three_faults_%d" % w, args=(w, 3), covers=["none", "failed"], tier="thorough",
             bounds="three failing calls in each new process, pipeline form %d" % w)(faults)


def subshell(t, n, deep, inner):
    """the forked pieshell of a subshell: it may fail anywhere, also while it runs the inner pipeline"""
    t.boot()
    t.prog("x", exits(0))
    t.prog("y", exits(0))
    if deep:
        inject(t, n, who=lambda k: k.cur != k.root_pid and k.me.ppid != k.root_pid)
    else:
        # until the inner pipeline has been started; what happens then is no set-up
        inner_stages = 1 + inner
        inject(t, n, who=lambda k: k.cur != k.root_pid and k.me.ppid == k.root_pid and len(
            [p for p in k.procs.values() if p.ppid == k.cur]) < inner_stages)
    e = t.env
    pl = [lambda: e.subshell(e.x), lambda: "/w/in" | e.subshell(e.x | e.y) | "/w/out"][inner]()
    t.k.add_file("/w/in", b"data")
    r = t.attempt(lambda: pl.run_interactive())
    if r.hung:
        t.fail("the wait never ends")
    t.prove(not t.k.escaped, "the new process came back into the calling code")
    sub = [p for p in t.children() if p.pid == 1001][0]
    t.prove(not sub.execd and sub.ended_how == "_exit", "the subshell's process does not end by exiting")
    failed = [p for p in t.children() if "failed" in p.user]
    if not failed:
        t.prove(r.ok, "a subshell whose set-up succeeds is reported as failed")
        t.cover("none")
    for p in failed:
        t.prove(not p.execd, "the program runs although its set-up failed")
        t.prove(p.ended_how == "_exit", "the new process did not exit when its set-up failed")
        t.prove(not_(eq(p.exit_code, 0)), "a process whose set-up failed (%s) reports success" % p.user["failed"])
        t.prove(isinstance(r.value, t.running.PipelineFailed), "the pipeline is not reported as failed (%s)" % (r,))
        t.cover("failed")
    t.note("r", [r.kind, [p.execd for p in t.children()]])


scenario("C02", "subshell", args=(1, False, 0), covers=["none", "failed"],
         bounds="one failing call anywhere in a subshell's process")(subshell)
scenario("C02", "subshell_inner", args=(1, True, 0), covers=["none", "failed"],
         bounds="one failing call anywhere in the processes started by a subshell")(subshell)
scenario("C02", "subshell_pipe", args=(1, False, 1), covers=["none", "failed"],
         bounds="one failing call anywhere in a subshell's process, with files and an inner pipe")(subshell)
scenario("C02", "subshell_two", args=(2, False, 0), covers=["none", "failed"], tier="thorough",
         bounds="two failing calls anywhere in a subshell's process")(subshell)
scenario("C02", "subshell_pipe_two", args=(2, False, 1), covers=["none", "failed"], tier="thorough",
         bounds="two failing calls anywhere in a subshell's process, with files and an inner pipe")(subshell)


def missing(t, nchars):
    """The name of the file, directory or program: any text over the given characters."""
    t.boot()
    k = t.k
    k.add_file("/w/a", b"data")
    k.add_dir("/w/d")
    k.add_file("/w/d/a", b"data")
    secret = k.add_file("/w/b", b"")
    secret.unreadable = True
    t.prog("x", exits(0))
    t.prog("p", E.EACCES)
    t.prog("q", E.ENOEXEC)
    what = t.pick("what", ["stdin", "stdout", "stderr", "program"])
    if what == "program":
        name = t.str("name", 1, among="xpqz")
        pl = t.env._(t.environ.R(name))
        ok = eq(name, "x")
    else:
        name = t.str("name", nchars, among="/adbz")
        path = "/w/" + name
        pl = t.env.x | t.redir.Redirect(what, path)
        before = list(k.procs[1000].fds.ent)
        try:
            k.sys_open(path, os.O_RDONLY if what == "stdin" else os.O_WRONLY | os.O_CREAT)
            ok = True
        except OSError:
            ok = False
        k.procs[1000].fds.ent = before
    r = t.attempt(lambda: pl.run_interactive())
    p = t.children()[0]
    if bool(ok):
        t.prove(p.execd and r.ok, "a command that can be set up is reported as failed")
        t.cover("fine")
    else:
        p.user["failed"] = [what]
        check_failed(t, p, r, [what])
        t.cover("failed")
    t.note("r", [r.kind, p.execd])


scenario("C02", "missing", args=(3,), covers=["fine", "failed"],
         bounds="any 3-character path over / a d b z (files, directories, unreadable, missing) for every standard "
                "descriptor, and 4 program names")(missing)


def cwd_gone(t):
    """The environment's directory disappears, or stops being one, before the run."""
    t.boot()
    k = t.k
    d = k.add_dir("/w/sub")
    t.prog("x", exits(0))
    t.call(lambda: t.env._cd("/w/sub"))
    how = t.pick("how", ["intact", "removed", "file", "unmounted"])
    top = k.lookup("/w")
    if how != "intact":
        top.entries = [(n, x) for n, x in top.entries if n != "sub"]
    if how == "file":
        k.add_file("/w/sub", b"")
    if how == "unmounted":
        k.root.entries = [(n, x) for n, x in k.root.entries if n != "w"]
    form = t.pick("form", [0, 1, 2])
    pl = [lambda: t.env.x, lambda: t.env.x | "/tmp/out", lambda: t.env.subshell(t.env.x)][form]()
    r = t.attempt(lambda: pl.run_interactive())
    p = t.children()[0]
    if how == "intact":
        t.prove(r.ok, "a command that can be set up is reported as failed")
        t.cover("fine")
    else:
        check_failed(t, p, r, ["chdir"])
        t.prove(not t.started("x"), "a program runs although its working directory is gone")
        t.cover("failed")
    t.note("r", [r.kind, p.execd])


scenario("C02", covers=["fine", "failed"], bounds="4 states of the directory, 3 forms of pipeline")(cwd_gone)


def subshell_exit(t):
    """A function in a subshell leaves the program: only the subshell ends."""
    t.boot()
    code = t.pick("code", [None, 0, 3, 256, "text", 1 << 40, -1, True, 2.5, b"x", ("a",)])
    how = t.pick("how", ["function", "generator", "coroutine"])
    t.prog("x", exits(0))
    k = t.k

    def boom():
        raise SystemExit(code)

    def function(stdin):
        boom()

    def generator(stdin):
        yield "a"
        boom()

    async def coroutine(stdin):
        boom()
    fn = {"function": function, "generator": generator, "coroutine": coroutine}[how]
    e = t.env
    pl = e.subshell(e.x | fn)
    r = t.attempt(lambda: pl.run_interactive())
    if r.hung:
        t.fail("the wait never ends")
    t.prove(not k.escaped, "the new process came back into the calling code")
    sub = [p for p in t.children() if p.pid == 1001][0]
    t.prove(sub.ended_how == "_exit", "the subshell's process does not end by exiting")
    if code not in (None, 0, 256, 1 << 40):
        t.prove(not eq(sub.exit_code, 0), "a subshell that exits with an error reports success")
    if isinstance(code, int) and 0 < code < 256:
        t.prove(eq(sub.exit_code, int(code)), "the subshell does not exit with the given code")
    t.cover(how)
    t.note("r", [r.kind])


scenario("C02", covers=["function", "generator", "coroutine"], bounds="11 arguments of SystemExit, 3 kinds of function")(subshell_exit)
