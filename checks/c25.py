"""C25  A pickled pipeline runs remotely as the same pipeline."""
import base64
import shlex
import types

from sx.api import *
from sx.engine import eng
from .shapes import Picture

ASSUMPTIONS = ["pickle follows the reduce functions as in Python 3.9; its bytes are an opaque token",
               "the other side runs the same pieshell, has the same directories and files, and imports the same modules",
               "redirections to files are absolute paths", "ssh hands its last argument to a shell"]
LOGIN = "/home/login"


# ---------------------------------------------------------------- pipelines of everything that can be sent
async def twice(stdin):
    async for line in stdin:
        yield line
        yield line
twice.__module__, twice.__qualname__ = "usermod", "twice"


def usermod(t):
    m = types.ModuleType("usermod")
    m.twice = twice
    t.loader.modules["usermod"] = m


REDIRS = [None, ("stdout", "/w/out"), ("stdin", "/w/in"), ("stderr", 1), ("stderr", "TMP"), ("stdout", "STRING"), ("stderr", None)]


def argument(t, label, kinds):
    """an argument for a command, made anew for every interpreter"""
    kind = t.pick(label, kinds)
    if kind in ("text", "R", "kw"):
        s = t.str(label + "s", t.choose(label + "n", 3), exclude="\0%~")
        if kind == "kw":
            return lambda t: {"some_opt": s, "flag": True}
        return (lambda t: t.environ.R(s)) if kind == "R" else (lambda t: s)
    if kind == "pattern":
        return lambda t: "f*"
    if kind == "Rpattern":
        return lambda t: t.environ.R("f*%(x")
    if kind == "pipeline":
        return lambda t: t.env.sub("x")
    if kind == "list":
        return lambda t: ["l1", "l2"]
    if kind == "function":
        return lambda t: twice
    return lambda t: "plain"


def expression(t, n, kinds, leaves, ops, redirs, tag="", first=True, count=None):
    """a function that builds the same pipeline in any interpreter"""
    count = count if count is not None else [0]
    if n == 1:
        count[0] += 1
        name = "abcdef"[count[0] - 1]
        kind = t.pick("leaf" + tag, [x for x in leaves if first or x != "list"])
        if kind == "cmd":
            arg = argument(t, "arg" + tag, kinds)
            r = t.pick("redir" + tag, redirs)

            def mk(t):
                p = t.env._(name, arg(t))
                if r is None:
                    return p
                target = getattr(t.redir, r[1]) if r[1] in ("TMP", "STRING") else r[1]
                if target is None:
                    return None | p if r[0] == "stdin" else p | t.redir.Redirect(r[0], "/dev/null")
                return p | t.redir.Redirect(r[0], target, borrowed=True)
            return mk
        Function = t.mod("pipeline.function").Function
        if kind == "list":
            return lambda t: t.mod("pipeline.function").Function(t.env, ["i1", "i2"])
        return lambda t: t.mod("pipeline.function").Function(t.env, twice)
    op, i = t.pick("op" + tag, [(o, i) for o in ops for i in range(1, n)])
    a = expression(t, i, kinds, leaves, ops, redirs, tag + "l", first, count)
    b = expression(t, n - i, kinds, leaves, ops, redirs, tag + "r", first and op == "group", count)
    if op == "pipe":
        return lambda t: a(t) | b(t)
    return lambda t: a(t) + b(t)


def interpreter(t, environ, **kw):
    t.boot(environ=environ, psutil=False, **kw)
    usermod(t)


def setup(t, exports=None, interactive=False, cwd="/w", codes=(0,)):
    k = t.kernel()
    for d in ("/w", "/w/sub", LOGIN, LOGIN + "/.config"):
        k.mkdir_p(d)
    for f in ("/w/f1", "/w/f2", "/w/in", "/w/sub/f3"):
        k.add_file(f, b"content\n")
    k.add_file(LOGIN + "/.config/pieshell", b"")
    k.rootp.cwd = k.lookup("/w")
    interpreter(t, {"HOME": "/home/u", "PATH": "/bin", "LOCAL": "here"}, cwd=cwd, exports=exports, interactive=interactive)
    for c, name in enumerate("abcdef"):
        code = codes[0] if c else t.pick("ends", codes)
        t.prog(name, through(code))
    t.prog("sub", emit(b"sub\n"))
    t.prog("ssh", sink)
    t.prog("true", exits(0))
    t.prog("sleep", forever)


def through(code):
    def prog(k, p):
        while True:
            d = yield ("read", 0, 65536)
            if isinstance(d, OSError) or len(d) == 0:
                break
            yield ("write", 1, d)
        return code
    return prog


def new_programs(t, f):
    """what f starts"""
    had = [p.pid for p in t.children()]
    r = t.attempt(f)
    t.settle()
    return r, [p for p in t.started() if p.pid not in had]


def run_here(t, mk):
    def go():
        return mk(t).run_interactive()
    r, procs = new_programs(t, go)
    t.prove(not r.hung, "a pipeline run here never ends")
    if not r.ok and not isinstance(r.value, t.running.PipelineFailed):
        t.fail("a pipeline run here raises %s: %s" % (type(r.value).__name__, show(r.value)))
    return r.ok, Picture(t, procs), report(t, r)


def report(t, r):
    """what is reported of a failed pipeline, without numbers"""
    if r.ok:
        return None
    text = t.call(lambda: type(r.value).__str__(r.value), "the text of an error")
    return "".join(c for c in text if not c.isdigit()) if isinstance(text, str) else None


def send(t, pl, options=(), what="remote"):
    """remote(..., pl); the command line for the other side"""
    env = t.env
    r, procs = new_programs(t, lambda: env.remote(*(tuple(options) + (pl,))).run_interactive())
    t.prove(r.ok, "%s raises %s: %s" % (what, type(r.value).__name__, show(r.value)))
    t.prove(len(procs) == 1 and procs[0].name == "ssh", "remote starts %s" % [p.name for p in procs])
    argv = list(procs[0].argv)
    t.prove(len(argv) == len(options) + 2, "ssh gets other arguments: %s" % argv)
    for a, b in zip(argv[1:], options):
        t.prove(len(a) == len(b) and eq(a, b), "ssh gets other options")
    t.prove(procs[0].exec_cwd == "/w", "ssh is started in %s" % procs[0].exec_cwd)
    words = shlex.split(argv[-1])
    t.prove(len(words) == 2 and words[0] == "pieshell" and words[1].startswith("--pcmd="), "the other side is asked to run %s" % argv[-1])
    return words


def run_there(t, words):
    """a login on the other side"""
    k = t.k
    k.rootp.cwd = k.lookup(LOGIN)
    simloop_reset()
    interpreter(t, {"HOME": LOGIN, "PATH": "/bin", "THERE": "there"}, env=False)
    t.loader.modules["sys"].argv[:] = words
    shell = t.mod("shell")
    shell.__dict__["print"] = lambda *a, **kw: None
    r, procs = new_programs(t, shell.main)
    t.prove(not r.hung, "the other side never ends")
    t.prove(not eng.w.data.get("console"), "there is a prompt on the other side")
    if not r.ok:
        t.prove(type(r.value).__name__ == "PipelineFailed", "the other side fails with %s: %s" % (type(r.value).__name__, show(r.value)))
    for p in procs:
        t.prove(p.state in ("reaped", "zombie"), "the other side does not wait for the pipeline")
    return r.ok, Picture(t, procs), report(t, r)


def simloop_reset():
    from sx import simloop
    simloop.reset_thread()


def same_run(t, here, there):
    t.prove(there[0] == here[0], "the pipeline succeeds on one side and fails on the other")
    there[1].same(here[1], "on the other side")
    if here[2] is not None and there[2] is not None:
        t.note("here", here[2])
        t.note("there", there[2])
        t.prove(here[2] == there[2], "another error is reported on the other side")


# ---------------------------------------------------------------- scenarios
def runs_there(t, n, kinds, leaves, ops, redirs, exports, interactive, codes):
    """Any pipeline runs there as here."""
    setup(t, exports=t.pick("exports", exports), interactive=t.pick("interactive", interactive), codes=codes)
    mk = expression(t, t.choose("n", n) + 1, kinds, leaves, ops, redirs)
    here = run_here(t, mk)
    words = send(t, t.call(lambda: mk(t), "building a pipeline"), ["host"])
    there = run_there(t, words)
    same_run(t, here, there)
    t.cover("same" if here[0] else "failed")


FULL = {"HOME": "/home/u", "PATH": "/bin", "X": "1"}
ALL = ["text", "R", "kw", "pattern", "Rpattern", "pipeline", "list", "function"]
scenario("C25", "arguments", args=(1, ALL, ["cmd"], ["pipe"], [None], [FULL, {}], [False, True], (0, 1)), covers=["same", "failed"],
         bounds="one command, 8 kinds of arguments with texts of up to 2 characters, 2 sets of variables, interactive or not, 2 exit statuses")(runs_there)
scenario("C25", "redirections", args=(1, ["plain"], ["cmd"], ["pipe"], REDIRS, [FULL], [False, True], (0,)), covers=["same"],
         bounds="one command with 7 redirections")(runs_there)
scenario("C25", "shapes", args=(3, ["plain"], ["cmd", "list", "fn"], ["pipe", "group"], [None], [FULL], [True], (0, 3)), covers=["same", "failed"],
         bounds="pipelines and groups of up to 3 commands, lists and functions")(runs_there)
scenario("C25", "mixed", args=(2, ["Rpattern", "pipeline"], ["cmd", "fn"], ["pipe", "group"], [None, ("stderr", "TMP")], [FULL], [True], (0,)),
         covers=["same"], bounds="up to 2 stages, with 2 kinds of arguments and 2 redirections each")(runs_there)
scenario("C25", "deep", args=(4, ["plain", "pattern", "pipeline"], ["cmd", "list", "fn"], ["pipe", "group"], [None, ("stderr", 1)], [FULL], [True], (0, 3)),
         covers=["same", "failed"], tier="thorough", budget=1500, bounds="up to 4 stages with arguments and redirections")(runs_there)


def earlier(t, n):
    """Whatever has been run before, or runs now, a pipeline can be sent, and stays as it was."""
    setup(t, exports=dict(FULL), interactive=t.flag("interactive"))
    kinds = ["nothing", "ran", "running", "function ran", "itself", "itself running", "failed", "completed", "background ended", "started copy"]
    env = t.env
    mk = lambda t: t.env.a("x") | t.env.b(t.environ.R("*"))
    pl = t.call(lambda: mk(t), "building a pipeline")
    here = run_here(t, mk)
    jobs = []
    sent = pl
    for i in range(n):
        what = t.pick("earlier%d" % i, kinds)
        if what == "ran":
            t.call(lambda: env.true().run_interactive(), what)
        elif what == "running":
            jobs.append(t.call(lambda: env.sleep("9").run(), what))
        elif what == "function ran":
            async def f(stdin):
                async for line in stdin:
                    yield line
            t.call(lambda: (env.true() | f).run_interactive(), what)
        elif what == "itself":
            t.call(lambda: pl.run_interactive(), what)
        elif what == "itself running":
            jobs.append(t.call(lambda: pl.run(), what))
        elif what == "failed":
            t.prog("false", exits(1))
            t.raises(lambda: env.false().run_interactive(), t.running.PipelineFailed, what)
        elif what == "completed":
            t.call(lambda: dir(env), what)
        elif what == "background ended":
            t.call(lambda: env.true().run(), what)
            t.settle()
        elif what == "started copy":
            rp = t.call(lambda: pl.run(), what)
            t.settle()
            sent = rp.pipeline
    running = list(env.running_pipelines)
    if t.flag("by hand"):
        pickle = t.loader.modules["pickle"]
        data = t.call(lambda: pickle.dumps(sent), "pickle.dumps")
        words = ["pieshell", "--pcmd=" + base64.b64encode(data).decode("ascii")]
    else:
        words = send(t, sent, ["host"])
    t.prove([x for x in env.running_pipelines if x in running] == [x for x in running if x.is_running], "sending a pipeline changes the list of running ones")
    # here, it still is what it was
    again = run_here(t, lambda t: pl)
    again[1].same(here[1], "after sending it")
    there = run_there(t, words)
    same_run(t, here, there)
    scope_env = t.environ.envScope["env"]
    t.prove(list(scope_env.running_pipelines) == [], "the other side has jobs of this side")
    t.cover("sent")


scenario("C25", "earlier", args=(1,), covers=["sent"], bounds="one of 10 things done before sending a pipeline by remote or pickle, interactive or not")(earlier)
scenario("C25", "earlier_two", args=(2,), covers=["sent"], tier="thorough", budget=1500, bounds="two of 10 things done before sending a pipeline")(earlier)


def environments(t):
    """Directory and variables are those of the pipeline's environment, also if it is not the one remote is called in."""
    x = t.str("x", t.choose("n", 3), exclude="\0~")
    setup(t, exports={"HOME": "/home/u", "PATH": "/bin", "X": x})
    where = t.pick("cwd", ["/w", "/w/sub", "..", "sub", "/"])
    extra = t.pick("exports", [None, {"Y": "2"}])
    k = t.k
    other = t.call(lambda: t.env(where, exports=extra), "another environment")
    mk = lambda t: other.a("%(HOME)s" if extra is None else "%(Y)s", "f*") | t.env.b("%(X)s")
    if t.flag("tilde"):
        mk = lambda t: t.env.a(t.environ.R("~"))
    here = run_here(t, mk)
    words = send(t, t.call(lambda: mk(t), "building a pipeline"), ["host"])
    there = run_there(t, words)
    same_run(t, here, there)
    t.cover("same")


scenario("C25", "environments", covers=["same"], bounds="2 environments, 5 directories, own or derived variables, values of up to 2 characters")(environments)


def options(t, n, length):
    """The arguments before the pipeline go to ssh unchanged."""
    setup(t, exports=dict(FULL))
    opts = [t.str("o%d" % i, t.choose("l%d" % i, length + 1), exclude="\0%~*?[") for i in range(t.choose("n", n + 1))]
    words = send(t, t.env.a("x"), opts)
    t.k.add_file("/w/x", b"")
    there = run_there(t, words)
    t.prove(there[0] and [r[0] for r in there[1].rows] == [["a", "x"]], "another command is run: %s" % [r[0] for r in there[1].rows])
    t.cover("sent")


scenario("C25", "options", args=(2, 3), covers=["sent"], bounds="up to 2 options of up to 3 characters")(options)


def wired(t):
    """remote is a stage of a pipeline like any other."""
    setup(t, exports=dict(FULL))
    env = t.env
    shape = t.pick("shape", ["alone", "first", "last", "middle", "group", "argument", "redirected", "out"])

    def mk(x):
        return {"alone": lambda: x(), "first": lambda: x() | env.b(), "last": lambda: env.a() | x(),
                "middle": lambda: env.a() | x() | env.b(), "group": lambda: x() + env.b(), "argument": lambda: env.a(x()),
                "redirected": lambda: x() | t.redir.Redirect("stderr", 1, borrowed=True), "out": lambda: x() | "/w/out"}[shape]()
    status = t.pick("status", [0, 1, 255])
    t.prog("ssh", through(status))
    rows = []
    for f in (lambda: env.ssh("host", "X"), lambda: env.remote("host", env.c())):
        r, procs = new_programs(t, lambda: mk(f).run_interactive())
        t.prove(not r.hung, "it never ends")
        t.prove(r.ok == (status == 0), "the failure of the other side is not reported" if status else "it fails")
        for p in procs:
            if p.name == "ssh":
                p.argv[-1] = "X"
        rows.append(Picture(t, procs))
    rows[1].same(rows[0], "remote")
    t.cover("failed" if status else "wired")


scenario("C25", "wired", covers=["wired", "failed"], bounds="remote in 8 places of a pipeline, 3 exit statuses")(wired)


def impossible(t):
    """What cannot be sent is reported, and nothing is started."""
    setup(t, exports=dict(FULL))
    env = t.env

    async def local(stdin):
        async for line in stdin:
            yield line

    def gen():
        yield "x"
    g = gen()
    what = t.pick("what", [local, g, "in group", "in argument"])
    if what == "in group":
        pl = env.a() + (env.b() | local)
    elif what == "in argument":
        pl = env.a(env.b() | local)
    else:
        pl = env.a() | local if what is local else g | env.a()
    r, procs = new_programs(t, lambda: env.remote("host", pl).run_interactive())
    t.prove(not r.hung and not r.ok, "a pipeline that cannot be sent is sent")
    t.prove(not procs, "something is started")
    t.prove(list(env.running_pipelines) == [], "something is running")
    if what is g:
        t.prove(next(g) == "x", "a generator is consumed by sending it")
    t.cover("reported")


scenario("C25", "impossible", covers=["reported"], bounds="4 places of functions and generators")(impossible)
