"""C30  Logging shows what happens and changes nothing."""
import errno

from sx.api import *
from sx.engine import eng
from .shapes import Picture, build, tree

ASSUMPTIONS = ["the log goes to a stream of its own (standard output of the interpreter, which programs do not write to)",
               "logging delivers records as documented: to the handlers of their logger and of its parents"]
CATEGORIES = ["cmd", "fd", "io", "ioevent", "ioreg", "signal", "signalreg"]


def world(t, interactive=False, broken=None, codes=(0,), maxfd=32):
    k = t.kernel(maxfd=maxfd)
    for d in ("/w", "/w/sub"):
        k.mkdir_p(d)
    k.add_file("/w/in", b"content\n")
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, exports={"HOME": "/home/u", "PATH": "/bin"}, interactive=interactive)
    log = t.logfd = k.rootp.fds.find(t.mod("log").logfd)
    log[1] = k.new_ofd("ext", None)
    log[1].label = "log"
    log[1].broken = broken
    for i, name in enumerate("abcdef"):
        t.prog(name, through(name.encode(), codes[0] if i else t.pick("ends", codes)))


def through(name, code):
    def prog(k, p):
        yield ("write", 2, name + b" runs\n")
        while True:
            d = yield ("read", 0, 65536)
            if isinstance(d, OSError) or len(d) == 0:
                break
            yield ("write", 1, d)
        return code
    return prog


def logged(t):
    o = t.k.rootp.fds.find(t.mod("log").logfd)[1]
    return getattr(o, "out", b"")


def enable(t, categories):
    for c in categories:
        t.mod("log").enable(c)


def one_run(t, mk, how):
    """everything that can be seen of a run"""
    k = t.k
    had = [p.pid for p in t.children()]
    lines, rps = [], []
    for n in ("/w/out", "/w/err"):
        if exists(k, n):
            k.lookup(n).data = b""

    def go():
        pl = mk()
        if how == "run":
            rp = pl.run()
            rps.append(rp)
            t.loader.modules["asyncio"].get_event_loop().run_until_complete(rp.wait())
        elif how == "iterate":
            for line in pl:
                lines.append(line)
        elif how == "text":
            lines.append(str(pl))
        elif how == "display":
            lines.append(type(pl).__repr__(pl))
        else:
            pl.run_interactive()
    before = [(e[0], e[1].label if e[1].kind == "ext" else e[1].kind, e[2]) for e in k.rootp.fds.ent]
    r = t.attempt(go)
    t.settle()
    t.prove(not r.hung, "the pipeline never ends")
    after = [(e[0], e[1].label if e[1].kind == "ext" else e[1].kind, e[2]) for e in k.rootp.fds.ent]
    procs = [p for p in t.started() if p.pid not in had]
    out = {"error": None if r.ok else type(r.value).__name__, "lines": lines, "procs": [(p.name, p.state, p.status) for p in procs],
           "descriptors": before == after, "files": len(k.lookup("/w").entries),
           "jobs": len(list(t.env.running_pipelines)), "directory": t.env._cwd}
    out["captured"] = [sorted(getattr(i, "output_content", ())) for rp in rps for i in rp.processes]
    data = {"outputs": [k.lookup(n).data if exists(k, n) else b"" for n in ("/w/out", "/w/err")]}
    for p in procs:
        for f, o in p.exec_fds or ():
            t.prove(o.label != "log" if o.kind == "ext" else True, "a program is given the log")
    return out, data, Picture(t, procs)


def exists(k, n):
    try:
        k.lookup(n)
    except OSError:
        return False
    return True


def compare(t, plain, with_log):
    a, b = plain[0], with_log[0]
    for n in a:
        if n == "lines":
            t.prove(len(a[n]) == len(b[n]), "with logging the output is another one")
            for x, y in zip(a[n], b[n]):
                t.prove(len(x) == len(y) and eq(x, y), "with logging the output is another one")
        else:
            t.note(n, (a[n], b[n]))
            t.prove(a[n] == b[n], "with logging: other %s" % n)
    for x, y in zip(plain[1]["outputs"], with_log[1]["outputs"]):
        t.prove(len(x) == len(y) and eq(x, y), "with logging: other data in a file")
    with_log[2].same(plain[2], "with logging")


def both(t, mk, how, categories):
    plain = one_run(t, mk, how)
    t.prove(len(logged(t)) == 0, "something is logged although nothing was asked for")
    enable(t, categories)
    with_log = one_run(t, mk, how)
    compare(t, plain, with_log)
    if plain[0]["error"]:
        t.cover("failed")
    return plain


def shapes(t, n, leaves, ops, decorate, hows, codes, broken=(None,)):
    """Any pipeline: the same with everything logged, also if the log cannot be written."""
    how = t.pick("how", hows)
    b = t.pick("log", broken)
    world(t, interactive=how == "display", broken=b, codes=codes)
    spec = tree(t, t.choose("n", n) + 1, leaves, ops, decorate, "")

    def mk():
        p = build(t, spec)
        return p if isinstance(p, t.mod("pipeline.base").Pipeline) else t.mod("pipeline.function").Function(t.env, p)
    both(t, mk, how, CATEGORIES + ["misc", "error"])
    if b is None:
        t.prove(len(logged(t)) > 0, "nothing is logged")
    t.cover("same")


HOWS = ["interactive", "iterate", "text", "display", "run"]
DECO = [("stdout", "/w/out"), ("stderr", 1), ("stdin", "/w/in"), ("stdout", "/none/x")]
scenario("C30", "one", args=(1, ["cmd", "fn", "it", "fnraise", "itmany"], ["pipe"], DECO, HOWS, (0, 3)), covers=["same", "failed"],
         bounds="one stage of 5 kinds with 4 redirections, run in 5 ways, 2 exit statuses")(shapes)
scenario("C30", "shapes", args=(2, ["cmd", "fn", "it", "fnraise"], ["pipe", "group", "arg"], [], HOWS, (0,)), covers=["same", "failed"],
         bounds="up to two stages of 4 kinds in 3 arrangements, run in 5 ways")(shapes)
scenario("C30", "unwritable", args=(2, ["cmd", "fn", "it"], ["pipe"], [("stdout", "/w/out"), ("stderr", "/w/err")], ["interactive", "iterate"], (0, 3),
                                    (errno.EPIPE, errno.ENOSPC, errno.EAGAIN, errno.EIO)), covers=["same", "failed"],
         bounds="up to two stages of 3 kinds; every write to the log fails in one of 4 ways")(shapes)
scenario("C30", "shapes_deep", args=(3, ["cmd", "fn", "it", "fnraise"], ["pipe", "group", "arg"], DECO[:1], HOWS[:3], (0,)), covers=["same", "failed"],
         tier="thorough", budget=1500, bounds="up to three stages of 4 kinds in 3 arrangements, run in 3 ways")(shapes)


def texts(t, length):
    """Any texts in arguments and file names can be logged."""
    world(t)
    s = t.str("s", t.choose("len", length + 1), exclude="\0/%~*?[", escapes=True)
    where = t.pick("where", ["argument", "file", "unopenable", "R", "missing program", "list", "fn output"])
    env, R = t.env, t.environ.R
    if where == "file" and (len(s) == 0 or s in (".", "..")):
        return

    async def fn(stdin):
        yield s

    def mk():
        return {"argument": lambda: env.a(s) | "/w/out", "R": lambda: env.a(R(s)), "file": lambda: env.a("x") | t.redir.Redirect("stderr", "/w/" + s),
                "unopenable": lambda: env.a("x") | t.redir.Redirect("stdout", "/none/" + s), "missing program": lambda: env._("x" + s),
                "list": lambda: t.mod("pipeline.function").Function(env, [s]) | env.a(),
                "fn output": lambda: env.a() | fn}[where]()
    both(t, mk, "interactive", CATEGORIES)
    t.cover("same")


scenario("C30", "texts", args=(1,), covers=["same", "failed"], bounds="any text of 0-1 characters in 7 places")(texts)
scenario("C30", "texts_deep", args=(3,), covers=["same", "failed"], tier="thorough", bounds="any text of 0-3 characters in 7 places")(texts)


def categories(t, n):
    """Only what was asked for is logged, each message as one line, with its category."""
    world(t)
    on = []
    for i in range(n):
        c = t.pick("category%d" % i, CATEGORIES)
        if c not in on:
            on.append(c)
    enable(t, on)

    async def fn(stdin):
        async for line in stdin:
            yield line
    env = t.env
    t.call(lambda: (["x"] | env.a("y") | fn | t.redir.Redirect("stdout", "/w/out")).run_interactive(), "running a pipeline")
    t.settle()
    data = logged(t)
    t.prove(data[len(data) - 1:] == b"\n", "the log does not end with the end of a line")
    lines = data.split(b"\n")[:-1]
    seen = []
    for line in lines:
        parts = line.split(b":")
        if len(parts) >= 4 and parts[0].isdigit() and parts[1] == b"ERROR":
            cat = parts[2].decode()
            t.prove(cat in on, "%s is logged although it was not asked for" % cat)
            seen.append(cat)
    for c in on:
        t.prove(c in seen, "%s is not logged although it was asked for" % c)
    t.cover("logged")


scenario("C30", "categories", args=(2,), covers=["logged"], bounds="any one or two of 7 categories")(categories)


def descriptors(t, limits):
    """A program is given any descriptors: none of them is the log, and what was logged does not end up there."""
    limit, fds = t.pick("limit", limits)
    world(t, maxfd=limit)
    fd = t.pick("descriptor", [f for f in fds if f < limit - 1])
    direction = t.pick("direction", ["write", "read"])
    env, k = t.env, t.k

    def prog(kernel, p):
        if direction == "write":
            yield ("write", fd, b"data of its own\n")
            d = b"-"
        else:
            d = yield ("read", fd, 65536)
        yield ("write", 1, d)
        return 0
    t.prog("own", prog)
    k.add_file("/w/extra", b"what it reads\n")
    R = t.redir.Redirect
    piped = t.choose("piped", 2)

    def mk():
        r = R(fd, "/w/extra", 0o1 | 0o100 | 0o1000) if direction == "write" else R(fd, "/w/extra", 0)
        p = env._("own") | r | R("stdout", "/w/out")
        return ["x"] | env.a() | p if piped else p
    both(t, mk, "interactive", CATEGORIES + ["misc", "error"])
    want = b"data of its own\n" if direction == "write" else b"what it reads\n"
    t.prove(k.lookup("/w/extra").data == want, "other data at a descriptor of the program")
    t.prove(k.lookup("/w/out").data == (b"-" if direction == "write" else want), "other data at the output of the program")
    t.cover("same")


scenario("C30", "descriptors", args=([(32, (3, 4, 5, 9, 10, 16, 20, 22)), (300, (63, 64, 99, 100, 128, 254, 255, 256, 285))],), covers=["same"],
         bounds="17 numbers of a descriptor the program is given, at least nine below two limits (32, 300)")(descriptors)
