"""C24  Showing a pipeline runs it exactly once at the prompt and never elsewhere."""
import functools
import pathlib

from sx.api import *
from . import shapes

ASSUMPTIONS = ["the prompt displays the result of an expression by calling its __repr__ (as Python's prompt and ptpython do), not by calling repr()",
               "containers displayed at the prompt itself are not examined: Python displays their elements as the prompt does"]


class Holder(object):
    """an object that shows what it holds"""

    def __init__(self, t, x):
        self.t = t
        self.x = x

    def __repr__(self):
        return "Holder(%s)" % self.t.repr(self.x)


# ways of showing a pipeline that are not the prompt
NESTED = {
    "repr": lambda t, x: t.repr(x),
    "list": lambda t, x: t.repr([x, x]),
    "dict": lambda t, x: t.repr({"a": (x, x)}),
    "object": lambda t, x: t.repr(Holder(t, x)),
    "object at the prompt": lambda t, x: t.display(Holder(t, x)),
    "name": lambda t, x: x.__name__,
    "argument": lambda t, x: t.repr(t.env._("outer", "other") | x) if isinstance(x, t.mod("pipeline.base").Pipeline) else t.repr(x),
}


def processes(t):
    return len(t.k.procs)


def is_text(t, text, spec, what):
    t.prove(isinstance(text, str) and len(text) > 0, "%s gives no text" % what)
    t.prove("Failed to print" not in text, "%s gives no text" % what)
    i = 0
    for n in names(spec):
        j = text.find(n, i)
        t.prove(j >= 0, "%s gives a text without some part of the pipeline" % what)
        i = j + 1
    t.cover("text")


def names(spec):
    kind = spec[0]
    if kind in ("pipe", "group"):
        return names(spec[1]) + [" | " if kind == "pipe" else " + "] + names(spec[2])
    if kind == "arg":
        return ["a", "/dev/fd/"]
    if kind == "redir":
        return names(spec[1]) + [" with ", "--> %s" % spec[3]]
    if kind == "cmd":
        return [spec[1]]
    return {"fn": [".fn("], "it": ["iterator"]}[kind]


def programs(t, spec):
    if spec[0] in ("pipe", "group"):
        return programs(t, spec[1]) + programs(t, spec[2])
    if spec[0] == "arg":
        return [spec[1]] + programs(t, spec[2])
    if spec[0] == "redir":
        return programs(t, spec[1])
    return [spec[1]] if spec[0] == "cmd" else []


def reader(k, p):
    """reads all its input, from its arguments as well"""
    for a in list(p.argv)[1:]:
        if type(a) is str and a.startswith("/dev/fd/"):
            fd = int(a[8:])
            while True:
                d = yield ("read", fd, 65536)
                if isinstance(d, OSError) or len(d) == 0:
                    break
    while True:
        d = yield ("read", 0, 65536)
        if isinstance(d, OSError) or len(d) == 0:
            return 0


def setup(t, interactive=False):
    t.boot(interactive=interactive)
    for n in "abcdef":
        t.prog(n, reader)
    t.prog("outer", reader)
    t.k.mkdir_p("/w")


def trees(t, n, kinds, ops):
    """Any expression, in an interactive environment or not, shown in any way."""
    setup(t, t.flag("interactive"))
    spec = shapes.tree(t, n, kinds, ops, [(1, "/w/out")], "")
    pl = t.call(lambda: full(t, shapes.build(t, spec)), "building a pipeline")
    before = processes(t)
    how = t.pick("how", ["prompt"] + sorted(NESTED))
    # text first, then at the prompt
    if how != "prompt" or not t.env._interactive:
        show = NESTED[how] if how != "prompt" else lambda t, x: t.display(x)
        text = t.call(lambda: show(t, pl), "displaying a pipeline")
        t.prove(processes(t) == before, "displaying a pipeline in another place than the prompt runs it")
        is_text(t, text, spec, "displaying a pipeline")
        again = t.call(lambda: show(t, pl), "displaying a pipeline")
        t.prove(again == text, "displaying a pipeline a second time shows something else")
    t.prove("last_pipeline" not in t.env.__dict__, "a pipeline is started by its display")
    text = t.call(lambda: t.display(pl), "displaying a pipeline")
    want = programs(t, spec)
    if not t.env._interactive:
        t.prove(processes(t) == before, "displaying a pipeline in an environment that is not interactive runs it")
        is_text(t, text, spec, "displaying a pipeline")
        return
    t.prove(text == "", "the prompt shows something besides the output")
    for name in set(want):
        t.prove(len(t.started(name)) == want.count(name), "displaying a pipeline at the prompt does not run it exactly once")
    t.prove(len(t.started()) == len(want), "displaying a pipeline at the prompt runs something else")
    rp = t.env.last_pipeline
    t.prove(not rp.is_running, "the prompt does not wait for the pipeline")
    t.cover("ran")
    # what has been run is not run again
    parts = [rp, rp.pipeline] + list(rp.processes) + [p.cmd for p in rp.processes]
    now = processes(t)
    x = parts[t.choose("part", len(parts))]
    text = t.call(lambda: t.display(x), "displaying what has been run")
    t.prove(processes(t) == now, "displaying what has been run runs it again")
    t.prove(isinstance(text, str) and len(text) > 0, "displaying what has been run gives no text")
    # a second display of the pipeline runs it once more
    t.call(lambda: t.display(pl), "displaying a pipeline a second time")
    if "it" not in str(spec):
        for name in set(want):
            t.prove(len(t.started(name)) == 2 * want.count(name), "displaying a pipeline a second time does not run it once more")


def full(t, x):
    return x if isinstance(x, t.mod("pipeline.base").Pipeline) else t.mod("pipeline.function").Function(t.env, x)


scenario("C24", "one", args=(1, ["cmd", "fn", "it"], ["pipe"]), covers=["text", "ran"],
         bounds="a stage of 3 kinds with or without redirection, 8 ways of displaying it, interactive or not")(trees)
scenario("C24", "two", args=(2, ["cmd", "fn"], ["pipe", "group", "arg"]), covers=["text", "ran"],
         bounds="two stages, piped, grouped or as an argument, 8 ways of displaying")(trees)
scenario("C24", "three_deep", args=(3, ["cmd", "fn"], ["pipe", "group", "arg"]), covers=["text", "ran"], tier="thorough",
         bounds="three stages, piped, grouped or as arguments, 8 ways of displaying")(trees)


def endings(t):
    """However the run at the prompt ends."""
    setup(t, True)
    k = t.k
    status = t.int("status", 0, 255)
    how = t.pick("how", ["exit", "interrupt", "stop", "function"])
    t.prog("a", exits_with(how, status))
    e = t.env

    async def fails(stdin):
        async for x in stdin:
            pass
        raise ValueError("function")
    shape = t.pick("shape", ["single", "pipe", "group"])
    pl = {"single": lambda: e.a, "pipe": lambda: e.a | e.b, "group": lambda: e.a + e.b}[shape]()
    if how == "function":
        pl = pl | fails
    if how == "interrupt":
        def ctrl_c(k):
            raise KeyboardInterrupt()
        k.external = [ctrl_c]
    elif how == "stop":
        k.external = [ctrl_z]
    r = t.attempt(lambda: t.display(pl))
    t.prove(not r.hung, "the display never ends")
    t.prove(len(t.started("a")) == 1, "displaying a pipeline at the prompt does not run it exactly once")
    if how in ("interrupt", "stop"):
        t.prove(r.ok, "displaying a pipeline that is interrupted or suspended raises")
        t.prove(r.value == "", "the prompt shows something besides the output")
        rp = e.last_pipeline
        t.prove(rp.is_running, "a pipeline that is interrupted or suspended has ended")
        t.cover(how)
    elif how == "function" or bool(not_(eq(status, 0))):
        t.prove(not r.ok and isinstance(r.value, t.running.PipelineFailed), "a failure is not shown")
        t.cover("failure")
    else:
        t.prove(r.ok and r.value == "", "the prompt shows something besides the output")
    # afterwards all is as before
    k.external = []
    bad = t.pick("bad", [None, ValueError, KeyboardInterrupt])
    if bad is not None:
        t.call(lambda: t.repr([BadRepr(bad)]), "displaying an object that cannot be displayed")
    before = processes(t)
    text = t.call(lambda: t.repr(e.b), "displaying a pipeline")
    t.prove(processes(t) == before, "displaying a pipeline in another place than the prompt runs it")
    is_text(t, text, ("cmd", "b"), "displaying a pipeline")
    n = len(t.started("b"))
    t.call(lambda: t.display(e.b), "displaying a pipeline")
    t.prove(len(t.started("b")) == n + 1, "displaying a pipeline at the prompt does not run it exactly once")
    if how in ("interrupt", "stop"):
        text = t.call(lambda: t.display(rp), "displaying a running pipeline")
        t.prove(len(t.started("a")) == 1, "displaying what is running runs it again")


def ctrl_z(k):
    k.signal_proc(k.procs[k.root_pid], 20)


def exits_with(how, status):
    if how in ("interrupt", "stop"):
        return forever
    return exits(0 if how == "function" else status)


scenario("C24", "endings", covers=["interrupt", "stop", "failure"],
         bounds="3 shapes, any exit status, Ctrl-C, Ctrl-Z, a failing function; displays afterwards")(endings)


def running(t, n, kinds, ops):
    """What is running is not run again by displaying it or any part of it."""
    setup(t, True)
    for x in "abcdef":
        t.prog(x, forever)
    spec = shapes.tree(t, n, kinds, ops, [], "")
    rp = t.call(lambda: full(t, shapes.build(t, spec)).run(), "starting a pipeline")
    parts = [rp, rp.pipeline] + list(rp.processes) + [p.cmd for p in rp.processes] + [t.env.running_pipelines, t.env]
    before = processes(t)
    x = parts[t.choose("part", len(parts))]
    show = t.pick("how", ["prompt", "repr", "list", "object"])
    if t.flag("settled"):
        t.settle()
    text = t.call(lambda: t.display(x) if show == "prompt" else NESTED[show](t, x), "displaying a running pipeline")
    t.prove(processes(t) == before, "displaying what is running runs it again")
    t.prove(isinstance(text, str) and len(text) > 0 and "Failed to print" not in text, "displaying a running pipeline gives no text")
    t.prove(t.env.last_pipeline is rp, "displaying a running pipeline starts something")
    t.cover("running")


scenario("C24", "running", args=(2, ["cmd", "fn", "it"], ["pipe", "group", "arg"]), covers=["running"],
         bounds="two running stages of 3 kinds, any part displayed in 4 ways")(running)


class BadRepr(object):
    def __init__(self, error=ValueError):
        self.error = error

    def __repr__(self):
        raise self.error("repr")

    def __iter__(self):
        return iter([])


def contents(t, length):
    """Whatever a pipeline contains, it can be displayed and is not run."""
    setup(t, t.flag("interactive"))
    e = t.env
    e._exports["A"] = "a*b"
    t.k.mkdir_p("/w/dir")
    t.k.mkdir_p("/w/dis")

    class Thing(object):
        def method(self, stdin):
            return []
    items = {
        "text": lambda: t.str("text", t.choose("len", length + 1), exclude="\0*?["),
        "format": lambda: t.pick("format", ["50%", "%(NOPE)s", "%(A)s", "%(A)d", "%d", "%", "%(", "%%", "%s", "%()s"]),
        "pattern": lambda: t.pick("pattern", ["*", "di?", "[", "[!a]*", "~", "~x/*", "**", "/*/*"]),
        "other": lambda: t.pick("other", [b"bytes", 3, None, 1.5, pathlib.PurePosixPath("/w"), BadRepr(), [1], {"a": 1}, {"a_b": "%"}, {"a": None}, {"a": False}]),
        "raw": lambda: t.environ.R("%*"),
        "function": lambda: t.pick("function", [lambda stdin: [], Thing().method, iter([]), (x for x in []), BadRepr(), BadRepr(KeyError), ["a"]]),
        "pipeline": lambda: t.pick("pipeline", [e.b, e.b("50%"), e.b | e.c, e.cd("/"), e.fg, e.subshell(e.b), e.bashsource("%")]),
    }
    kind = t.pick("item", sorted(items))
    item = items[kind]()
    places = {"argument": lambda: e.a(item), "first": lambda: e._(item), "later": lambda: e.a("x", item, "y"), "keyword": lambda: e.a(key_word=item),
              "deep": lambda: e.z | (e.a(item) + e.b) | e.c, "builtin": lambda: e.cd(item), "subshell": lambda: e.subshell(e.a(item)),
              "stdout": lambda: e.a > item, "no redirection": lambda: e.a(item) | t.redir.Redirects(), "stdin": lambda: e.a < item, "source": lambda: item | e.a}
    where = t.pick("where", sorted(places))
    if kind in ("text", "format", "pattern") and where == "first" and bool(or_(*[eq(item, x) for x in ("", "cd", "fg", "bg")])):
        t.assume(False)
    r = t.attempt(places[where])
    if not r.ok:
        # not a pipeline
        t.cover("refused")
        return
    pl = r.value
    before = processes(t)
    how = t.pick("how", ["repr", "list", "name"] + (["prompt"] if not e._interactive else []))
    show = NESTED[how] if how != "prompt" else lambda t, x: t.display(x)
    text = t.call(lambda: show(t, pl), "displaying a pipeline")
    t.prove(processes(t) == before, "displaying a pipeline in another place than the prompt runs it")
    t.prove(isinstance(text, str) or getattr(type(text), "realtype", None) is str, "displaying a pipeline gives no text")
    t.prove(len(text) > 0, "displaying a pipeline gives no text")
    t.prove(e._cwd == "/w", "displaying a builtin runs it")
    if how != "prompt":
        t.prove(type(text) is not str or "<Failed to print: <class 'pieshell" not in text, "displaying a pipeline fails")
    t.cover("contents")


scenario("C24", "contents", args=(1,), covers=["contents"], bounds="11 places, texts of any 0-1 characters, formats, patterns, functions, pipelines, other objects")(contents)
scenario("C24", "contents_deep", args=(3,), covers=["contents"], tier="thorough", bounds="11 places, texts of any 0-3 characters, and the rest")(contents)
