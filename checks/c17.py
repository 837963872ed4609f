"""C17  All command spellings are equivalent and never modify each other."""
from sx.api import *
from .shapes import start_picture

ASSUMPTIONS = ["names used as attributes are not methods of pipelines (run, ...)"]
WORDS = ["x", "status", "a_b", "b_"]




def spellings(t, n, length):
    """Any distribution of arguments over attributes and calls."""
    t.boot()
    e = t.env
    t.prog("*", exits(0))
    args, kinds = [], []
    for i in range(1 + t.choose("n", n)):
        word = t.choose("kind%d" % i, 2) == 0
        if word:
            args.append(t.pick("word%d" % i, WORDS[:1] if i == 0 else WORDS[2:]))
        elif i == 0:
            t.assume(False)
        else:
            k = t.choose("len%d" % i, length + 1)
            s = t.str("s%d" % i, k, exclude="%*?[\0", escapes=True)
            if k:
                t.assume(not_(eq(s[0], "~")))
            args.append(s)
        kinds.append(word)
    cmd = None
    i = 0
    while i < len(args):
        how = t.pick("how%d" % i, ["attribute", "call", "two"])
        if how == "attribute":
            if not kinds[i]:
                t.assume(False)
            cmd = getattr(e if cmd is None else cmd, args[i])
            i += 1
            continue
        some = args[i:i + (2 if how == "two" else 1)]
        if how == "two" and len(some) < 2:
            t.assume(False)
        if cmd is None:
            form = t.choose("first", 2)
            cmd = e._(*some) if form == 0 else (getattr(e._, some[0])(*some[1:]) if len(some) > 1 else getattr(e._, some[0])())
        else:
            cmd = cmd(*some)
        i += len(some)
    rp, pic, procs = start_picture(t, cmd)
    t.prove(len(procs) == 1, "%d programs are started" % len(procs))
    got = procs[0].argv
    t.prove(len(got) == len(args), "a spelling gives another number of arguments (%d instead of %d)" % (len(got), len(args)))
    for g, w in zip(got, args):
        t.prove(len(g) == len(w) and eq(g, w), "a spelling gives other arguments")
    t.cover("started")
    t.note("argv", list(got))


scenario("C17", "spellings", args=(3, 1), covers=["started"],
         bounds="1-3 arguments (names, or any text of 0-1 characters), every distribution over attributes and calls")(spellings)
scenario("C17", "spellings_deep", args=(4, 2), covers=["started"], tier="thorough",
         bounds="1-4 arguments (names, or any text of 0-2 characters), every distribution over attributes and calls")(spellings)


def options(t, n):
    """x - l - a"""
    t.boot()
    e = t.env
    t.prog("*", exits(0))
    words = ["l", "a_b", "r_", "_", "x1"]
    cmd, want = e.x, ["x"]
    forms = []
    for i in range(n):
        form = t.pick("form%d" % i, ["minus", "negated", "call", "attribute", "none"])
        w = t.pick("word%d" % i, words) if form != "none" else None
        forms.append(form)
        if form == "minus":
            cmd = t.call(lambda: cmd - e._(w))
            want.append("-" + w)
        elif form == "negated":
            cmd = t.call(lambda: cmd(-e._(w)))
            want.append("-" + w)
        elif form == "call":
            cmd = cmd(w)
            want.append(w)
        elif form == "attribute":
            if w == "_":
                t.assume(False)
            cmd = getattr(cmd, w)
            want.append(w)
    t.note("forms", forms)
    rp, pic, procs = start_picture(t, cmd)
    t.prove([list(p.argv) for p in procs] == [want], "an option gives other arguments: %s" % ([list(p.argv) for p in procs],))
    t.cover("started")


scenario("C17", "options", args=(2,), covers=["started"], bounds="0-2 arguments of 5 words, as options, arguments or attributes")(options)
scenario("C17", "options_deep", args=(3,), covers=["started"], tier="thorough", bounds="0-3 arguments of 5 words, as options, arguments or attributes")(options)


# ---------------------------------------------------------------- building never changes
BASES = ["command", "arguments", "dict", "pipe", "group", "redirected", "function", "argument", "bare", "r", "nested", "list"]


def fn_copy():
    async def fn(stdin):
        async for line in stdin:
            yield line
    return fn


def make(t, kind, lst, dct):
    e = t.env
    if kind == "command":
        return e.x
    if kind == "bare":
        return e._("x")
    if kind == "list":
        # a command made from a list, which goes on to be used for something else
        args = ["x"] + lst
        cmd = t.mod("pipeline.command").BaseCommand(e, args)
        args.append("more")
        args[1] = "other"
        return cmd
    if kind == "arguments":
        return e.x("one", "two")
    if kind == "dict":
        return e.x(dct, name="value")
    if kind == "pipe":
        return e.x | e.y
    if kind == "group":
        return e.x + e.y
    if kind == "redirected":
        return e.x > "/w/out"
    if kind == "function":
        return e.x | fn_copy()
    if kind == "argument":
        return e.x(e.y("in"))
    if kind == "r":
        return e.x(t.environ.R("a*"), "b")
    if kind == "nested":
        return (e.x > "/w/out") + (e.y | e.w)
    raise AssertionError(kind)


COMMANDS = ["command", "bare", "list", "arguments", "dict", "argument", "r"]
DERIVE = ["call", "named", "attribute", "minus", "pipe", "rpipe", "out", "in", "err", "add", "radd", "function", "rlist", "as_argument",
          "both", "none", "true", "shown", "negated", "twice"]


def derive(t, base, op, iscmd):
    e = t.env
    R = t.redir.Redirect
    if op in ("call", "named", "attribute", "minus", "negated") and not iscmd:
        t.assume(False)
    if op == "call":
        return base("extra", "more")
    if op == "named":
        return base(extra="yes", other=True)
    if op == "attribute":
        return base.extra
    if op == "minus":
        return base - e.l
    if op == "negated":
        return e.z(-e.l, base)
    if op == "pipe":
        return base | e.z
    if op == "rpipe":
        return e.z | base
    if op == "out":
        return base > "/w/other"
    if op == "in":
        return base < "/w/in"
    if op == "err":
        return base | R("stderr", "/w/err")
    if op == "add":
        return base + e.z
    if op == "radd":
        return e.z + base
    if op == "function":
        return base | fn_copy()
    if op == "rlist":
        return ["a", "b"] | base
    if op == "as_argument":
        return e.z(base)
    if op == "both":
        return base + base
    if op == "none":
        return base | None
    if op == "true":
        return base | True
    if op == "twice":
        return (base | e.z) + (base > "/w/other")
    if op == "shown":
        repr(base)
        return base
    raise AssertionError(op)


def finish(t, rp):
    t.attempt(lambda: t.loop.run_until_complete(rp.wait()))


def immutable(t, bases, ops, n, run):
    """An object others were built from starts the same as one nothing was built from."""
    t.boot()
    k = t.k
    k.add_file("/w/in", b"data\n")
    t.prog("*", cat)
    kind = t.pick("base", bases)
    iscmd = kind in COMMANDS
    made = []
    for i in range(2):
        lst, dct = ["l"], {"key": "v"}
        made.append((make(t, kind, lst, dct), dct))
    base, dct = made[0]
    fresh = made[1][0]
    derived = []
    for i in range(n):
        op = t.pick("op%d" % i, ops)
        d = t.call(lambda: derive(t, base, op, iscmd), "building a pipeline")
        derived.append(d)
        if run:
            rp, p1, _ = start_picture(t, d)
            finish(t, rp)
            rp, p2, _ = start_picture(t, t.call(lambda: derive(t, fresh if i == n - 1 else base, op, iscmd)))
            finish(t, rp)
            p1.same(p2, "built a second time")
            p1.separate(p2, "built a second time")
    if kind == "list":
        t.prove(base._arg == ["x", "l"], "a command changes with the list it was made from")
    t.prove(dct == {"key": "v"}, "a dictionary given as an argument is changed")
    rp, p1, _ = start_picture(t, base)
    finish(t, rp)
    rp, p2, _ = start_picture(t, made[1][0] if not run else make(t, kind, ["l"], {"key": "v"}))
    finish(t, rp)
    p1.same(p2, "after other pipelines were built from it")
    t.cover("same")
    t.note("rows", [r[0] for r in p1.rows])


scenario("C17", "immutable", args=(BASES, DERIVE, 1, False), covers=["same"],
         bounds="12 kinds of pipelines, 1 of 20 derivations")(immutable)
scenario("C17", "immutable_run", args=(BASES[:7], DERIVE[:-2], 1, True), covers=["same"],
         bounds="7 kinds of pipelines, 1 of 18 derivations, which is run")(immutable)
scenario("C17", "immutable_deep", args=(BASES, DERIVE, 2, False), covers=["same"], tier="thorough",
         bounds="12 kinds of pipelines, 2 of 20 derivations")(immutable)
scenario("C17", "immutable_run_deep", args=(BASES, DERIVE, 1, True), covers=["same"], tier="thorough",
         bounds="12 kinds of pipelines, 1 of 20 derivations, which is run")(immutable)


def builtins(t):
    """A registered name yields the builtin, in every spelling; any other name the program."""
    t.boot()
    e = t.env
    t.prog("*", exits(0))
    Builtin = t.mod("pipeline.builtin").Builtin
    registry = t.mod("pipeline.builtin").BuiltinRegistry
    ran = []

    class Mine(Builtin):
        name = "mine"

        def _run(self, redirects, sess, indentation=""):
            ran.append((type(self) is Mine, list(self._arg)))
            return []
    how = t.pick("register", ["own", "other", "no"])
    if how == "own":
        t.call(lambda: registry.register(Mine), "registering a builtin")
        reg = "mine"
    elif how == "other":
        t.call(lambda: registry.register(Mine, "theirs"), "registering a builtin")
        reg = "theirs"
    else:
        reg = None
    name = t.pick("name", ["mine", "theirs", "mini", "Mine", "mine2", "x"])
    spelling = t.pick("spelling", ["attribute", "call", "bare", "two", "sub", "scope"])
    want = [name]
    if spelling == "attribute":
        cmd = getattr(e, name)
    elif spelling == "call":
        cmd = e._(name, "arg")
        want = [name, "arg"]
    elif spelling == "bare":
        cmd = getattr(e._, name)
    elif spelling == "two":
        cmd = getattr(e, name)("arg").more
        want = [name, "arg", "more"]
    elif spelling == "scope":
        cmd = t.environ.EnvScope(env=e)[name]("arg")
        want = [name, "arg"]
    else:
        # as an argument of another command it is only a word
        cmd = e.x(name)
        want = ["x", name]
    t.call(lambda: cmd.run(), "running")
    started = [list(p.argv) for p in t.started()]
    if name == reg and spelling != "sub":
        t.prove(not started, "the program is started instead of the builtin")
        t.prove(len(ran) == 1 and ran[0][0] and ran[0][1] == want, "the builtin is not run with its arguments")
        t.cover("builtin")
    else:
        t.prove(not ran, "a builtin runs under another name")
        t.prove(started == [want], "another program is started: %s" % (started,))
        t.cover("program")
    t.note("started", started)
    t.note("ran", ran)


scenario("C17", "builtins", covers=["builtin", "program"], bounds="a registered builtin (under its own or another name, or not), 6 names, 6 spellings")(builtins)
