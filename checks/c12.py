"""C12  Arguments reach the program exactly as given, after documented expansion."""
from sx.api import *

ASSUMPTIONS = ["positional arguments are strings, R(...), path objects, pipelines or functions"]
PATTERN = "*?["


def boot(t, exports=None, home="/home/u", **kw):
    t.boot(exports=dict({"PATH": "/bin"}, **(exports or {})), cwd=kw.pop("cwd", "/e"), environ={"HOME": home, "PATH": "/bin"}, env=False,
           **kw)


def env(t, exports=None, cwd="/e", interactive=False):
    t.k.add_dir("/e")
    t.env = t.environ.Environment(cwd=cwd, exports=dict({"PATH": "/bin"}, **(exports or {})), interactive=interactive)
    t.prog("x", exits(0))
    return t.env


def start(t, exports=None, home="/home/u", environ=None, **kw):
    # other variables of the calling process do not matter
    t.boot(environ=dict({"HOME": home, "PATH": "/bin", "a": "wrong", "A": "wrong"}, **(environ or {})), env=False)
    return env(t, exports, **kw)


def run(t, cmd):
    t.call(lambda: cmd.run(), "starting the program")
    p = t.one("x")
    return p.argv[1:]


def expect(t, got, want, what="the arguments"):
    t.prove(len(got) == len(want), "%s: another number of arguments (%d instead of %d)" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        t.prove(eq(g, w), "%s: an argument arrives changed" % what)
    t.cover("started")
    t.note("argv", list(got))


def text(t, name, maxlen, shorter=True):
    n = t.choose("len_" + name, maxlen + 1) if shorter else maxlen
    s = t.str(name, n, exclude="%*?[\0", escapes=True)
    if n:
        t.assume(not_(eq(s[0], "~")))
    return s


def plain(t, lens, forms, shorter=True):
    """Arguments without special characters, R(...) with any, in any spelling."""
    e = start(t)
    R = t.environ.R
    form = t.pick("form", forms)
    args, want = [], []
    for i, n in enumerate(lens):
        if form == "R" or (form == "mixed" and i % 2 == 0):
            s = t.str("r%d" % i, t.choose("len_r%d" % i, n + 1), exclude="\0", escapes=True)
            args.append(R(s))
        else:
            s = text(t, "s%d" % i, n, shorter)
            args.append(s)
        want.append(s)
    split = t.choose("split", len(args) + 1)
    cmd = e.x(*args[:split])
    if split < len(args):
        cmd = cmd(*args[split:])
    expect(t, run(t, cmd), want)


scenario("C12", "plain", args=([3], ["plain", "R"]), covers=["started"], bounds="1 argument of any 0-3 characters")(plain)
scenario("C12", "plain_two", args=([2, 1], ["plain", "mixed"]), covers=["started"],
         bounds="2 arguments of any 0-2 and 0-1 characters, in one or two calls")(plain)
scenario("C12", "plain_long", args=([8], ["plain"], False), covers=["started"],
         bounds="1 argument of any 8 characters")(plain)
scenario("C12", "plain_deep", args=([5], ["plain", "R"]), covers=["started"], tier="thorough",
         bounds="1 argument of any 0-5 characters")(plain)
scenario("C12", "plain_three_deep", args=([2, 2, 2], ["plain", "mixed", "R"]), covers=["started"], tier="thorough",
         bounds="3 arguments of any 0-2 characters, in one or two calls")(plain)


NAMES = [("verbose", "--verbose"), ("dry_run", "--dry-run"), ("a_b_c", "--a-b-c"), ("n", "--n"), ("_x", "---x")]


def value(t, i, maxlen):
    kind = t.choose("kind%d" % i, 5)
    if kind == 0:
        return True, ""
    if kind == 1:
        return False, None
    if kind == 2:
        s = text(t, "v%d" % i, maxlen)
        return s, "=" + s
    if kind == 3:
        s = t.str("v%d" % i, t.choose("len_v%d" % i, maxlen + 1), exclude="\0", escapes=True)
        return t.environ.R(s), "=" + s
    n = t.pick("num%d" % i, [0, 1, -5, 2.5])
    return n, "=" + str(n)


def named(t, n, maxlen, forms):
    """Named parameters: one --name=value each, in order, after the arguments of the same call."""
    e = start(t)
    kw, want = {}, []
    for i in range(n):
        name, opt = NAMES[t.choose("name%d" % i, len(NAMES))]
        if name in kw:
            t.assume(False)
        v, w = value(t, i, maxlen)
        kw[name] = v
        if w is not None:
            want.append(opt + w)
    form = t.pick("form", forms)
    if form == 0:
        got = run(t, e.x(**kw))
    elif form == 1:
        got = run(t, e.x("first", **kw))
        want = ["first"] + want
    elif form == 2:
        got = run(t, e.x(**kw)("last"))
        want = want + ["last"]
    else:
        got = run(t, e.x("first", kw, "last"))
        want = ["first"] + want + ["last"]
    expect(t, got, want, "named parameters")


scenario("C12", "named", args=(1, 2, [0, 1, 2, 3]), covers=["started"],
         bounds="1 named parameter of 5 names, 5 kinds of values (text of any 0-2 characters), in 4 places")(named)
scenario("C12", "named_two", args=(2, 1, [1]), covers=["started"],
         bounds="2 named parameters of 5 names, 5 kinds of values, after an argument")(named)
scenario("C12", "named_deep", args=(2, 3, [0, 1, 2, 3]), covers=["started"], tier="thorough",
         bounds="2 named parameters, text of any 0-3 characters")(named)


def home_of(s, home):
    """what a leading ~ stands for; None if it names another user"""
    if len(s) and bool(eq(s[0], "~")):
        if len(s) == 1 or bool(eq(s[1], "/")):
            if len(s) == 1:
                return home.rstrip("/") or "/"
            return (home.rstrip("/") + s[1:]) or "/"
        return None
    return s


def variables(t, nvalue, around, where, alphabet):
    """%(name)s is the variable, once; the value may contain anything."""
    val = t.str("value", nvalue, among=alphabet) if nvalue else ""
    other = "%(A)s~*"
    e = start(t, exports={"A": val, "B": other, "A B": "spaced", "AA": "x"}, home="/no/home",
              environ={"A": "wrong", "B": "wrong"})
    place = t.pick("where", where)
    if place == "scope":
        sc = t.environ.EnvScope(env=e)
        sc["env"] = e
        sc["V"] = val
        sc["N"] = 17
    name = t.pick("name", {"env": ["A", "A B", "AA"], "scope": ["A", "V", "N"]}[place])
    v = {"A": val, "A B": "spaced", "AA": "x", "V": val, "N": "17"}[name]
    pre = t.str("pre", t.choose("npre", around + 1), among="x'-/ ")
    post = t.str("post", t.choose("npost", around + 1), among="x'~$ ")
    twice = t.flag("twice")
    arg = pre + "%(" + name + ")s" + post + ("%%" if twice else "") + ("%(" + name + ")s" if twice else "")
    want = pre + v + post + ("%" + v if twice else "")
    h = home_of(want, "/no/home")
    if h is None:
        t.assume(False)                  # ~user
    if len(pre):
        # no absolute pattern
        t.assume(or_(not_(eq(pre[0], "/")), and_(*[not_(eq(c, x)) for c in (want[i] for i in range(len(want))) for x in PATTERN])))
    elif len(h):
        t.assume(or_(not_(eq(h[0], "/")), eq(want[0], "~")))
    kw = t.flag("named")
    got = run(t, e.x(o=arg) if kw else e.x(arg))
    expect(t, got, ["--o=" + h if kw else h], "a variable")


ALPH = "a%~*?[(s)\\$ "
scenario("C12", "variables", args=(1, 1, ["env", "scope"], ALPH), covers=["started"],
         bounds="variables of 1 character of 12, 0-1 characters around them, once or twice, environment and scope")(variables)
scenario("C12", "variables_empty", args=(0, 1, ["env"], ALPH), covers=["started"], bounds="empty variables, 0-1 characters around")(variables)
scenario("C12", "variables_deep", args=(2, 1, ["env", "scope"], ALPH), covers=["started"], tier="thorough",
         bounds="variables of 2 characters of 12, 0-1 characters around")(variables)


def tilde(t, n, alphabet):
    """A leading ~ is the home directory; nowhere else."""
    home = t.pick("home", ["/home/u", "/home/u/", "/h%s", "/~", "/", "/a b"])
    e = start(t, home=home)
    s = t.str("s", t.choose("len", n + 1), among=alphabet)
    lead = t.flag("lead")
    arg = ("~" if lead else "") + s
    h = home_of(arg, home)
    if h is None:
        t.assume(False)
    kw = t.flag("named")
    got = run(t, e.x(o=arg) if kw else e.x(arg))
    expect(t, got, ["--o=" + h if kw else h], "~")


scenario("C12", "tilde", args=(2, "~/a b"), covers=["started"], bounds="6 home directories, 0-2 characters of 5, with and without ~ in front")(tilde)
scenario("C12", "tilde_deep", args=(4, "~/a b."), covers=["started"], tier="thorough", bounds="6 home directories, 0-4 characters of 6")(tilde)


def nomatch(t, n):
    """A pattern that matches nothing stays as it is."""
    e = start(t)
    i = t.choose("at", n)
    s = t.str("s", n, among="*?[]!-ab.~ \\")
    t.assume(or_(*[eq(s[i], c) for c in PATTERN]))
    t.assume(not_(eq(s[0], "~")))
    kw = t.flag("named")
    sub = t.flag("sub")
    arg = ("no/" if sub else "") + s
    got = run(t, e.x(o=arg) if kw else e.x(arg))
    expect(t, got, ["--o=" + arg if kw else arg], "a pattern")


scenario("C12", "nomatch", args=(3,), covers=["started"], bounds="patterns of 3 characters of 12, in an empty and a missing directory")(nomatch)
scenario("C12", "nomatch_deep", args=(4,), covers=["started"], tier="thorough", bounds="patterns of 4 characters of 12")(nomatch)


def several(t, n):
    """Expansions of several arguments stay in place: nothing is split, merged or dropped."""
    e = start(t, exports={"V": t.pick("v", ["", " ", "a b", "-x", "*", "~"])})
    for f in ("f1", "f2"):
        t.k.add_file("/e/" + f)
    R = t.environ.R
    v = dict(e._exports)["V"]
    hv = {"~": "/home/u"}.get(v, v)
    items = [("%(V)s", [hv] if v != "*" else None), ("f*", ["./f1", "./f2"]), ("f?x", ["f?x"]), ("a b", ["a b"]), ("", [""]),
             (R("*"), ["*"]), ("~", ["/home/u"]), ({"o": "f*"}, ["--o=./f1", "--o=./f2"]), ({"o": True, "p": False}, ["--o"]), ({}, [])]
    args, want = [], []
    for i in range(n):
        a, w = items[t.choose("item%d" % i, len(items))]
        args.append(a)
        want += ["./f1", "./f2"] if w is None else w
    expect(t, run(t, e.x(*args)), want, "several arguments")


scenario("C12", "several", args=(2,), covers=["started"], bounds="any 2 of 10 arguments, 6 values of a variable")(several)
scenario("C12", "several_deep", args=(3,), covers=["started"], tier="thorough", bounds="any 3 of 10 arguments, 6 values of a variable")(several)


def other(t, n):
    """Arguments that are no text: bytes arrive as they are, path objects as their text (with the usual expansion)."""
    import pathlib
    e = start(t)
    for f in ("f1", "f2"):
        t.k.add_file("/e/" + f)
    args, want = [], []
    for i in range(n):
        kind = t.choose("kind%d" % i, 3)
        named = t.flag("named%d" % i)
        pos = len(args)
        if kind == 0:
            b = t.bytes("b%d" % i, t.choose("len%d" % i, 3 if n == 1 else 2), lo=1)
            args.append(b)
            want.append(b.decode("utf-8", "surrogateescape"))
            eng.w.data["escapes"] = True
        elif kind == 1:
            x = t.pick("path%d" % i, ["a", "/a b/c", ".", "~/x", "f*", "a%%b"])
            args.append(pathlib.PurePosixPath(x))
            want.append(x)
        else:
            args.append("a b")
            want.append("a b")
        if named:
            args[pos] = {"o": args[pos]}
            want[pos] = "--o=" + want[pos]
    expect(t, run(t, e.x(*args)), want, "other arguments")


scenario("C12", "other", args=(1,), covers=["started"], bounds="1 argument: any 0-2 bytes, 6 path objects, text")(other)
scenario("C12", "other_two", args=(2,), covers=["started"], bounds="2 arguments: any 0-1 bytes, 6 path objects, text")(other)
