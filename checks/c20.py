"""C20  bashsource imports exactly the variables bash exports."""
from sx.api import *

ASSUMPTIONS = ["bash prints its variables and functions as bash 3.2 to 5.2 do (a model of declare -x and declare -f)",
               "function bodies contain no line that looks like the first line of another function followed by one that looks like '{ '",
               "names are those bash allows"]


# ---------------------------------------------------------------- how bash prints
ANSI = {7: b"\\a", 8: b"\\b", 27: b"\\E", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t", 11: b"\\v", 92: b"\\\\", 39: b"\\'"}


def quoted(t, v, style):
    """v (bytes) as declare -x prints it"""
    els = [v[i] for i in range(len(v))]
    odd = False
    for c in els:
        if bool(or_(c < 32, eq(c, 127))):
            # old versions print newlines and tabs as they are
            if style == "old" and bool(or_(eq(c, 10), eq(c, 9))):
                continue
            odd = True
        elif bool(c >= 128):
            odd = odd or style != "utf8"
    if not odd:
        r = b'"'
        for i, c in enumerate(els):
            if bool(or_(*[eq(c, x) for x in b'"\\$`'])):
                r = r + b"\\"
            r = r + v[i:i + 1]
        return r + b'"'
    r = b"$'"
    for i, c in enumerate(els):
        for x, esc in ANSI.items():
            if bool(eq(c, x)):
                r = r + esc
                break
        else:
            if bool(or_(c < 32, eq(c, 127))) or (bool(c >= 128) and style != "utf8"):
                r = r + b"\\" + byte(c // 64 + 48) + byte(c // 8 % 8 + 48) + byte(c % 8 + 48)
            else:
                r = r + v[i:i + 1]
    return r + b"'"


def declaration(t, name, value, style, flags=b"-x"):
    r = b"declare " + flags + b" " + name.encode()
    if value is None:
        return r + b"\n"
    return r + b"=" + quoted(t, value, style) + b"\n"


FUNCTIONS = {
    "plain": ("foo", b"foo () \n{ \n    echo hello\n}\n"),
    "declares": ("foo", b"foo () \n{ \n    declare -x FAKE=\"1\";\n    cat <<X\ndeclare -x FAKE=\"2\"\ndeclare -x A=\"wrong\"\nX\n\n}\ndeclare -fx foo\n"),
    "dash": ("f-g.h:i", b"f-g.h:i () \n{ \n    ( export FAKE=1 )\n}\n"),
    "two": ("bar", b"bar () \n{ \n    a () \n    { \n        :\n    }\n}\nfoo () \n{ \n    echo \"}\";\n    FAKE=1\n}\n"),
    "old": ("foo", b"foo () \n{ \n    local x=\"declare -x FAKE=\\\"3\\\"\"\n}\n"),
}


# ---------------------------------------------------------------- a bash that understands what it is given
def words(t, s):
    """the words and operators of a shell script (a mini shell)"""
    out, cur = [], None
    i = 0
    n = len(s)

    def add(cur, x):
        return x if cur is None else cur + x
    while i < n:
        c = s[i]
        if bool(or_(eq(c, " "), eq(c, "\t"), eq(c, "\n"))):
            if cur is not None:
                out.append(("word", cur))
                cur = None
            if bool(eq(c, "\n")):
                out.append(("op", ";"))
        elif bool(or_(*[eq(c, x) for x in ";><|&()"])):
            if cur is not None:
                out.append(("word", cur))
                cur = None
            out.append(("op", "".join(x for x in ";><|&()" if bool(eq(c, x)))))
        elif bool(eq(c, "'")):
            j = i + 1
            while j < n and not bool(eq(s[j], "'")):
                j += 1
            t.prove(j < n, "bash is given an unfinished script")
            cur = add(cur, s[i + 1:j])
            i = j
        elif bool(eq(c, '"')):
            j = i + 1
            cur = add(cur, "")
            while True:
                t.prove(j < n, "bash is given an unfinished script")
                if bool(eq(s[j], '"')):
                    break
                if bool(eq(s[j], "\\")) and j + 1 < n and bool(or_(*[eq(s[j + 1], x) for x in '"\\$`\n'])):
                    cur = cur + s[j + 1:j + 2]
                    j += 2
                    continue
                if bool(or_(eq(s[j], "$"), eq(s[j], "`"))):
                    # an expansion
                    if s[j:j + 2] == "$0":
                        cur = cur + "\0zero"
                        j += 2
                        continue
                    t.fail("bash is given a name that it expands")
                cur = cur + s[j:j + 1]
                j += 1
            i = j
        elif bool(eq(c, "\\")):
            t.prove(i + 1 < n, "bash is given an unfinished script")
            cur = add(cur, s[i + 1:i + 2])
            i += 1
        elif bool(eq(c, "$")):
            if type(s[i:i + 2]) is str and s[i:i + 2] == "$0":
                cur = add(cur, "\0zero")
                i += 1
            else:
                t.fail("bash is given a name that it expands")
        elif bool(or_(*[eq(c, x) for x in "`*?[#~"])) and not (bool(eq(c, "#")) and cur is not None):
            t.fail("bash is given a name that it expands")
        else:
            cur = add(cur, s[i:i + 1])
        i += 1
    if cur is not None:
        out.append(("word", cur))
    return out


class Bash(object):
    """what bash is asked to do: the files it reads, what it prints where"""

    def __init__(self, t, p):
        self.t = t
        argv = list(p.argv)
        t.prove("-c" in [a for a in argv if type(a) is str], "bash is not given a script")
        i = [type(a) is str and a == "-c" for a in argv].index(True)
        t.prove(len(argv) == i + 3, "bash is given other arguments")
        script, zero = argv[i + 1], argv[i + 2]
        t.prove(type(zero) is str and zero.startswith("/dev/fd/"), "bash is not given a place to write to")
        self.fd = int(zero[8:])
        self.sources = []
        self.prints = []
        cmd = []
        to = None
        ws = words(t, script) + [("op", ";")]
        j = 0
        while j < len(ws):
            kind, w = ws[j]
            if kind == "word" and type(w) is str and w in ("{", "}") and not cmd:
                j += 1
                continue
            if kind == "op":
                if w == ">":
                    self.to = ws[j + 1][1]
                    t.prove(type(self.to) is str and self.to == "\0zero", "bash writes somewhere else")
                    j += 2
                    continue
                t.prove(w == ";" or w == "&", "bash is given something unknown")
                if cmd:
                    self.command(cmd)
                cmd = []
            else:
                cmd.append(w)
            j += 1

    def command(self, cmd):
        t = self.t
        t.prove(type(cmd[0]) is str, "bash is given an unknown command")
        if cmd[0] in ("source", "."):
            t.prove(len(cmd) == 2, "bash sources something else")
            self.sources.append(cmd[1])
        elif cmd[0] in ("declare", "typeset", "export"):
            self.prints.append("f" if "f" in cmd[1] else "x")
        else:
            t.fail("bash is given an unknown command: %s" % cmd[0])


def run(t, output, files=("script",), how="run", exports=None, chunks=1):
    """runs bashsource with a bash that prints output(kind)"""
    base = {"PATH": "/bin", "A": "before", "Z": "untouched"} if exports is None else exports
    if t.k is None:
        t.boot(env=False)
        t.env = t.environ.Environment(cwd="/w", exports=dict(base))
    seen = []

    def bash(k, p):
        b = Bash(t, p)
        p.user["sources"] = b.sources
        data = b""
        for x in b.prints:
            data = data + output[x]
        n = len(data)
        for i in range(chunks):
            piece = data[n * i // chunks:n * (i + 1) // chunks]
            if len(piece):
                yield ("write", b.fd, piece)
        return 0
    t.prog("bash", bash)
    cmd = t.env.bashsource(*files)
    if how == "run":
        t.call(lambda: cmd.run_interactive(), "bashsource")
    elif how == "plus":
        t.call(lambda: +cmd, "bashsource")
    else:
        def go():
            rp = cmd.run()
            t.loop.run_until_complete(rp.wait())
        t.call(go, "bashsource")
    p = t.one("bash")
    t.prove(p.state == "reaped" or p.state == "zombie", "bashsource ends before bash")
    return p, base


def check(t, base, new):
    """new: name -> bytes"""
    got = t.env._exports
    want = dict(base)
    want.update(new)
    names = [n for n in got.keys()]
    for n in names:
        t.prove(type(n) is str, "a variable gets a strange name")
    more = sorted(n for n in names if n not in want)
    t.prove(not more, "variables that bash does not export are set: %s" % more)
    less = sorted(n for n in want if n not in names)
    t.prove(not less, "variables are missing: %s" % less)
    for n, v in want.items():
        g = got[n]
        if n in new:
            g = g.encode("utf-8", "surrogateescape")
        t.prove(len(g) == len(v) and eq(g, v), "variable %s has another value" % ("that bash exports" if n in new else "that bash does not export"))
    t.cover("read")
    t.note("variables", [[n, got[n]] for n in sorted(want)])


def some(t, name, n):
    v = t.bytes(name, n)
    for i in range(n):
        t.assume(v[i] != 0)
    return v


def valid_utf8(t, v):
    from .c19 import sequence
    i = 0
    while i < len(v):
        n, cp = sequence(v, i)
        if not n:
            return False
        i += n
    return True


def value(t, n, styles, funcs, names=("A", "NEW")):
    """Any value."""
    t.kernel()
    t.boot(env=False)
    t.env = t.environ.Environment(cwd="/w", exports={"PATH": "/bin", "A": "before", "Z": "untouched"})
    base = {"PATH": "/bin", "A": "before", "Z": "untouched"}
    v = some(t, "v", t.choose("len", n + 1))
    style = t.pick("style", styles)
    if style != "c" and not valid_utf8(t, v):
        t.assume(False)
    name = t.pick("name", names)
    last = t.flag("last")
    x = declaration(t, name, v, style)
    if not last:
        x = x + declaration(t, "OTHER", b"other value", style)
    f = t.pick("functions", funcs)
    p, _ = run(t, {"x": x, "f": FUNCTIONS[f][1] if f else b""})
    new = {name: v}
    if not last:
        new["OTHER"] = b"other value"
    check(t, base, new)


scenario("C20", "value", args=(1, ["utf8", "c", "old"], [None, "declares"]), covers=["read"],
         bounds="a value of any 0-1 bytes, first or last of the list, with and without functions, 3 ways of quoting")(value)
scenario("C20", "value_two", args=(2, ["c", "utf8"], [None], ["A"]), covers=["read"],
         bounds="a value of any 0-2 bytes, 2 ways of quoting")(value)
scenario("C20", "value_deep", args=(3, ["c", "utf8", "old"], [None], ["A"]), covers=["read"], tier="thorough",
         bounds="a value of any 0-3 bytes, 3 ways of quoting")(value)


def bodies(f):
    """name -> definition, as printed"""
    if not f:
        return {}
    first, text = FUNCTIONS[f]
    if f != "two":
        return {first: text}
    cut = text.index(b"foo () \n")
    return {first: text[:cut], "foo": text[cut:]}


def check_functions(t, want):
    got = t.env._bashfunctions
    t.prove(sorted(got) == sorted(want), "other functions are recorded: %s" % sorted(got))
    for n, text in want.items():
        t.prove(got[n].strip() == text.decode().strip(), "the definition of a function is recorded wrongly")


TRICKY = [b"", b" ", b'"', b'a"\ndeclare -x FAKE="b', b"$HOME", b"`id`", b"\\", b"\\n", b"a\\\"b", b"it's", b"' '", b"\xff\xfe", b"a b  c",
          b"(x)", b"=", b"a=b", b"-x", b"declare -x FAKE=\"1\"", b"\x1b[0m\x07", b"foo () \n{ \n", b"\n", b"\t\t", b"%s%(A)s", b"\\\\", "é☃".encode(),
          b"([0]=\"a\")", b"\\001", b"$'x'", b"a\n\nb\n", b"()", b"() { :; }"]
FLAGS = [b"-x", b"-rx", b"-ix", b"-xl", b"-xu", b"-irx"]


def lists(t, n, values, styles, funcs):
    """Any list of declarations."""
    base = {"PATH": "/bin", "A": "before", "Z": "untouched"}
    t.boot(env=False)
    t.env = t.environ.Environment(cwd="/w", exports=dict(base))
    style = t.pick("style", styles)
    x, new = b"", {}
    for i, name in enumerate(["A", "B_2", "Zed"][:1 + t.choose("n", n)]):
        kind = t.pick("kind%d" % i, ["value", "flags", "noval", "array", "assoc"])
        if kind in ("value", "flags"):
            v = t.pick("value%d" % i, values)
            if style == "old" and not valid_utf8(t, v):
                t.assume(False)
            st = style if style != "utf8" or valid_utf8(t, v) else "c"
            x = x + declaration(t, name, v, st, b"-x" if kind == "value" else t.pick("flag%d" % i, FLAGS))
            new[name] = v
        elif kind == "noval":
            x = x + declaration(t, name, None, style, t.pick("nflag%d" % i, [b"-x", b"-ix"]))
        elif kind == "array":
            x = x + b"declare -ax " + name.encode() + t.pick("array%d" % i, [
                b'=([0]="a" [1]="b c")\n', b"='([0]=\"a\" [1]=\"b\")'\n", b"=()\n", b'=([0]="x)" [1]=$\'\\n"\')\n', b"\n",
                b'=([0]="declare -x FAKE=\\"1\\"")\n'])
        else:
            x = x + b"declare -Ax " + name.encode() + t.pick("assoc%d" % i, [
                b'=([k]="v" [j]="w" )\n', b'=(["a b"]="v)" )\n', b'=([k]=$\'it\\\'s\\n)\' )\n', b"=()\n"])
    f = t.pick("functions", funcs)
    fs = FUNCTIONS[f][1] if f else b""
    p, _ = run(t, {"x": x, "f": fs}, chunks=2)
    check(t, base, new)
    check_functions(t, bodies(f))
    if f:
        t.cover("function")


scenario("C20", "lists_one", args=(1, TRICKY, ["utf8", "old"], [None] + sorted(FUNCTIONS)), covers=["read", "function"],
         bounds="a declaration of any of %d values or an array, with 5 kinds of functions or none" % len(TRICKY))(lists)
scenario("C20", "lists_two", args=(2, [b"", b'a"\\$`', b"x\ny", b'"\ndeclare -x FAKE="'], ["utf8", "old"], [None]), covers=["read"],
         bounds="1-2 declarations of variables with 4 values, flags, no value, arrays")(lists)
scenario("C20", "lists_two_deep", args=(2, TRICKY[:12], ["utf8", "old"], [None, "declares"]), covers=["read"], tier="thorough",
         bounds="1-2 declarations of variables with 12 values, flags, no value, arrays")(lists)
scenario("C20", "lists_three_deep", args=(3, [b"", b'a"\\$`', b"x\ny"], ["utf8"], [None]), covers=["read"], tier="thorough",
         bounds="1-3 declarations of variables with 3 values, flags, no value, arrays")(lists)


def files(t, length, n):
    """Any name of the script."""
    t.boot(env=False)
    base = {"PATH": "/bin", "A": "before"}
    t.env = t.environ.Environment(cwd="/w", exports=dict(base))
    names = []
    for i in range(1 + t.choose("n", n)):
        s = t.str("name%d" % i, 1 + t.choose("len%d" % i, length), exclude="%*?[\0")
        t.assume(not_(eq(s[0], "~")))
        names.append(s)
    p, _ = run(t, {"x": b'declare -x A="after"\n', "f": b""}, names, t.pick("how", ["run", "plus", "wait"]))
    b = Bash(t, p)
    t.prove(len(b.sources) == len(names), "bash reads another number of scripts")
    for g, w in zip(b.sources, names):
        t.prove(len(g) == len(w) and eq(g, w), "bash reads another script")
    check(t, base, {"A": b"after"})


scenario("C20", "files", args=(2, 1), covers=["read"], bounds="a script of any name of 1-2 characters, 3 ways of running")(files)
scenario("C20", "files_deep", args=(2, 2), covers=["read"], tier="thorough", bounds="1-2 scripts of any names of 1-2 characters")(files)


def isolation(t):
    """Only the environment bashsource is run in changes."""
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin", "A": "process"}, env=False)
    t.k.mkdir_p("/w")
    v = some(t, "v", 1)
    t.assume(v[0] < 128)
    base = {"PATH": "/bin", "A": "before"}
    e = t.environ.Environment(cwd="/w", exports=dict(base))
    derived = t.call(lambda: e(), "copying")
    which = t.pick("which", ["derived", "original", "default"])
    t.env = {"derived": derived, "original": e, "default": t.ps.env}[which]
    run(t, {"x": declaration(t, "A", v, "c") + declaration(t, "B", b"b", "c"), "f": b""})
    want = {"derived": dict(base), "original": dict(base), "default": {"HOME": "/home/u", "PATH": "/bin", "A": "process"}}
    for name, env in (("derived", derived), ("original", e), ("default", t.ps.env)):
        t.env = env
        check(t, want[name], {"A": v, "B": b"b"} if name == which else {})


scenario("C20", "isolation", covers=["read"], bounds="three environments, any value of one character")(isolation)


def repeated(t, n):
    """One script after another: what the last one says counts, what it does not mention stays."""
    t.boot(env=False)
    t.env = t.environ.Environment(cwd="/w", exports={"PATH": "/bin", "A": "before", "Z": "untouched"})
    base = {"PATH": "/bin", "A": "before", "Z": "untouched"}
    new, funcs = {}, {}
    for i in range(n):
        v = some(t, "v%d" % i, 1)
        t.assume(or_(and_(v[0] >= 97, v[0] <= 122), eq(v[0], 34)))
        name = t.pick("name%d" % i, ["A", "B", "Z"])
        f = t.pick("functions%d" % i, [None, "plain", "two", "old", "dash"])
        run(t, {"x": declaration(t, name, v, "c"), "f": FUNCTIONS[f][1] if f else b""}, ["script%d" % i])
        for p in t.k.procs.values():
            if p.name == "bash":
                p.name = "bash%d" % i
        new[name] = v
        funcs.update(bodies(f))
        check(t, base, new)
        check_functions(t, funcs)
    t.cover("read")
    if len(funcs) > 1:
        t.cover("function")


scenario("C20", "repeated", args=(2,), covers=["read", "function"], bounds="2 scripts, each setting one of 3 variables to any small letter or quote and 0-2 functions")(repeated)
scenario("C20", "repeated_deep", args=(3,), covers=["read", "function"], tier="thorough",
         bounds="3 scripts, each setting one of 3 variables to any small letter or quote and 0-2 functions")(repeated)
