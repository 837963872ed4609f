"""C32  What is shown of a command is an expression for exactly this command."""
import keyword

from sx.api import *
from sx.engine import eng
from .c21 import Psutil as Ps
from .shapes import tree, build

ASSUMPTIONS = ["the arguments contain nothing to expand",
               "names consist of ASCII characters and contain no character entity (&...;); python-slugify is modelled",
               "the first word is read as an attribute of the environment, -NAME as the option of this name"]


def one_of(text, words):
    return or_(False, *[eq(text, w) for w in words if len(w) == len(text)])


def name(text):
    """text can stand for itself as a name"""
    ok = len(text) > 0
    for i in range(len(text)):
        c = code(text[i])
        a = or_(or_(and_(c >= 65, c <= 90), and_(c >= 97, c <= 122)), eq(c, 95))
        ok = and_(ok, or_(a, and_(c >= 48, c <= 57)) if i else a)
    return and_(ok, not_(one_of(text, keyword.kwlist)))


def attributes(cls):
    return sorted(set(x for c in cls.__mro__ for x in vars(c) if x.isidentifier()))


def join(sep, parts):
    out = ""
    for i, p in enumerate(parts):
        out = out + sep + p if i else p
    return out


def readings(t, args, taken, env_taken, named):
    """expressions for args: [(text, condition for it to be one)]"""
    res = []
    n = len(args)
    for i in range(n + 1):          # so many words are attributes
        words = True
        for j, a in enumerate(args[:i]):
            words = and_(words, name(a), not_(one_of(a, taken if j else env_taken)), not_(eq(a[0:1], "_")))
        head = join(".", args[:i]) if i else "_"
        for m in range(n - i + 1):      # so many are keyword arguments
            if m and not named:
                break
            keys, cond, tail = [], words, []
            for a in args[n - m:]:
                at = [x for x in range(2, len(a)) if bool(eq(a[x], "="))]
                if not at or not bool(eq(a[:2], "--")):
                    cond = False
                    break
                key = a[2:at[0]]
                py = key.replace("-", "_")
                cond = and_(cond, name(py), eq(py.replace("_", "-"), key), not_(one_of(py, keys)))
                keys.append(py)
                tail.append(py + "=" + t.repr(a[at[0] + 1:]))
            if cond is False:
                continue
            forms = [([], cond)]
            for a in args[i:n - m]:
                more = [(f + [t.repr(a)], c) for f, c in forms]
                if named and len(a) > 1:
                    more += [(f + [a], and_(c, eq(a[0], "-"), name(a[1:]))) for f, c in forms]
                forms = more
            for f, c in forms:
                res.append((head + "(" + join(", ", f + tail) + ")", c))
                if not f + tail:
                    res.append((head, c))
    return res


def reads_back(t, shown, args, named):
    command = t.mod("pipeline.command").Command
    ok = False
    for text, cond in readings(t, args, attributes(command), attributes(t.mod("environ").Environment), named):
        if len(text) == len(shown):
            ok = or_(ok, and_(cond, eq(text, shown)))
    t.prove(ok, "what is shown is no expression for the command")


def words(t, n, length, lists):
    args = []
    eng.w.data["quoting"] = True
    for i in range(n):
        if lists and t.flag("known%d" % i):
            args.append(t.pick("word%d" % i, lists))
        else:
            args.append(t.str("arg%d" % i, t.choose("arg%d.len" % i, length + 1), lo=32, hi=126, exclude="%*?[~&"))
    return args


def command(t, n, length, lists):
    """A command that has not been started."""
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"})
    e = t.env
    args = words(t, n, length, lists)
    cmd = t.call(lambda: e._(*args), "making the command")
    if n > 1 and t.flag("called"):
        cmd = t.call(lambda: e._(args[0])(*args[1:]), "making the command")
    shown = t.call(lambda: type(cmd).__repr__(cmd), "showing the command")
    tail = " in " + t.call(lambda: t.repr(e), "showing the environment")
    t.prove(eq(shown[len(shown) - len(tail):], tail), "the environment is not shown")
    reads_back(t, shown[:len(shown) - len(tail)], args, False)
    t.prove(not t.started(), "showing a command runs it")
    t.cover("shown")
    if not bool(name(args[0])):
        t.cover("literal")


KNOWN = ["run", "import", "class", "mro", "None", "commit", "echo", "pyshfunction", "True", "a\n", "python3", "\xe4b"]
scenario("C32", "command", args=(1, 4, KNOWN), covers=["shown", "literal"], bounds="a command of one word of any 0-4 printable ASCII characters, or of 12 other words")(command)
scenario("C32", "arguments", args=(2, 2, KNOWN), covers=["shown", "literal"], bounds="a command and an argument of any 0-2 characters each, or of 12 other words")(command)
scenario("C32", "three", args=(3, 1, KNOWN[:3]), covers=["shown", "literal"], bounds="three words of any 0-1 characters each, or of 3 other words")(command)


def process(t, n, length, lists):
    """A process of the tree."""
    t.boot(env=False)
    ps = Ps()
    args = words(t, n, length, lists)
    ps.table[10] = {"exe": "/bin/x", "cmdline": args, "parent": 1}
    ps.table[1] = {"exe": "/init", "cmdline": ["init"], "parent": 0}
    t.mod("ps").psutil = ps
    p = t.call(lambda: t.mod("ps").PstreeProcess(10), "a process")
    shown = t.call(lambda: type(p).__repr__(p), "showing a process")
    tail = " as 10"
    t.prove(eq(shown[len(shown) - len(tail):], tail), "the process number is not shown")
    reads_back(t, shown[:len(shown) - len(tail)], args, True)
    t.cover("shown")


OPTIONS = ["--color=auto", "--a-b=", "--a_b=x", "--if=1", "--color=never", "-l", "-l x", "-if", "--help", "git", "run", "import", "7z", "-", "--=x", "--x=a=b", "a\n"]
scenario("C32", "process", args=(1, 3, OPTIONS), covers=["shown"], bounds="a process with one argument of any 0-3 characters, or of 17 others")(process)
scenario("C32", "process_arguments", args=(2, 1, OPTIONS), covers=["shown"], bounds="a process with two arguments of any 0-1 characters each, or of 17 others")(process)
scenario("C32", "process_options", args=(4, 0, ["--color=auto", "--color=never", "git", "-l", "x y"]), covers=["shown"],
         bounds="a process with four arguments, each '' or of 5 others")(process)
scenario("C32", "arguments_deep", args=(2, 3, KNOWN), covers=["shown", "literal"], tier="thorough", bounds="two words of any 0-3 characters each, or of 12 other words")(command)
scenario("C32", "process_deep", args=(2, 2, OPTIONS), covers=["shown"], tier="thorough", bounds="a process with two arguments of any 0-2 characters each, or of 17 others")(process)


def flat(spec):
    """the meaning of an expression: pipes and groups are associative"""
    if spec[0] in ("pipe", "group"):
        parts = []
        for x in (flat(spec[1]), flat(spec[2])):
            parts += x[1:] if x[0] == spec[0] else [x]
        return [spec[0]] + parts
    if spec[0] == "redir":
        return ["redir", flat(spec[1]), (spec[2], spec[3])]
    return ["cmd", spec[1]]


def parse(text):
    """the meaning of what is shown: 'with' belongs to what stands directly before it, + holds together more than |"""
    toks = text.replace("(", "( ").replace(")", " )").split()

    def atom():
        x = toks.pop(0)
        if x == "(":
            r = pipes()
            if toks.pop(0) != ")":
                raise ValueError("parentheses")
        else:
            r = ("cmd", x)
        while toks and toks[0] == "with":
            toks.pop(0)
            inner = toks[0] == "("
            if inner:
                toks.pop(0)
            fd, arrow, path = toks[:3]
            del toks[:3]
            if inner and toks.pop(0) != ")":
                raise ValueError("redirection")
            if arrow not in ("-->", "<--"):
                raise ValueError("redirection")
            r = ("redir", r, int(fd), path)
        return r

    def chain(kind, sign, part):
        r = part()
        while toks and toks[0] == sign:
            toks.pop(0)
            r = (kind, r, part())
        return r

    def pipes():
        return chain("pipe", "|", lambda: chain("group", "+", atom))
    r = pipes()
    if toks:
        raise ValueError("more follows")
    return r


def pipeline(t, n, deco):
    """A pipeline that has not been started."""
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"})
    spec = tree(t, n, ["cmd"], ["pipe", "group"], deco, "")
    pl = build(t, spec)
    shown = t.call(lambda: type(pl).__repr__(pl), "showing the pipeline")
    tail = " in " + t.call(lambda: t.repr(t.env), "showing the environment")
    t.prove(shown.endswith(tail), "the environment is not shown")
    try:
        got = parse(shown[:len(shown) - len(tail)])
    except (ValueError, IndexError):
        t.fail("what is shown is no expression: %s" % shown)
    t.prove(flat(got) == flat(spec), "what is shown is another pipeline: %s" % shown)
    t.cover("shown")


scenario("C32", "pipeline", args=(3, [(1, "/w/out"), (0, "/w/in")]), covers=["shown"],
         bounds="every tree of pipes and groups of three commands, a redirection of every part or none")(pipeline)
scenario("C32", "pipeline_four", args=(4, []), covers=["shown"], bounds="every tree of pipes and groups of four commands")(pipeline)
scenario("C32", "pipeline_five", args=(5, []), covers=["shown"], tier="thorough", bounds="every tree of pipes and groups of five commands")(pipeline)
