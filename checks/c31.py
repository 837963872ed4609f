"""C31  What is shown about a command is what its help says."""
import importlib
import keyword

from sx.api import *
from sx.engine import eng

ASSUMPTIONS = ["the program prints its help on standard output and succeeds",
               "inspect.Signature, inspect.Parameter, enum.Enum and typing.Union as documented (parameter names have to be identifiers and no keywords, "
               "each only once; names of enum members can be refused)"]
BLANKS = " \t\n\r\x0b\x0c"


class Stub(object):
    pass


class Module(object):
    """a module some names of which are replaced"""
    def __init__(self, name, **kw):
        self.__name__ = name
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(importlib.import_module(self.__name__), name)


class EnumStub(object):
    pass


def functional_enum(name, members):
    """enum.Enum, the functional form"""
    for n in members:
        if len(n) > 2 and n[0] == "_" and n[-1] == "_":
            raise ValueError("_names_ are reserved")
        if n == "mro" or n == "":
            raise ValueError("Invalid enum member name")
    return type("E", (EnumStub,), {"members": members})


def world(t, text, code=0, interactive=False):
    """text: bytes or text of the help"""
    k = t.kernel()
    k.mkdir_p("/w")
    t.asked = asked = []

    def prog(kernel, p):
        asked.append(p)
        yield ("write", 1, text)
        return code
    t.prog("cmd", prog)
    made = t.made = Stub()
    made.problem = None
    empty = object()

    class Parameter(object):
        KEYWORD_ONLY = "keyword only"

        def __init__(self, name, kind=None, default=empty, annotation=empty):
            if len(name) == 0 or not is_name(name):
                raise ValueError("not a valid parameter name")
            self.name, self.kind, self.default, self.annotation = name, kind, default, annotation
    Parameter.empty = empty

    class Signature(object):
        def __init__(self, parameters=(), return_annotation=None):
            self.parameters = list(parameters)
            for i, p in enumerate(self.parameters):
                for q in self.parameters[:i]:
                    if len(p.name) == len(q.name) and p.name == q.name:
                        raise ValueError("duplicate parameter name")
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, exports={"HOME": "/home/u", "PATH": "/bin"}, interactive=interactive,
           modules={"inspect": Module("inspect", Parameter=Parameter, Signature=Signature), "enum": Module("enum", Enum=functional_enum)})
    made.empty = empty


def letter(c):
    c = code(c)
    return or_(and_(c >= 65, c <= 90), and_(c >= 97, c <= 122))


def digit(c):
    c = code(c)
    return and_(c >= 48, c <= 57)


def is_name(name):
    for i, c in enumerate(name):
        if not bool(or_(letter(c), eq(code(c), 95), digit(c) if i else False)):
            return False
    for w in keyword.kwlist:
        if len(w) == len(name) and bool(eq(name, w)):
            return False
    return True


def blank(c):
    c = code(c)
    r = False
    for b in BLANKS + "\x1c\x1d\x1e\x1f":
        r = or_(r, eq(c, ord(b)))
    return r


def mentioned(text):
    """the options of a text, in order: (name, what follows the name directly)"""
    res = []
    for i in range(1, len(text) - 3):
        if not bool(blank(text[i - 1])):
            continue
        if not bool(and_(eq(code(text[i]), 45), eq(code(text[i + 1]), 45))) or not bool(letter(text[i + 2])):
            continue
        j = i + 3
        while j < len(text) and bool(or_(or_(letter(text[j]), digit(text[j])), eq(code(text[j]), 45))):
            j += 1
        if j == i + 3:
            continue
        res.append((text[i + 2:j], text[j:]))
    return res


def expected(text):
    names = []
    for name, rest in mentioned(text):
        n = name.replace("-", "_")
        if any(len(n) == len(w) and bool(eq(n, w)) for w in keyword.kwlist):
            continue
        if not any(len(n) == len(o) and bool(eq(n, o)) for o in names):
            names.append(n)
    return names


def signature(t, cmd):
    r = t.attempt(lambda: type(cmd).__signature__.fget(cmd))
    t.prove(not r.hung, "asking for the signature never ends")
    t.prove(r.ok, "asking for the signature raises %s" % (type(r.value).__name__ if not r.ok else ""))
    t.prove(r.value is not None, "the command has no signature")
    return r.value.parameters


def compare(t, params, names):
    t.prove(len(params) == len(names), "%d parameters for %d options" % (len(params), len(names)))
    for p, n in zip(params, names):
        t.prove(len(p.name) == len(n) and eq(p.name, n), "a parameter has another name than its option, or is in another place")
        t.prove(p.kind == "keyword only", "a parameter that cannot be given by name")


def texts(t, prefix, length, last=""):
    """Any text after the beginning of an option."""
    n = t.choose("len", length + 1)
    free = t.str("text", n, lo=1, hi=126)
    text = prefix + free + last
    world(t, text.encode("utf-8"))
    compare(t, signature(t, t.env.cmd), expected(text))
    t.cover("asked")


scenario("C31", "names", args=(" --", 4), covers=["asked"], bounds="any 0-4 characters (ASCII) that follow ' --'")(texts)
scenario("C31", "second", args=(" --ab=x --a", 3, " "), covers=["asked"], bounds="any 0-3 characters after ' --ab=x --a'")(texts)
scenario("C31", "before", args=("", 2, "--ab"), covers=["asked"], bounds="any 0-2 characters before an option")(texts)
scenario("C31", "names_deep", args=(" --", 5), covers=["asked"], tier="thorough", budget=2500, bounds="any 0-5 characters (ASCII) that follow ' --'")(texts)
scenario("C31", "second_deep", args=(" --ab=x --a", 4, " "), covers=["asked"], tier="thorough", budget=2500,
         bounds="any 0-4 characters after ' --ab=x --a'")(texts)

# what follows an option -> (is a flag, takes a whole number, takes any text, its values)
FORMS = [("", True, False, False, ()), ("=<number>", False, True, False, ()), ("=<string>", False, False, True, ()), ("=WHEN", False, False, False, ("WHEN",)),
         ("[=WHEN]", True, False, False, ("WHEN",)), (" rest", True, False, False, ()), (", -x", True, False, False, ()), ("=auto", False, False, False, ("auto",)),
         ("=_X_", False, None, None, None), ("=mro", False, None, None, None), ("[=<number>]", True, True, False, ()), ("=1.", False, None, None, None),
         ("...", True, False, False, ())]


def forms(t, names):
    """How options are mentioned decides what can be given."""
    text, want = "Usage: cmd [OPTION]\n", {}
    for i in range(t.choose("n", len(names)) + 1):
        name = t.pick("option%d" % i, names[i])
        form = t.pick("form%d" % i, FORMS)
        text += t.pick("before", ["  ", "  -c, "]) + "--" + name + form[0] + "\n"
        if name != "import":
            want.setdefault(name.replace("-", "_"), []).append(form)
    world(t, text.encode())
    params = signature(t, t.env.cmd)
    compare(t, params, list(want))
    for p in params:
        f = want[p.name]
        flag = any(x[1] for x in f)
        t.prove((p.default is False) == flag and (flag or p.default is t.made.empty), "an option that needs a value is optional, or the reverse")
        if any(x[2] is None for x in f):
            continue
        kinds = parts(p.annotation)
        t.note("kinds", kinds)
        t.prove((bool in kinds) == flag, "given as a flag or not")
        t.prove((int in kinds) == any(x[2] for x in f), "given as a number or not")
        t.prove((str in kinds) == any(x[3] for x in f), "given as text or not")
        values = sorted(v for k in kinds if isinstance(k, type) and issubclass(k, EnumStub) for v in k.members.values())
        t.prove(values == sorted({v for x in f for v in x[4]}), "other values are offered")
    t.cover("asked")


def parts(a):
    args = getattr(a, "__args__", None)
    return [x for b in args for x in parts(b)] if args else [a]


scenario("C31", "forms", args=([["color", "x2"], ["color", "no-color", "import"]],), covers=["asked"],
         bounds="up to two options of 4 names, mentioned in 13 forms at 2 places")(forms)


def asking(t):
    """Asking runs the program once with --help, as a command of the environment, and leaves no traces."""
    interactive = t.flag("interactive")
    what = t.pick("what", ["signature", "doc"])
    status = t.pick("status", [0, 1])
    text = t.pick("text", [b"", b"one\n", b"one\n\ntwo", b"caf\xe9 --one\n", b"\n"])
    world(t, text, status, interactive)
    env = t.env
    earlier = t.pick("earlier", ["nothing", "ended", "running"])
    if earlier != "nothing":
        t.prog("other", other)
        first = (env.other() if earlier == "ended" else env.other("x")).run()
        if earlier == "ended":
            t.run(first.wait())
        t.settle()
    args = t.pick("args", [(), ("sub",), ("a b", "-x")])
    cmd = env.cmd(*args) if args else env.cmd
    jobs, last = list(env.running_pipelines), env.__dict__.get("last_pipeline")
    fds = [(e[0], e[2]) for e in t.k.rootp.fds.ent]
    r = t.attempt(lambda: type(cmd).__signature__.fget(cmd) if what == "signature" else type(cmd).__doc__.fget(cmd))
    t.prove(not r.hung, "asking never ends")
    t.settle()
    t.prove(list(env.running_pipelines) == jobs, "asking is a job of the user")
    t.prove(env.__dict__.get("last_pipeline") is last, "asking replaces the last pipeline")
    t.prove([(e[0], e[2]) for e in t.k.rootp.fds.ent] == fds, "asking leaves descriptors open")
    mine = [p for p in t.started() if p.name == "cmd"]
    t.prove(len(mine) == 1, "the program is run %d times" % len(mine))
    argv = [a if isinstance(a, bytes) else a.encode() for a in mine[0].argv]
    t.prove(argv[1:] == [a.encode() for a in args] + [b"--help"], "asked with other arguments")
    t.prove(mine[0].cwd.endswith("/w") if isinstance(mine[0].cwd, str) else True, "asked in another directory")
    t.prove(r.ok == (status == 0), "a failure to tell is not reported, or the reverse")
    if r.ok and what == "doc":
        want = text.decode("utf-8", "replace")
        t.prove(r.value == (want[:-1] if want.endswith("\n") else want), "the documentation is another text than the help")
    t.cover("asked")


def other(k, p):
    yield ("write", 2, b"")
    while len(p.argv) > 1:
        yield ("never",)
    return 0


scenario("C31", "asking", covers=["asked"], bounds="5 texts, 3 lists of arguments, 2 statuses, with nothing, an ended or a running pipeline before")(asking)
