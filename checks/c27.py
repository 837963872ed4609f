"""C27  The command line is obeyed exactly."""
import base64

from sx.api import *
from sx.engine import eng

ASSUMPTIONS = ["every option is given at most once", "the interactive loop is entered when code.InteractiveConsole.interact is called",
               "scripts and statements are executed by the interpreter (not symbolically); what they do to pieshell is"]
CONFIG = b"note('startup', args, kws)\n"


def start(t, argv, files=(), config=CONFIG, resource=None):
    """main() is called as a program with argv"""
    k = t.kernel()
    k.mkdir_p("/w")
    k.mkdir_p("/home/u/.config")
    if config is not None:
        k.add_file("/home/u/.config/pieshell", config)
    for name, data in files:
        k.add_file("/w/" + name, data)
    k.rootp.cwd = k.lookup("/w")
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, env=False)
    if resource is not None:
        eng.w.data.setdefault("resources", {})[("pieshell", "resources/default_config.pysh")] = resource
    t.notes = []
    t.shell = t.mod("shell")
    t.printed = []
    t.shell.__dict__["print"] = lambda *a, **kw: t.printed.append(a)
    scope = t.scope = t.environ.envScope
    scope["note"] = lambda *a: t.notes.append(a)
    t.loader.modules["sys"].argv[:] = ["pieshell"] + list(argv(t) if callable(argv) else argv)


def main(t, what="pieshell"):
    t.call(lambda: t.shell.main(), what)
    t.settle()


def same_values(t, got, want, what):
    t.prove(len(got) == len(want), "%s: another number" % what)
    for g, w in zip(got, want):
        if w is True or w is False or g is True or g is False:
            t.prove(g is w, "%s: another value" % what)
        else:
            t.prove(len(g) == len(w) and eq(g, w), "%s: another value" % what)


def same_kws(t, got, want, what):
    t.prove(sorted(got.keys()) == sorted(want.keys()), "%s: other options" % what)
    keys = sorted(want.keys())
    same_values(t, [got[k] for k in keys], [want[k] for k in keys], what)


def reported(t):
    d = eng.w.data
    return bool(d.get("console_errors") or d.get("console") or d.get("tracebacks"))


FILES = [("f1.pysh", b"note('f1')\n"), ("f2.pysh", b"if True:\n    note('f2')\n    note('f2b')")]
ITEMS = ["--no-startup", "cmd", "pcmd", "f1.pysh", "f2.pysh", "--log=cmd,io", "--help", "--version", "opt", "flag"]


def options(t, n, items, length=1):
    """Any options and actions in any order."""
    rest = list(items)
    chosen = []
    for i in range(n):
        x = t.pick("item%d" % i, rest + [None])
        if x is None:
            break
        rest.remove(x)
        chosen.append(x)
    value = t.str("value", t.choose("len", length + 1)) if "opt" in chosen else None
    pipeline = []

    def argv(t):
        out = []
        for x in chosen:
            if x == "cmd":
                x = "--cmd=note('cmd')"
            elif x == "pcmd":
                data = t.loader.modules["pickle"].dumps(t.environ.env.prog("a", "b c"))
                x = "--pcmd=" + base64.b64encode(data).decode("ascii")
            elif x == "opt":
                x = "--some-opt=" + value
            elif x == "flag":
                x = "--flag"
            out.append(x)
        return out
    start(t, argv, FILES)
    given = list(t.loader.modules["sys"].argv[1:])
    t.prog("prog", exits(0))
    kws, args = {}, []
    for x, g in zip(chosen, given):
        if x == "cmd":
            kws["cmd"] = "note('cmd')"
        elif x == "pcmd":
            kws["pcmd"] = g[7:]
        elif x == "opt":
            kws["some-opt"] = value
        elif x == "--log=cmd,io":
            kws["log"] = "cmd,io"
        elif x.startswith("f") and x != "flag":
            args.append(x)
        else:
            kws[x.lstrip("-")] = True
    main(t)
    started = t.started()
    interact = eng.w.data.get("interact", [])
    logging = t.loader.modules["logging"]
    if "--help" in chosen or "--version" in chosen:
        t.prove(not t.notes and not started and not interact, "something is executed although only help or the version was asked for")
        shown = "".join(str(y) for p in t.printed for y in p)
        if "--help" in chosen:
            t.prove("--cmd" in shown and "--no-startup" in shown and "--pcmd" in shown, "the help is not shown")
        else:
            t.prove(t.mod("version").version in shown and "--cmd" not in shown, "the version is not shown")
        t.cover("shown")
        return
    want = []
    if "--no-startup" not in chosen:
        want.append("startup")
    programs = 0
    prompt = False
    if "cmd" in chosen:
        want.append("cmd")
    elif "pcmd" in chosen:
        programs = 1
    elif args:
        for a in args:
            want.extend(["f1"] if a == "f1.pysh" else ["f2", "f2b"])
    else:
        prompt = True
    t.prove([x[0] for x in t.notes] == want, "executed: %s, asked for: %s" % ([x[0] for x in t.notes], want))
    t.prove(not reported(t), "an error is reported")
    t.prove(len(started) == programs, "another number of programs is started")
    for p in started:
        same_values(t, list(p.argv), ["prog", "a", "b c"], "the arguments of the pickled command")
        t.prove(p.state == "reaped" or p.state == "zombie", "pieshell ends before the pickled command")
        t.cover("pickled")
    if prompt:
        t.prove(len(interact) == 1 and interact[0] is t.scope, "there is no prompt")
        t.cover("prompt")
    else:
        t.prove(not interact, "there is a prompt although something else was asked for")
        t.cover("executed")
    for a, kw in [(t.scope["args"], t.scope["kws"])] + [x[1:] for x in t.notes if x[0] == "startup"]:
        same_values(t, list(a), args, "args")
        same_kws(t, kw, kws, "kws")
    for cat in ("cmd", "io", "fd", "signal"):
        on = logging.getLogger(cat).isEnabledFor(logging.ERROR)
        t.prove(on == ("--log=cmd,io" in chosen and cat in ("cmd", "io")), "logging of %s is %s" % (cat, "on" if on else "off"))


scenario("C27", "options", args=(3, ITEMS), covers=["shown", "executed", "prompt", "pickled"],
         bounds="0-3 of 10 options and actions in any order, any option value of 0-1 characters")(options)
scenario("C27", "options_deep", args=(4, ITEMS, 2), covers=["shown", "executed", "prompt", "pickled"], tier="thorough",
         bounds="0-4 of 10 options and actions in any order, any option value of 0-2 characters")(options)

# ---------------------------------------------------------------- what is executed
# text, events: notes in order; ("run", argv) a program; error: something has to be reported
V = object()
STATEMENTS = [
    ("note(1)", [1], False),
    ("note(1)\n", [1], False),
    ("note(1); note(2)", [1, 2], False),
    ("for i in range(3): note(i)", [0, 1, 2], False),
    ("for i in range(2):\n  note(i)\n  note(7)", [0, 7, 1, 7], False),
    ("for i in range(2):\n  note(i)\n", [0, 1], False),
    ("if 1:\n  note(1)\nelse:\n  note(2)", [1], False),
    ("try:\n  note(1)\n  raise ValueError()\nexcept ValueError:\n  note(2)", [1, 2], False),
    ("x = 5", [], False),
    ("x = prog", [], False),
    ("prog('a')", [("prog", "a")], False),
    ("+prog", [("prog",)], False),
    ("prog('a') | other", [("prog", "a"), ("other",)], False),
    ("prog(kws['v'])", [("prog", V)], False),
    ("prog(*args)", [("prog", V)], False),
    ("note(list(prog)[0])", [("prog",), "line"], False),
    ("note(1", [], True),
    ("note(1)\nnote(2", [], True),
    ("for i in range(2):", [], True),
    ("'''abc", [], True),
    ("note(", [], True),
    ("note(1) note(2)", [], True),
    ("raise ValueError('x')", [], True),
    ("", [], False),
    ("# nothing", [], False),
]
SCRIPTS = [
    (b"note(1)\nnote(2)\n", [1, 2], False),
    (b"note(1)\nif 1:\n  note(2)", [1, 2], False),
    (b"def f(x):\n  note(x)\n  return x\nf(1)\nnote(f(2))\n", [1, 2, 2], False),
    (b"+prog('a')\nnote(1)\n", [("prog", "a"), 1], False),
    (b"for line in prog('a'):\n  note(line)\n", [("prog", "a"), "line"], False),
    (b"note(str(prog(args[0][0:0])))\n", [("prog", ""), "line\n"], False),
    (b"prog('a')\nnote(1)\n", [1], False),
    (b"note(1)\nraise ValueError()\nnote(2)\n", [1], True),
    (b"note(1)\nnote(2", [], True),
    (b"note(1)\nnote((2)\n", [], True),
    (b"note(1)\nif 1:\n", [], True),
    (b"note(1)\n  note(2)\n", [], True),
    (b"x = '''\nnote(1)\n", [], True),
    (b"note(1)\nx = (1 +\n", [], True),
    (b"  note(1)\nnote(2)\n", [], True),
    ("note('\u00e9\u20ac')\n+prog('\u00fc')\n".encode("utf-8"), ["\u00e9\u20ac", ("prog", "\u00fc")], False),
    (b"\n\n  # \xc3\xa9\nnote(1)\r\nnote(2)\n\n", [1, 2], False),
    (b"", [], False),
    (b"# nothing", [], False),
]


def events(t, out, want, value):
    got = []
    started = t.started()
    for n, x in out:
        while len([g for g in got if isinstance(g, tuple)]) < n:
            got.append(("run", started[len([g for g in got if isinstance(g, tuple)])].argv))
        got.append(x)
    got.extend(("run", p.argv) for p in started[len([g for g in got if isinstance(g, tuple)]):])
    t.prove(len(got) == len(want), "executed: %s, asked for: %s" % (len(got), len(want)))
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            t.prove(isinstance(g, tuple) and g[0] == "run", "something else is executed")
            same_values(t, list(g[1]), [value if x is V else x for x in w], "the arguments")
        else:
            t.prove(not isinstance(g, tuple), "something else is executed")
            t.prove(eq(g, w), "something else is executed")


def prepare(t):
    out = []

    def prog(k, p):
        yield ("write", 1, b"line\n")
        return 0
    t.prog("prog", prog)
    t.prog("other", sink)
    t.scope["note"] = lambda x: out.append((len(t.started()), x))
    return out


def statement(t, length):
    """--cmd executes what it is given, all of it, once."""
    text, want, error = t.pick("text", STATEMENTS)
    value = None
    argv = ["--no-startup", "--cmd=" + text]
    if "kws['v']" in text or "args" in text:
        value = t.str("value", t.choose("len", length + 1), exclude="%*?[~\0")
        if "kws" in text:
            argv.append("--v=" + value)
        else:
            if len(value) >= 2:
                t.assume(not_(and_(eq(value[0], "-"), eq(value[1], "-"))))
            argv.insert(t.choose("at", 3), value)
    start(t, argv)
    out = prepare(t)
    main(t)
    events(t, out, want, value)
    t.prove(reported(t) == error, "an error is %sreported" % ("not " if error else ""))
    t.prove(not eng.w.data.get("interact"), "there is a prompt although a command was given")
    t.cover("error" if error else "executed")


scenario("C27", "statement", args=(1,), covers=["error", "executed"],
         bounds="25 statements of different forms, option and argument values of 0-1 characters")(statement)
scenario("C27", "statement_deep", args=(3,), covers=["error", "executed"], tier="thorough",
         bounds="25 statements of different forms, option and argument values of 0-3 characters")(statement)


def script(t):
    """Files are executed completely, in the order given."""
    a, b = t.pick("a", SCRIPTS), t.pick("b", SCRIPTS[:4])
    order = t.pick("order", ["ab", "ba", "aba", "bb"])
    first = order[0] == "a"
    files = [("a", a[0]), ("b", b[0])]
    names = list(order)
    if order not in ("ab", "ba") and a[2]:
        return
    start(t, names + ["--no-startup"], files)
    out = prepare(t)
    main(t)
    want = sum([{"a": a, "b": b}[x][1] for x in order], [])
    if a[2] and first and len(out) < len(want) - 1:
        want = a[1]             # stopping after the error is fine, too
    events(t, out, want, None)
    t.prove(reported(t) == a[2], "an error is %sreported" % ("not " if a[2] else ""))
    t.cover("error" if a[2] else "executed")


scenario("C27", "script", covers=["error", "executed"], bounds="two files with 19 and 4 kinds of contents in 4 orders")(script)


def config(t):
    """The startup file is executed before anything else, and what it defines can be used."""
    text, want, error = t.pick("config", SCRIPTS)
    what = t.pick("what", ["cmd", "file", "prompt"])
    argv = {"cmd": ["--cmd=note(9)"], "file": ["f"], "prompt": []}[what] + ["x"][0:0]
    if b"args" in text and what != "file":
        return
    start(t, argv, [("f", b"note(9)\n")], config=text)
    out = prepare(t)
    main(t)
    events(t, out, want + ([] if what == "prompt" else [9]), None)
    t.prove(reported(t) == error, "an error is %sreported" % ("not " if error else ""))
    t.prove(len(eng.w.data.get("interact", [])) == (1 if what == "prompt" else 0), "there is %s prompt" % ("no" if what == "prompt" else "a"))
    t.cover("executed")


scenario("C27", "config", covers=["executed"], bounds="19 kinds of startup files before a command, a file or the prompt")(config)


def form(t, length):
    """Any argument at all: an option with or without a value, or an argument."""
    at = t.choose("at", 3)
    arg = t.str("arg", t.choose("len", length + 1), exclude="\0")
    for known in ("log", "cmd", "pcmd", "help", "version", "no-startup", "ptpython"):
        # the documented options are for the other scenarios
        n = len(known) + 2
        t.assume(not (arg[:n] == "--" + known and (len(arg) == n or arg[n] == "=")))
    argv = ["--no-startup", "--cmd=note('cmd')"]
    argv.insert(at, arg)
    start(t, argv)
    main(t)
    args, kws = list(t.scope["args"]), list(t.scope["kws"].items())
    t.prove([x[0] for x in t.notes] == ["cmd"] and not reported(t), "something else is executed")
    t.prove(not t.started() and not eng.w.data.get("interact"), "something else is executed")
    t.prove(not t.printed, "something is printed")
    if arg[:2] != "--":
        t.prove(len(args) == 1 and len(args[0]) == len(arg) and eq(args[0], arg), "another argument")
        t.prove(len(kws) == 2, "other options")
        t.cover("argument")
        return
    t.prove(not args, "an option counts as an argument")
    name, value = arg[2:], True
    for i in range(len(name)):
        if name[i] == "=":
            name, value = name[:i], name[i + 1:]
            t.cover("value")
            break
    else:
        t.cover("option")
    t.prove(len(kws) == 3, "other options")
    same_values(t, kws[at], [name, value], "the option")


scenario("C27", "form", args=(6,), covers=["argument", "value", "option"],
         bounds="any argument of 0-6 characters, save the documented options, before, between and after two others")(form)
scenario("C27", "form_deep", args=(10,), covers=["argument", "value", "option"], tier="thorough",
         bounds="any argument of 0-10 characters, save the documented options, before, between and after two others")(form)
