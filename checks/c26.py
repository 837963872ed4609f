"""C26  Completion offers what can be entered, and only looks."""
from sx.api import *
from sx.simos import Node

ASSUMPTIONS = ["the helper script get_completions is a program that is given the text to complete and prints the completions",
               "a directory does not change while it is listed"]


def listing(t, f, what):
    return t.call(lambda: list(f()), what)


def offered(t, got, name):
    t.prove(or_(*[eq(name, g) for g in got if len(g) == len(name)]), "a name that can be entered is not offered")


def exists(t, name, names):
    t.prove(or_(*[eq(name, x) for x in names if len(name) == len(x)]), "a name is offered that does not exist")


def file_name(t, label, length=1):
    s = t.str(label, length, exclude="/\0.:")
    return s


def settings(t, env):
    """what asking for completions has to leave alone"""
    return {"cwd": env._cwd, "exports": sorted(env._exports.items()), "interactive": env._interactive, "last pipeline": env.last_pipeline,
            "running pipelines": list(env.running_pipelines), "redirections": repr(env._redirects),
            "working directory": t.k.rootp.cwd, "descriptors": [(e[0], id(e[1]), e[2]) for e in t.k.rootp.fds.ent], "programs": len(t.started())}


def unchanged(t, env, before):
    now = settings(t, env)
    for n in before:
        t.prove(now[n] is before[n] or now[n] == before[n], "completion changes the %s" % n)


# ---------------------------------------------------------------- programs
ELEMENTS = {"/bin": "/bin", "sub": "/w/sub", "": "/w", "/none": None, "/w/plain": None, "/secret": None, "/gone/x": None,
            "../d": "/d", "/w/plain/x": None, "/bin/": "/bin"}


def programs(t, n, elements, interactive=(False,), names=1):
    """dir(env) offers every program of PATH and every builtin, whatever PATH names."""
    k = t.kernel()
    where = {}
    for d in ("/bin", "/w/sub", "/w", "/d", "/secret", "/usr/bin"):
        k.mkdir_p(d)
    k.add_file("/w/plain")
    k.lookup("/secret").unreadable = True
    k.add_file("/secret/hidden")
    for i, d in enumerate(("/bin", "/w/sub", "/w", "/d")[:names + 1]):
        s = file_name(t, "f%d" % i)
        k.add_entry(d, s, Node("file"))
    path = ":".join(t.pick("p%d" % i, elements) for i in range(n))
    exports = {"HOME": "/home/u"}
    if n:
        exports["PATH"] = path
    inter = t.pick("interactive", interactive)
    t.boot(exports=exports, interactive=inter)
    env = t.env
    if not inter:
        t.k.rootp.cwd = "/d"
    builtins = list(t.pipeline.BuiltinRegistry.builtins)
    marker = object()
    t.prove("cd" in builtins, "there is no builtin cd")

    def expected():
        want = []
        for e in (path.split(":") if n else ["/bin", "/usr/bin"]):
            d = ELEMENTS[e] if n else e
            if d is not None:
                want.extend(x for x, _ in k.lookup(d).entries)
        return want

    def check():
        env.last_pipeline = marker
        before = settings(t, env)
        got = listing(t, lambda: env.__dir__(), "completing a command name")
        unchanged(t, env, before)
        want = expected()
        for x in want + builtins:
            offered(t, got, x)
        for g in got:
            exists(t, g, want + builtins)
        t.note("names", got)
    check()
    t.cover("listed")
    if n and "/none" in path.split(":"):
        t.cover("missing")
    # programs that are installed later
    k.add_entry("/bin", file_name(t, "new", 2), Node("file"))
    t.call(lambda: env.clear_dir_cache().run_interactive(), "clear_dir_cache")
    check()
    # in another environment
    if n == 1:
        env = t.call(lambda: t.env(exports={"PATH": "/d", "HOME": "/"}), "deriving an environment")
        path = "/d"
        ELEMENTS.setdefault("/d", "/d")
        check()
        t.cover("derived")


scenario("C26", "programs", args=(2, ["/bin", "sub", "", "/none", "/w/plain", "/secret", "../d"]), covers=["listed", "missing"],
         bounds="PATH of two elements of 7 kinds (existing, relative, empty, missing, not a directory, unreadable); "
                "any one-character program names")(programs)
scenario("C26", "programs_one", args=(1, list(ELEMENTS), (False, True)), covers=["listed", "missing", "derived"],
         bounds="PATH of one element of 10 kinds, interactive or not, and a derived environment")(programs)
scenario("C26", "programs_none", args=(0, [], (False, True)), covers=["listed"], bounds="no PATH")(programs)
scenario("C26", "programs_deep", args=(3, ["/bin", "sub", "", "/none", "/w/plain", "/secret"], (False,), 2), covers=["listed"],
         tier="thorough", bounds="PATH of three elements of 6 kinds")(programs)


# ---------------------------------------------------------------- directories
PLACES = [((), "/w"), (("a",), "/w/a"), (("..",), "/"), (("/",), "/"), (("missing",), None), (("a", ".."), "/w"), (("/d", "e"), "/d/e"),
          (("PARENT",), "/"), (("ROOT", "d"), "/d"), (("~",), "/home/u"), (("plain",), None), (("secret",), None), (("l",), "/d")]


def directories(t, places, length=1, spelling=("call", "attribute"), entries=1):
    """Every name dir(env.cd...) offers can be entered, and every sub-directory is offered."""
    k = t.kernel()
    for d in ("/w/a", "/d/e", "/home/u", "/w/secret", "/other", "/w"):
        k.mkdir_p(d)
    k.add_file("/w/plain")
    k.lookup("/w/secret").unreadable = True
    link = Node("link")
    link.target = "/d"
    k.add_entry("/w", "l", link)
    args, target = t.pick("place", places)
    made = []
    if target is not None:
        for i in range(entries):
            name = t.str("name%d" % i, length, exclude="/\0~.")
            if t.flag("hidden%d" % i):
                name = "." + name
            old = [x for x, _ in k.lookup(target).entries]
            t.assume(not_(or_(*[eq(name, x) for x in old if len(x) == len(name)])))
            kind = t.pick("kind%d" % i, ["dir", "file", "dirlink", "dangling", "filelink"])
            if kind.endswith("link") or kind == "dangling":
                node = Node("link")
                node.target = {"dirlink": "/d", "filelink": "/w/plain", "dangling": "/nowhere"}[kind]
            else:
                node = Node(kind)
            k.add_entry(target, name, node)
            made.append((name, kind))
    inter = t.flag("interactive")
    t.boot(interactive=inter, environ={"HOME": "/home/u", "PATH": "/bin"})
    t.env._cd("/w")
    if not inter:
        t.k.rootp.cwd = "/other"
    cd = t.env.cd
    if args:
        if t.pick("spelling", spelling) == "call":
            cd = cd(*args)
        else:
            for a in args:
                cd = attr(cd, a)
    t.env.last_pipeline = object()
    before = settings(t, t.env)
    got = listing(t, lambda: type(cd).__dir__(cd), "completing a directory")
    unchanged(t, t.env, before)
    t.prove(t.env._cwd == "/w", "completing a directory changes the directory")
    t.prove(t.k.rootp.cwd == ("/w" if inter else "/other") or t.k.cwd_node() is k.lookup("/w" if inter else "/other"),
            "completing changes the directory of the process")
    special = {"PARENT": "..", "ROOT": "/"}
    if target is not None:
        node = k.lookup(target)
        for name, x in node.entries:
            if x.kind == "link":
                isdir = x.target == "/d"
            else:
                isdir = x.kind == "dir"
            if isdir:
                offered(t, got, name)
                t.cover("offered")
    for g in got:
        t.prove(or_(*[len(g) == len(s) and eq(g, s) for s in special]) if target is None else True,
                "a directory is offered that does not exist")
        if target is None:
            continue
        e = t.call(lambda: t.env(interactive=False), "deriving an environment")
        c = e.cd(*args)
        c = c(g) if not args or t.k.steps % 2 else attr(c, g)
        t.call(lambda: c.run_interactive(), "entering a directory that completion offers")
        if any(len(g) == len(s) and bool(eq(g, s)) for s in special):
            continue
        here = k.lookup(e._cwd)
        there = k.lookup(target)
        want = [x for n, x in there.entries if len(n) == len(g) and bool(eq(n, g))]
        t.prove(want, "a directory is offered that does not exist")
        want = k.lookup("/d") if want[0].kind == "link" else want[0]
        t.prove(here is want, "a name that completion offers leads to another directory")
        t.cover("entered")


scenario("C26", "directories", args=(PLACES,), covers=["offered", "entered"],
         bounds="13 places, one more entry with any name of one character, hidden or not, of 5 kinds, interactive or not, in both spellings")(directories)
scenario("C26", "directories_deep", args=(PLACES, 2, ("call",), 2), covers=["offered", "entered"], tier="thorough",
         bounds="13 places, two more entries with any names of two characters, hidden or not")(directories)


# ---------------------------------------------------------------- arguments of programs
SPECIAL = "|&;<>()$`*?[]#~=%!{}"


def shell_words(t, s):
    """the words of a line as the shell reads it; fails if the shell would do anything else than read words"""
    out, cur = [], None
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if bool(or_(*[eq(c, x) for x in " \t"])):
            if cur is not None:
                out.append(cur)
                cur = None
        elif bool(eq(c, "'")):
            j = i + 1
            while j < n and not bool(eq(s[j], "'")):
                j += 1
            t.prove(j < n, "the text to complete has an open quote")
            cur = ("" if cur is None else cur) + s[i + 1:j]
            i = j
        elif bool(eq(c, '"')):
            cur = "" if cur is None else cur
            j = i + 1
            while True:
                t.prove(j < n, "the text to complete has an open quote")
                if bool(eq(s[j], '"')):
                    break
                if bool(eq(s[j], "\\")) and j + 1 < n and bool(or_(*[eq(s[j + 1], x) for x in '"\\$`'])):
                    j += 1
                else:
                    t.prove(not_(or_(eq(s[j], "$"), eq(s[j], "`"))), "the text to complete makes the shell run something")
                cur = cur + s[j:j + 1]
                j += 1
            i = j
        elif bool(eq(c, "\\")):
            t.prove(i + 1 < n, "the text to complete has an open quote")
            t.prove(not_(eq(s[i + 1], "\n")), "the text to complete loses a line end")
            cur = ("" if cur is None else cur) + s[i + 1:i + 2]
            i += 1
        else:
            t.prove(not_(or_(*[eq(c, x) for x in "|&;<>()$`\n"])), "the text to complete makes the shell run something")
            t.prove(not_(or_(*[eq(c, x) for x in "*?["])), "the text to complete is expanded by the shell")
            if cur is None:
                t.prove(not_(or_(eq(c, "#"), eq(c, "~"))), "the text to complete is changed by the shell")
            cur = ("" if cur is None else cur) + s[i:i + 1]
        i += 1
    if cur is not None:
        out.append(cur)
    return out


def same_words(t, got, want):
    t.prove(len(got) == len(want), "completion is asked for another number of words")
    for g, w in zip(got, want):
        t.prove(len(g) == len(w) and eq(g, w), "completion is asked for another word")


def helper(seen, data, code=0):
    def prog(k, p):
        seen.append(list(p.argv))
        for d in data:
            yield ("write", 1, d)
        return code
    return prog


def arguments(t, lens, forms, before=False, inter=(False,)):
    """Any argument texts."""
    t.boot(interactive=t.pick("interactive", inter))
    env, R = t.env, t.environ.R
    t.prog("true", exits(0))
    lines = t.pick("printed", [[b""], [b"aa\nb b \n"], [b"aa\n", b"cc"]])
    t.prog("get_completions", helper([], lines, 0))
    rp = None
    if before:
        rp = t.call(lambda: env.true().run(), "running a program")
        t.run(rp.wait(), "waiting")
        env.last_pipeline = rp
        if t.flag("running"):
            t.prog("sleep", forever)
            rp = t.call(lambda: env.sleep("9").run(), "running a program")
            env.last_pipeline = rp
    jobs = list(env.running_pipelines)
    cmd, want = env.prg, ["prg"]
    for i, n in enumerate(lens):
        form = t.pick("form%d" % i, forms)
        m = t.choose("len%d" % i, n + 1)
        if form == "plain":
            s = t.str("a%d" % i, m, exclude="%*?[~\0")
            cmd = cmd(s)
            want.append(s)
        elif form == "raw":
            s = t.str("a%d" % i, m, exclude="\0")
            cmd = cmd(R(s))
            want.append(s)
        elif form == "option":
            s = t.str("a%d" % i, m, exclude="%*?[~\0")
            cmd = cmd(some_name=s)
            want.append("--some-name=" + s)
        elif form == "flag":
            cmd = cmd(x=True, y=False)
            want.append("--x")
        else:
            cmd = cmd.sub
            want.append("sub")
    before_n = len(t.started())
    got = listing(t, lambda: type(cmd).__dir__(cmd), "completing an argument")
    t.settle()
    started = t.started()[before_n:]
    t.prove(len(started) == 1 and started[0].name == "get_completions", "completing an argument starts something else")
    argv = list(started[0].argv)
    t.prove(len(argv) == 2, "the helper is given something else than the text to complete")
    text = argv[1]
    t.note("text", text)
    t.prove(len(text) and eq(text[len(text) - 1], " "), "the text to complete does not end with a space")
    same_words(t, shell_words(t, text), want)
    t.cover("asked")
    names = [x.strip().decode() for x in b"".join(lines).split(b"\n") if x.strip()]
    same_words(t, [g for g in got if len(g)], names)
    if before:
        t.prove(env.last_pipeline is rp, "completion changes what fg and bg act on")
        t.prove(len(list(env.running_pipelines)) == len(jobs) and
                all(a is b for a, b in zip(env.running_pipelines, jobs)), "completion is a job of its own")
        t.cover("unchanged")


FORMS = ["plain", "raw", "option"]
scenario("C26", "argument", args=((2,), FORMS), covers=["asked"], bounds="one argument of any text of 0-2 characters of 3 forms")(arguments)
scenario("C26", "two_arguments", args=((1, 1), FORMS + ["flag", "name"]), covers=["asked"],
         bounds="two arguments of any texts of 0-1 characters of 5 forms")(arguments)
scenario("C26", "jobs", args=((0,), ["plain", "name"], True, (False, True)), covers=["asked", "unchanged"],
         bounds="completing while another pipeline is the last one, running or not")(arguments)
scenario("C26", "argument_deep", args=((3,), FORMS), covers=["asked"], tier="thorough",
         bounds="one argument of any text of 0-3 characters of 3 forms")(arguments)


def failing(t):
    """No completions: nothing is raised."""
    t.boot()
    how = t.pick("how", ["fails", "missing", "badarg", "missing_cwd"])
    s = t.str("a", 1, exclude="\0")
    cmd = t.env.prg(t.environ.R(s))
    if how == "fails":
        t.prog("get_completions", helper([], [b"x\n"], 1 + t.choose("code", 2)))
    if how == "badarg":
        t.prog("get_completions", helper([], [b"x\n"], 0))
        cmd = t.env.prg("%(nothing)s")
    if how == "missing_cwd":
        t.prog("get_completions", helper([], [b"x\n"], 0))
        t.env._cwd = "/gone"
    t.call(lambda: list(type(cmd).__dir__(cmd)), "completing an argument")
    t.settle()
    t.cover("nothing")


scenario("C26", "failing", covers=["nothing"], bounds="the helper fails or is missing, arguments that cannot be expanded")(failing)
