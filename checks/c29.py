"""C29  Starting up keeps the user's configuration and needs no usable home directory."""
import errno

from sx.api import *
from sx.engine import eng
from sx.simos import Node, oserr

ASSUMPTIONS = ["the configuration file, if it exists, is a readable file", "the configuration is executed by the interpreter (not symbolically)"]
DEFAULT = "note('default')\n# gr\u00fc\u00df\nafter = 1\n".encode("utf-8")
OLD = [b"note('mine')\n", b"", b"note('mine')\nraise ValueError()\n", b"note('mine'\n", b"note('mine')\nPATH = '/x'\nnote(R('*').str)"]
OLDNOTES = [["mine"], [], ["mine"], [], ["mine", "*"]]


def boot(t, home):
    t.boot(environ={"HOME": home, "PATH": "/bin"}, env=False)
    eng.w.data["resources"] = {("pieshell", "resources/default_config.pysh"): DEFAULT}
    t.notes = []
    scope = t.scope = t.environ.envScope
    scope["note"] = t.notes.append


def startup(t, what="startup"):
    env = t.scope["env"]
    t.call(lambda: t.scope.execute_startup(), what)
    t.prove(t.scope["env"] is env, "starting up replaces the environment")
    for name, want in (("R", t.environ.R), ("Redirect", t.redir.Redirect), ("TMP", t.redir.TMP), ("STRING", t.redir.STRING),
                       ("PIPE", t.redir.PIPE), ("PipelineError", t.running.PipelineError)):
        t.prove(t.scope[name] is want, "the name %s is not there after starting up" % name)


def contents(t, path):
    try:
        return t.k.lookup(path).data
    except OSError:
        return None


HOMES = ["/home/u", "/home/new", "/home/file", "/none/deep", "/dev/null/x"]


def existing(t):
    """An existing configuration is executed and never changed."""
    k = t.kernel()
    i = t.choose("content", len(OLD))
    form = t.pick("form", ["file", "link"])
    k.mkdir_p("/home/u/.config")
    if form == "file":
        k.add_file("/home/u/.config/pieshell", OLD[i])
        where = "/home/u/.config/pieshell"
    else:
        link = Node("link")
        link.target = "/home/u/dot"
        k.add_file("/home/u/dot", OLD[i])
        k.add_entry("/home/u/.config", "pieshell", link)
        where = "/home/u/dot"
    boot(t, "/home/u")
    for n in range(2):
        t.notes[:] = []
        startup(t)
        t.prove(t.notes == OLDNOTES[i], "starting up executes %s instead of the user's configuration" % (t.notes,))
        t.prove(contents(t, where) == OLD[i], "starting up changes the user's configuration")
        t.prove([x for x, _ in k.lookup("/home/u/.config").entries] == ["pieshell"], "starting up leaves other files behind")
    t.cover("kept")


scenario("C29", "existing", covers=["kept"], bounds="5 contents, a file or a link to one")(existing)


def missing(t, faults):
    """Without a configuration the default one is installed, or used if that fails; never half of it."""
    k = t.kernel()
    home = t.pick("home", HOMES)
    k.mkdir_p("/home/u")
    if home == "/home/u" and t.flag("dotconfig"):
        k.mkdir_p("/home/u/.config")
    k.add_file("/home/file", b"")
    boot(t, home)
    conf = home + "/.config/pieshell"
    impossible = home in ("/home/file", "/dev/null/x")
    code = t.pick("errno", [errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EIO]) if faults else None
    at = t.choose("at", 8) if faults else None
    kind = t.pick("persistent", [False, True]) if faults else False
    state = {"n": 0, "hit": None}

    def fault(kk, call):
        if call not in ("open", "mkdir", "write") or kk.cur != kk.root_pid:
            return
        if call == "open" and contents(t, conf) is not None:
            return      # reading what is there
        n = state["n"]
        state["n"] += 1
        if n == at or (kind and at is not None and n > at and (call == state["hit"] or state["hit"] is not None)):
            state["hit"] = state["hit"] or call
            raise oserr(code, conf)
    if faults:
        k.faults = fault
    startup(t)
    k.faults = None
    t.prove(t.notes == ["default"], "starting up executes %s instead of the default configuration" % (t.notes,))
    t.prove(t.scope["after"] == 1, "the default configuration is executed only in part")
    data = contents(t, conf)
    t.prove(data is None or data == DEFAULT, "half of a configuration is left behind")
    failed = impossible or state["hit"]
    if state["hit"]:
        t.cover("fault")
    if not failed:
        t.prove(data == DEFAULT, "the default configuration is not installed")
        t.cover("installed")
    try:
        d = k.lookup(home + "/.config")
    except OSError:
        d = None
    if d is not None:
        t.prove([x for x, _ in d.entries] == (["pieshell"] if data is not None else []), "starting up leaves other files behind")
    # the next time
    t.notes[:] = []
    startup(t, "starting up again")
    t.prove(t.notes == ["default"], "starting up again executes %s instead of the default configuration" % (t.notes,))
    data = contents(t, conf)
    t.prove((data is None) if impossible else data == DEFAULT, "the default configuration is not installed the next time")
    t.cover("again")


scenario("C29", "missing", args=(False,), covers=["installed", "again"], bounds="5 home directories (existing, missing, not a directory)")(missing)
scenario("C29", "faults", args=(True,), covers=["installed", "fault", "again"],
         bounds="5 home directories; any of the first 8 system calls that create or write fails with 4 errors, once or from then on")(missing)


def default_config(t):
    """The configuration that is shipped can be executed."""
    k = t.kernel()
    k.mkdir_p("/home/u")
    k.mkdir_p("/w")
    where = t.pick("home", ["/home/u", "/dev/null/x"])
    t.boot(environ={"HOME": where, "PATH": "/bin"}, env=False)
    v = t.str("v", t.choose("len", 2), lo=32, hi=126, exclude="\"\\$`")

    def bash(kk, p):
        fd = int(p.argv[-1].rpartition("/")[2])
        yield ("write", fd, b"declare -x NEW=\"" + v.encode() + b"\"\ndeclare -x PATH=\"/bin\"\n")
        return 0
    t.prog("bash", bash)
    scope = t.environ.envScope
    t.call(lambda: scope.execute_startup(), "starting up")
    t.settle()
    d = eng.w.data
    t.prove(not d.get("console_errors") and not d.get("console"), "the default configuration fails: %s" % (d.get("console_errors"),))
    t.prove(len(t.started("bash")) == 1, "the default configuration does not import bash's variables")
    got = scope["NEW"]
    t.prove(len(got) == len(v) and eq(got, v), "the default configuration does not import bash's variables")
    t.cover("executed")


scenario("C29", "default_config", covers=["executed"], bounds="a variable of 0-1 characters imported from bash, two home directories")(default_config)


def resources(t):
    """execute_file executes files and resources alike."""
    t.boot(env=False)
    data, want = t.pick("data", [(b"note(1)\n", [1]), (b"note(1)\nif 1:\n  note(2)", [1, 2]), (DEFAULT, ["default"]),
                                 ("note('\u20ac')".encode("utf-8"), ["\u20ac"]), (b"", [])])
    eng.w.data["resources"] = {("pieshell", "resources/x.pysh"): data}
    t.k.add_file("/w/x", data)
    out = []
    t.environ.envScope["note"] = out.append
    t.call(lambda: t.environ.envScope.execute_file(t.pick("what", ["resource://pieshell/resources/x.pysh", "/w/x"])), "executing a file")
    t.prove(out == want, "a file is executed differently")
    t.cover("executed")


scenario("C29", "resources", covers=["executed"], bounds="5 contents, as a file or a resource")(resources)


def prompt(t, jobs):
    """The prompt of the shipped configuration only looks."""
    k = t.kernel()
    k.mkdir_p("/home/u/src")
    k.mkdir_p("/home/ute")
    k.mkdir_p("/w")
    k.rootp.cwd = k.lookup("/w")
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin"}, env=False)

    def bash(kk, p):
        return 0
        yield
    t.prog("bash", bash)
    state = t.pick("git", ["branch", "detached", "none", "missing", "status fails"])
    changes = t.pick("changes", [0, 1, 2])

    def git(kk, p):
        what = p.argv[1]
        if state == "none" or (state == "status fails" and what == "status"):
            yield ("write", 2, b"fatal: not a git repository\n")
            return 128
        if what == "symbolic-ref":
            if state == "detached":
                return 128
            yield ("write", 1, b"refs/heads/topic\n")
        elif what == "rev-parse":
            yield ("write", 1, b"0123456789\n")
        elif what == "status" and changes:
            yield ("write", 1, b" M file\n" * changes)
        return 0

    def wc(kk, p):
        n = 0
        while True:
            d = yield ("read", 0, 65536)
            if len(d) == 0:
                break
            n += d.count(b"\n")
        yield ("write", 1, b"%d\n" % n)
        return 0
    if state != "missing":
        t.prog("git", git)
    t.prog("wc", wc)
    t.prog("sed", cat)
    t.prog("true", exits(0))
    t.prog("sleep", forever)
    scope = t.environ.envScope
    t.call(lambda: scope.execute_startup(), "starting up")
    env = scope["env"]
    where = t.pick("where", ["/w", "/home/u", "/home/u/src", "/home/ute"])
    shown = "~" + where[7:] if (where + "/").startswith("/home/u/") else where
    t.call(lambda: env._cd(where), "cd")
    rp = None
    if jobs:
        rp = t.call(lambda: (env.sleep("9") if t.flag("running") else env.true()).run(), "running a program")
        t.settle()
        env.last_pipeline = rp
    before = list(env.running_pipelines)
    text = t.call(lambda: str(env), "the prompt")
    t.prove(text.endswith(" >>> ") and (":" + shown + (" " if "[" not in text else "[")) in text, "the prompt is %s" % text)
    if state == "branch":
        t.prove(("[topic%s]" % (" +%d" % changes if changes else "")) in text, "the prompt shows other changes: %s" % text)
        t.cover("branch")
    elif state != "detached":
        t.prove("[" not in text, "the prompt shows a branch: %s" % text)
    if jobs:
        t.prove(env.last_pipeline is rp, "the prompt changes what fg and bg act on")
        t.settle()
        t.prove(list(env.running_pipelines) == before, "the prompt changes the list of running pipelines")
    t.prove(scope["env"] is env, "the prompt changes the environment")
    t.prove(env._cwd == where, "the prompt changes the directory")
    t.note("prompt", text)


scenario("C29", "prompt", args=(False,), covers=["branch"], bounds="5 states of git, 0-2 changes, 4 directories")(prompt)
scenario("C29", "prompt_jobs", args=(True,), covers=["branch"], bounds="5 states of git, 0-2 changes, 4 directories, while a pipeline is the last one, running or not")(prompt)
