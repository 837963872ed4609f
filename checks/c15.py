"""C15  Environments are isolated from each other."""
from sx.api import *
from checks.c01 import stream_of

ASSUMPTIONS = ["an environment made without exports uses the variables of the calling process, like the default environment",
               "the dictionary given as exports belongs to the environment afterwards"]
DIRS = ["/w/a", "/w/b", "/w/a/b", "/w/b/a"]
PROC = {"HOME": "/home/u", "PATH": "/bin", "A": "process"}


class Model(object):
    def __init__(self, env, vars, cwd, out=None, inp=None, err="string"):
        self.env = env
        self.vars = vars            # the process's own dictionary is shared
        self.cwd = cwd
        self.out = out
        self.inp = inp
        self.err = err


class Worlds(object):
    def __init__(self, t):
        t.boot(environ=dict(PROC), env=False)
        self.t = t
        for d in DIRS + ["/w"]:
            t.k.mkdir_p(d)
        for f in ("/w/in0", "/w/in1"):
            t.k.add_file(f, b"")
        t.k.rootp.cwd = t.k.lookup("/w")
        self.proc = dict(PROC)
        self.ms = []
        t.prog("x", exits(0))
        t.prog("y", exits(0))
        self.n = 0

    def default(self):
        """the default environment; its directory is where the process was at the import"""
        m = Model(self.t.ps.env, self.proc, None)
        m.env._cd("/w")
        m.cwd = "/w"
        self.ms.append(m)
        return m

    def made(self, env, *a, **kw):
        m = Model(env, *a, **kw)
        self.ms.append(m)
        return m

    def check_state(self):
        t = self.t
        got = t.loader.environ
        t.prove(len(got.keys()) == len(self.proc), "the process's own variables change")
        for n, v in self.proc.items():
            g = got.get(n)
            t.prove(g is not None and eq(g, v), "the process's own variables change")
        t.prove(t.k.cwd_node() is t.k.lookup("/w"), "the calling process moves")

    def check_program(self, m, p):
        t = self.t
        t.prove(p.execd, "the program is not started")
        got = p.env
        t.prove(len(got) == len(m.vars), "a program gets %d variables instead of %d" % (len(got), len(m.vars)))
        for n, v in m.vars.items():
            g = [x for y, x in got if len(y) == len(n) and bool(eq(y, n))]
            t.prove(len(g) == 1, "a program lacks a variable")
            t.prove(eq(g[0], v), "a program gets another value of a variable")
        t.prove(p.exec_cwd == m.cwd, "a program is started in another directory")
        for fd, want in ((0, m.inp), (1, m.out)):
            o = stream_of(p, fd)
            if want == "pipe":
                t.prove(o is not None and o.kind in ("pr", "pw"), "a descriptor is not the pipe")
            elif want is None:
                t.prove(o is not None and o.id == [x for f, n, x in self.std if f == fd][0],
                        "a descriptor is redirected by another environment")
            else:
                t.prove(o is not None and o.kind == "node" and o.path == want,
                        "a default redirection of the environment does not take effect")
        o = stream_of(p, 2)
        t.prove(o is not None and o.kind == "node" and (o.path == m.err if m.err != "string" else "/tmp" in o.path),
                "stderr is redirected by another environment")
        t.cover("started")

    def snapshot(self):
        self.std = [(e[0], None, e[1].id) for e in self.t.k.rootp.fds.ent if e[0] < 3]

    def check(self):
        t = self.t
        self.snapshot()
        self.check_state()
        for m in self.ms:
            n = len(t.started("x"))
            cmd = m.env.x
            t.call(lambda: cmd.run(), "starting a program")
            ps = t.started("x")
            t.prove(len(ps) == n + 1, "the program is not started")
            self.check_program(m, ps[-1])
            t.note("env", [[n, v] for n, v in ps[-1].env])
        self.check_state()


def value(t, i):
    return t.str("v%d" % i, t.choose("len%d" % i, 2), exclude="\0", escapes=True)


def operation(w, i, ops, targets=None):
    t = w.t
    op = t.pick("op%d" % i, ops)
    m = w.ms[t.choose("env%d" % i, len(w.ms))]
    e = m.env
    copy = lambda: dict(m.vars)
    if op == "copy":
        how = t.pick("how%d" % i, ["call", "item", "cwd"])
        if how == "call":
            w.made(t.call(lambda: e(), "copying"), copy(), m.cwd, m.out, m.inp, m.err)
        elif how == "item":
            w.made(t.call(lambda: e["/w/a"], "copying"), copy(), "/w/a", m.out, m.inp, m.err)
        else:
            w.made(t.call(lambda: e(cwd="/w/b/a"), "copying"), copy(), "/w/b/a", m.out, m.inp, m.err)
    elif op == "empty":
        w.made(t.call(lambda: e(exports={}), "copying"), {}, m.cwd, m.out, m.inp, m.err)
    elif op == "exports":
        v = value(t, i)
        w.made(t.call(lambda: e(exports={"A": v}), "copying"), {"A": v}, m.cwd, m.out, m.inp, m.err)
    elif op == "new":
        v = value(t, i)
        w.made(t.call(lambda: t.environ.Environment(exports={"B": v}), "making an environment"), {"B": v}, "/w")
    elif op == "new_empty":
        w.made(t.call(lambda: t.environ.Environment(exports={}, cwd="/w/a"), "making an environment"), {}, "/w/a")
    elif op == "new_process":
        w.made(t.call(lambda: t.environ.Environment(cwd="/w/a"), "making an environment"), w.proc, "/w/a")
    elif op == "set":
        v = value(t, i)
        n = t.pick("name%d" % i, ["A", "B"])
        e._exports[n] = v
        m.vars[n] = v
    elif op == "del":
        n = t.pick("name%d" % i, ["A", "B"])
        if n not in m.vars:
            t.assume(False)
        del e._exports[n]
        del m.vars[n]
    elif op == "scope":
        # through an interactive scope: only exported names are exported
        v = value(t, i)
        n = t.pick("name%d" % i, ["A", "B"])
        sc = t.environ.EnvScope(env=e)
        sc[n] = v
        if n in m.vars:
            m.vars[n] = v
    elif op == "scope_export":
        v = value(t, i)
        sc = t.environ.EnvScope(env=e)
        sc["exports"]["B"] = v
        m.vars["B"] = v
    elif op == "clear":
        e._exports.clear()
        m.vars.clear()
    elif op == "cd":
        d = t.pick("dir%d" % i, ["/w/a", "/w/b"])
        t.call(lambda: e.cd(d).run(), "changing the directory")
        m.cwd = d
    elif op == "out":
        d = t.pick("out%d" % i, ["/w/out0", "/w/out1"])
        t.call(lambda: e | t.redir.Redirect("stdout", d), "redirecting")
        m.out = d
    elif op == "out_path":
        t.call(lambda: e | "/w/out2", "redirecting")
        m.out = "/w/out2"
    elif op == "err":
        t.call(lambda: e | t.redir.Redirect("stderr", "/w/err0"), "redirecting")
        m.err = "/w/err0"
    elif op == "in":
        d = "/w/in0"
        t.call(lambda: t.redir.Redirect("stdin", d) | e, "redirecting")
        m.inp = d
    elif op == "redirects":
        rs = t.redir.Redirects()
        rs.redirect(0, "/w/in1")
        rs.redirect(1, "/w/out3")
        rs.redirect(2, "/w/err1")
        w.made(t.call(lambda: e(redirects=rs), "copying"), copy(), m.cwd, "/w/out3", "/w/in1", "/w/err1")
    w.n = i + 1


def history(t, n, first, ops):
    """Any history of derivations and changes."""
    w = Worlds(t)
    if first == "default":
        w.default()
    else:
        w.made(t.call(lambda: t.environ.Environment(cwd="/w/b", exports={"A": "first", "PATH": "/bin"})),
               {"A": "first", "PATH": "/bin"}, "/w/b")
    for i in range(n):
        operation(w, i, ops)
    w.check()


MAKE = ["copy", "empty", "exports"]
CHANGE = ["set", "del", "cd", "out", "scope"]


def copies(t, first, makes, changes, n):
    """A derived environment, then changes of either one."""
    w = Worlds(t)
    if first == "default":
        w.default()
    else:
        w.made(t.call(lambda: t.environ.Environment(cwd="/w/b", exports={"A": "first", "PATH": "/bin"})),
               {"A": "first", "PATH": "/bin"}, "/w/b")
    operation(w, 0, makes)
    for i in range(1, n + 1):
        operation(w, i, changes)
    w.check()


ALL_MAKES = ["copy", "empty", "exports", "new", "new_empty", "new_process", "redirects"]
ALL_CHANGES = ["set", "del", "scope", "scope_export", "clear", "cd", "out", "out_path", "err", "in"]

for first in ("default", "other"):
    scenario("C15", "copies_" + first, args=(first, ALL_MAKES, ALL_CHANGES, 1), covers=["started"],
             bounds="an environment made from the %s one in 9 ways, then 1 of 10 changes of either; values of any 0-1 character"
             % first)(copies)
    scenario("C15", "copies_%s_deep" % first, args=(first, ALL_MAKES, ALL_CHANGES, 2), covers=["started"], tier="thorough",
             bounds="an environment made from the %s one in 9 ways, then 2 of 10 changes of either" % first)(copies)
scenario("C15", "history", args=("other", ["copy"], ["copy", "set", "cd", "out"], 2), covers=["started"],
         bounds="copying, then any 2 of copying, setting, moving and redirecting")(copies)
scenario("C15", "history_deep", args=(4, "default", ["copy", "exports", "set", "cd", "out"]), covers=["started"], tier="thorough",
         bounds="any 4 of copying, setting, moving and redirecting")(history)


def mixed(t, forms):
    """Commands of several environments in one pipeline."""
    w = Worlds(t)
    v = value(t, 0)
    a = w.made(t.call(lambda: t.environ.Environment(cwd="/w/a", exports={"A": v})), {"A": v}, "/w/a")
    b = w.made(t.call(lambda: t.environ.Environment(cwd="/w/b", exports={"B": "b"})), {"B": "b"}, "/w/b")
    if t.flag("default"):
        b = w.default()
    x, y = a.env.x, b.env.y
    form = t.pick("form", forms)
    late = t.pick("late", [None, "set", "cd"])
    if form == "pipe":
        cmd = x | y
    elif form == "group":
        cmd = x + y
    elif form == "argument":
        cmd = x(y)
    elif form == "redirected":
        cmd = x | (y > "/w/out5")
    if late == "set":
        b.env._exports["B"] = "late"
        b.vars["B"] = "late"
    elif late == "cd":
        t.call(lambda: b.env.cd("/w/b/a").run(), "changing the directory")
        b.cwd = "/w/b/a"
    w.snapshot()
    t.call(lambda: cmd.run(), "starting the pipeline")
    px, py = t.one("x"), t.one("y")
    if form == "pipe":
        a.out, b.inp = "pipe", "pipe"
    elif form == "argument":
        b.out = "pipe"
    elif form == "redirected":
        a.out, b.inp, b.out = "pipe", "pipe", "/w/out5"
    w.check_program(a, px)
    w.check_program(b, py)
    w.check_state()


scenario("C15", "mixed", args=(["pipe", "group", "argument", "redirected"],), covers=["started"],
         bounds="commands of two environments in 4 forms, a change of one after the pipeline was made")(mixed)


def builtin(t):
    """cd as a part of a pipeline of another environment moves the environment it was made in."""
    w = Worlds(t)
    a = w.made(t.call(lambda: t.environ.Environment(cwd="/w", exports={"A": "a"})), {"A": "a"}, "/w")
    b = w.made(t.call(lambda: t.environ.Environment(cwd="/w", exports={"B": "b"})), {"B": "b"}, "/w")
    t.call(lambda: (a.env.cd("b") + b.env.cd("a")).run(), "changing directories")
    a.cwd, b.cwd = "/w/b", "/w/a"
    w.check()


scenario("C15", "builtin", covers=["started"], bounds="cd of two environments in one pipeline")(builtin)


def interactive(t):
    """Interactive environments move the calling process, but each program starts in its own one's directory."""
    w = Worlds(t)
    kinds = t.pick("interactive", [(True, True), (True, False), (False, True)])
    es = []
    for i, d in enumerate(("/w/a", "/w/b")):
        e = t.call(lambda: t.environ.Environment(cwd=d, exports={"A": str(i)}, interactive=kinds[i]), "making an environment")
        es.append(w.made(e, {"A": str(i)}, d))
    if t.flag("derived"):
        m = es[0]
        es.append(w.made(t.call(lambda: m.env(cwd="/w/b/a", interactive=t.flag("derived_interactive")), "copying"), {"A": "0"}, "/w/b/a"))
    for i in range(2):
        m = es[t.choose("which%d" % i, len(es))]
        d = ["/w/a/b", "/w/b"][i]
        how = t.pick("how%d" % i, ["cd", "chdir"])
        if how == "cd":
            t.call(lambda: m.env.cd(d).run(), "changing the directory")
            m.cwd = d
        else:
            t.k.rootp.cwd = t.k.lookup(d)            # the caller's own os.chdir()
    w.snapshot()
    for m in es:
        n = len(t.started("x"))
        t.call(lambda: m.env.x.run(), "starting a program")
        w.check_program(m, t.started("x")[n])


scenario("C15", covers=["started"], bounds="2-3 environments, some interactive, 2 changes of directory by them or by the calling process")(interactive)
