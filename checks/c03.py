"""C03  Every stage is wired exactly as the pipeline expression says."""
import os
from sx.api import *

from .shapes import tree, build, Picture


class Plan(object):
    def __init__(self):
        self.n = 0
        self.stages = {}        # name -> {"fds": {fd: token}, "args": [token]}
        self.root = []          # (token, "r"/"w") the caller holds for functions
        self.pipes = []

    def pipe(self):
        self.n += 1
        self.pipes.append(("pipe", self.n))
        return self.pipes[-1]

    def walk(self, spec, i, o, err):
        kind = spec[0]
        if kind == "cmd":
            self.stages[spec[1]] = {"fds": {0: i, 1: o, 2: err}, "args": []}
        elif kind == "fn":
            self.root += [(i, "r"), (o, "w")]
        elif kind == "it":
            self.root += [(o, "w")]
        elif kind == "pipe":
            tok = self.pipe()
            self.walk(spec[1], i, tok, err)
            self.walk(spec[2], tok, o, err)
        elif kind == "group":
            self.walk(spec[1], i, o, err)
            self.walk(spec[2], i, o, err)
        elif kind == "redir":
            x = {0: i, 1: o, 2: err}
            x[spec[2]] = ("file", spec[3]) if isinstance(spec[3], str) else ("ext", spec[3])
            self.walk(spec[1], x[0], x[1], x[2])
        elif kind == "redirs":
            x = {0: i, 1: o, 2: err}
            for fd, target in spec[2]:
                x[fd] = ("file", target) if isinstance(target, str) else ("ext", target)
            self.walk(spec[1], x[0], x[1], x[2])
        elif kind == "arg":
            tok = self.pipe()
            self.stages[spec[1]] = {"fds": {0: i, 1: o, 2: err}, "args": [tok], "dir": "r"}
            if spec[2][0] == "fn":
                self.stages[spec[1]]["dir"] = "w"
                self.walk(spec[2], tok, o, err)
            else:
                self.walk(spec[2], i, tok, err)


def identify(o, ends, before):
    """what an open stream is: (token kind, ...), direction"""
    if o.kind in ("pr", "pw"):
        return ("end", o.obj.id), o.kind[1]
    if o.kind == "ext":
        return ("ext", int(o.label[3:])), None
    return ("file", o.path), None


def check_wiring(t, spec, plan, base, out_tok):
    k = t.k
    names = {}       # token -> pipe id

    def match(tok, o, direction, who):
        what, d = identify(o, None, None)
        if tok is None:                      # captured: a file of its own
            t.prove(what[0] == "file" and what[1].startswith("/tmp/"), "%s: stderr is not captured" % who)
            t.prove(what not in captures, "%s: two stages capture into one file" % who)
            captures.append(what)
        elif tok[0] == "pipe":
            t.prove(what[0] == "end", "%s is not connected to a pipe" % who)
            t.prove(d == direction, "%s has the wrong end of a pipe" % who)
            if tok not in names:
                t.prove(what[1] not in names.values(), "%s is connected to another stage's pipe" % who)
                names[tok] = what[1]
            t.prove(names[tok] == what[1], "%s is connected to another pipe" % who)
        else:
            t.prove(what == tok, "%s is connected to another stream" % who)
    captures = []
    for name, st in plan.stages.items():
        p = t.one(name)
        fds = dict((int(f), o) for f, o in p.exec_fds)
        t.prove(len(fds) == 3 + len(st["args"]), "stage %s does not hold exactly its descriptors (%s)" % (
            name, sorted(fds)))
        for fd in (0, 1, 2):
            t.prove(fd in fds, "a standard descriptor of a stage is closed")
            match(st["fds"][fd], fds[fd], "r" if fd == 0 else "w", "descriptor %d of stage %s" % (fd, name))
        rest = [fd for fd in fds if fd > 2]
        t.prove(p.argv[1:] == ["/dev/fd/%d" % fd for fd in rest], "the argument does not name the descriptor")
        for fd, tok in zip(rest, st["args"]):
            match(tok, fds[fd], st["dir"], "argument of stage %s" % name)
    t.prove(len(t.started()) == len(plan.stages), "other programs were started")
    # what the caller holds: its own descriptors, those of its function stages and the end it reads from
    mine = [(e[0], e[1]) for e in k.rootp.fds.ent]
    ids = [o for f, o in base]
    extra = []
    for fd, o in mine:
        if (fd, o.id) in base:
            continue
        extra.append(identify(o, None, None))
    want = []
    for tok, d in plan.root + ([(out_tok, "r")] if out_tok else []):
        if tok[0] == "pipe":
            if tok not in names:
                names[tok] = None
            want.append((tok, d))
        else:
            want.append((tok, None))
    # function stages may be the only ones on a pipe: match those by counting
    unknown = [tok for tok in plan.pipes if names.get(tok) is None]
    known = {v: tok for tok, v in names.items() if v is not None}
    got = []
    free = {}
    for what, d in extra:
        if what[0] == "end":
            if what[1] in known:
                got.append((known[what[1]], d))
            else:
                free.setdefault(what[1], []).append(d)
        else:
            got.append((what, d))
    w_known = [x for x in want if x[0] not in unknown]
    t.prove(sorted(map(str, got)) == sorted(map(str, w_known)),
            "the calling process holds other descriptors than its stages need: %s instead of %s" % (got, w_known))
    shapes = sorted(sorted(d for x, d in want if x == tok) for tok in unknown)
    t.prove(sorted(sorted(v) for v in free.values()) == [s for s in shapes if s],
            "the calling process holds other pipe ends than its function stages need")
    for pid, p in k.pipes.items():
        if pid not in known and pid not in free:
            t.prove(not k.pipe_end_open(p, "pr") and not k.pipe_end_open(p, "pw"), "an end of an unused pipe stays open")


def wiring(t, n, leaves, ops, decorate, iterate=False, run=True, closed=False, extra=False):
    t.boot(maxfd=1100 if extra == "high" else 24)
    k = t.k
    k.add_file("/w/in", b"data\n")
    k.programs["*"] = cat
    if extra:
        # a descriptor of the caller that programs would inherit
        fd = t.int("extra", 3, 22) if extra is True else t.pick("extra", [64, 255, 256, 257, 1000, 1023, 1024, 1097, 1098])
        t.assume(k.rootp.fds.find(fd) is None)
        o = k.new_ofd("ext", None)
        o.label = "ext9"
        k.rootp.fds.ent.append([fd, o, False])
    if closed:
        for fd in t.pick("closed", [(0,), (1,), (0, 1), (2,), (0, 1, 2)]):
            k.rootp.fds.remove(k.rootp.fds.find(fd))
    base = [(e[0], e[1].id) for e in k.rootp.fds.ent]
    spec = tree(t, n, leaves, ops, decorate, "")
    if iterate is None:
        iterate = t.flag("iterate")
    pl = build(t, spec)
    Function = t.mod("pipeline.function").Function
    if not isinstance(pl, t.mod("pipeline.base").Pipeline):
        pl = Function(t.env, pl)
    plan = Plan()
    out_tok = plan.pipe() if iterate else None
    plan.walk(spec, ("ext", 0), out_tok or ("ext", 1), None)
    R = t.redir.Redirect
    rp = t.call(lambda: pl.run([R("stdout", t.redir.PIPE)] if iterate else []), "starting the pipeline")
    check_wiring(t, spec, plan, base, out_tok)
    t.cover("started")
    t.note("spec", str(spec))
    t.note("argv", [p.argv for p in t.started()])
    if run:
        # everything comes to its end: every reader sees the end of its input
        if iterate:
            r = t.attempt(lambda: list(t.mod("utils.asyncutils").asyncitertoiter(rp.__aiter__())))
        else:
            r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
        if r.hung:
            t.fail("a reader never sees the end of its input: the pipeline never ends")
        for p in t.children():
            t.prove(p.state in ("zombie", "reaped"), "a stage is still running")
        t.cover("ended")
        t.note("r", r.kind)


LEAVES = ["cmd", "fn", "it"]
OPS = ["pipe", "group", "arg"]
DECO = [(0, "/w/in"), (1, "/w/out"), (2, "/w/err"), (2, 1)]

scenario("C03", "one_stage", args=(1, LEAVES, OPS, DECO, None), covers=["started", "ended"],
         bounds="1 stage (command, function, iterator), with or without a redirection, run or iterated")(wiring)
scenario("C03", "two_stages", args=(2, LEAVES, OPS, DECO[:3], None), covers=["started", "ended"],
         bounds="2 stages: pipe, group or argument; a redirection on every part or none; run or iterated")(wiring)
scenario("C03", "three_stages", args=(3, LEAVES, OPS, [], None), covers=["started", "ended"],
         bounds="3 stages: every tree of pipes, groups and arguments; run or iterated")(wiring)
scenario("C03", "three_redirected", args=(3, ["cmd"], OPS, [(0, "/w/in"), (1, "/w/out")], False), covers=["started"],
         bounds="3 commands: every tree, a redirection of stdin or stdout on every part or none")(wiring)
SEVERAL = [("several", ((1, "/w/out"), (2, "/w/err"))), ("several", ((2, "/w/err"), (0, "/w/in"))),
           ("several", ((0, "/w/in"), (1, 2), (2, "/w/err"))), ("several", ((2, 1), (1, "/w/out"), (0, "/w/in")))]
scenario("C03", "several_redirects", args=(2, LEAVES, OPS, SEVERAL, None), covers=["started", "ended"],
         bounds="2 stages; 4 sets of 2-3 redirections, given as one object, on every part or none; run or iterated")(wiring)
scenario("C03", "extra_descriptor", args=(2, LEAVES, OPS, [], None, False, False, True), covers=["started"],
         bounds="2 stages; the caller has another inheritable descriptor of any number 3-22 (its limit is 24)")(wiring)
scenario("C03", "high_descriptor", args=(2, ["cmd"], OPS, [], False, False, False, "high"), covers=["started"],
         bounds="2 commands; the caller has another inheritable descriptor of 9 numbers up to its limit of 1100")(wiring)


def bare(t):
    """Environments that give a stage only some of the standard descriptors."""
    t.boot()
    k = t.k
    k.programs["*"] = cat
    fd = t.int("extra", 3, 12)
    t.assume(k.rootp.fds.find(fd) is None)
    o = k.new_ofd("ext", None)
    o.label = "ext9"
    k.rootp.fds.ent.append([fd, o, False])
    R, Rs = t.redir.Redirect, t.redir.Redirects
    given = [f for f in (0, 1, 2) if t.flag("fd%d" % f)]
    e = t.env(redirects=Rs(*[R(f, f, borrowed=True) for f in given]))
    form = t.pick("form", ["x", "x|y", "x+y", "x(y)", "(x|y)|x", "x|(y|x)"])
    pl = {"x": lambda: e.x, "x|y": lambda: e.x | e.y, "x+y": lambda: e.x + e.y, "x(y)": lambda: e.x(e.y),
          "(x|y)|x": lambda: (e.x | e.y) | e.z, "x|(y|x)": lambda: e.x | (e.y | e.z)}[form]()
    base = [(e[0], e[1].id) for e in k.rootp.fds.ent]
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    want = {"x": set(given), "y": set(given)}
    if "|" in form:
        want["x"] |= {1}
        want["y"] |= {0}
        if len(form) > 3:
            want["y"] |= {1}
            want["z"] = set(given) | {0}
    if form == "x(y)":
        want["y"] |= {1}
    if form == "x":
        del want["y"]
    for name in want:
        p = t.one(name)
        got = set(int(f) for f, o in p.exec_fds)
        args = set(int(a[8:]) for a in p.argv[1:])
        t.prove(got - args == want[name] and len(got) == len(want[name]) + len(args),
                "stage %s holds the descriptors %s instead of %s" % (name, sorted(got), sorted(want[name])))
        t.prove(len(args) == (1 if form == "x(y)" and name == "x" else 0), "another argument")
        for f, o in p.exec_fds:
            t.prove(o.label != "ext9" if o.kind == "ext" else True, "a program inherits another descriptor")
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    if r.hung:
        t.fail("the pipeline never ends")
    t.prove([(e[0], e[1].id) for e in k.rootp.fds.ent] == base, "the calling process's descriptors have changed")
    t.cover("started")


scenario("C03", covers=["started"], bounds="every subset of the standard descriptors given by the environment; 6 forms;"
         " another inheritable descriptor 3-12")(bare)
scenario("C03", "four_commands", args=(4, ["cmd"], OPS, [], False), covers=["started"],
         bounds="4 commands: every tree of pipes, groups and arguments")(wiring)
scenario("C03", "four_stages", args=(4, LEAVES, OPS, [], None), covers=["started", "ended"], tier="thorough",
         bounds="4 stages: every tree; run or iterated")(wiring)
scenario("C03", "five_commands", args=(5, ["cmd"], OPS, [], False), covers=["started"], tier="thorough",
         bounds="5 commands: every tree of pipes, groups and arguments")(wiring)
scenario("C03", "three_stages_redirected", args=(3, LEAVES, OPS, DECO[:2], None), covers=["started", "ended"],
         tier="thorough", bounds="3 stages: every tree, a redirection on every part or none; run or iterated")(wiring)


def in_a_subshell(t, n, leaves, ops, deco, places):
    """A subshell stands where its pipeline would stand."""
    t.boot()
    k, e = t.k, t.env
    k.mkdir_p("/w/sub")
    k.add_file("/w/in", b"one\ntwo\n")
    k.add_file("/w/out", b"")
    k.add_file("/w/out2", b"")
    k.programs["*"] = cat
    if t.flag("elsewhere"):
        t.call(lambda: e._chdir("/w/sub"), "cd")
    where = t.pick("where", places)
    spec = tree(t, n, leaves, ops, deco, "", False)

    def place(x, out):
        x = {"alone": lambda: x, "head": lambda: x | e._("y"), "tail": lambda: e._("x") | x,
             "middle": lambda: e._("x") | x | e._("y"), "group": lambda: e._("x") + x}[where]()
        return "/w/in" | x | out

    def go(x, out):
        seen = len(t.started())
        rp = t.call(lambda: place(x, out).run(), "starting the pipeline")
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
        if r.hung:
            t.fail("the pipeline never ends")
        # (who writes to a stage that reads from a file instead is told so by a signal)
        t.prove(r.ok or deco and where in ("tail", "middle"), "the pipeline fails: %s" % r.kind)
        procs = sorted(t.started()[seen:], key=lambda p: p.argv[0])
        for p in procs:
            t.prove([int(f) for f, o in p.exec_fds if f > 2] == [int(a[8:]) for a in p.argv[1:]],
                    "program %s holds other descriptors than its own" % p.argv[0])
        pic = Picture(t, procs)
        # what the programs say on their standard error is captured for each of them
        pic.rows = [(a, [(i, "out" if x == out else x) for i, x in f if i != 2], c, v) for a, f, c, v in pic.rows]
        return pic, bytes(k.lookup(out).data)
    full = build(t, spec)
    if not isinstance(full, t.mod("pipeline.base").Pipeline):
        full = t.mod("pipeline.function").Function(e, full)
    plain, data = go(full, "/w/out")
    inner = build(t, spec)
    if not isinstance(inner, t.mod("pipeline.base").Pipeline):
        inner = t.mod("pipeline.function").Function(e, inner)
    inside, data2 = go(e.subshell(inner), "/w/out2")
    inside.same(plain, "in a subshell")
    # which of several readers of one stream gets a line is not determined
    t.prove(data == data2 or spec[0] in ("group", "arg") or where == "group", "the subshell's output is %s instead of %s" % (data2, data))
    t.prove(len(data) > 0 or deco or spec[0] == "arg", "nothing is written")
    t.cover("ran")
    t.note("data", data)


scenario("C03", "subshell", args=(2, ["cmd", "fn"], OPS, [], ["alone", "head", "tail", "middle", "group"]), covers=["ran"],
         bounds="a subshell of 2 stages (pipe, group or argument) at 5 places of a pipeline, after a cd or not")(in_a_subshell)
scenario("C03", "subshell_redirected", args=(1, ["cmd", "fn"], OPS, [(0, "/w/in"), (1, "/w/inner"), (2, "/w/err")], ["alone", "head", "tail"]), covers=["ran"],
         bounds="a subshell of 1 stage with or without a redirection at 3 places of a pipeline, after a cd or not")(in_a_subshell)
