"""Pipeline expressions: any tree of stages, as a specification and as the object."""
from sx.api import *

# Specifications: ("cmd", name) ("fn", name) ("it", name) ("pipe", a, b) ("group", a, b) ("arg", name, sub)
#                 ("redir", sub, fd, target)   target: a path, or a number of the caller
#                 ("redirs", sub, ((fd, target), ...))   the same in one object


def tree(t, n, leaves, ops, decorate, tag, first=True, count=None):
    """any expression of n stages"""
    count = count if count is not None else [0]

    def deco(spec):
        if not decorate:
            return spec
        d = t.choose("deco" + tag, 1 + len(decorate))
        if d == 0:
            return spec
        fd, target = decorate[d - 1]
        if fd == "several":
            return ("redirs", spec, target)
        return ("redir", spec, fd, target)
    if n == 1:
        count[0] += 1
        # an iterator has no input
        ls = [x for x in leaves if first or not x.startswith("it")]
        kind = t.pick("leaf" + tag, ls)
        return deco((kind, "abcdef"[count[0] - 1]))
    forms = [(op, i) for op in ops for i in range(1, n) if op != "arg" or i == 1]
    op, i = t.pick("op" + tag, forms)
    if op == "arg":
        count[0] += 1
        name = "abcdef"[count[0] - 1]
        return deco(("arg", name, tree(t, n - 1, leaves, ops, decorate, tag + "a", True, count)))
    a = tree(t, i, leaves, ops, decorate, tag + "l", first and op == "pipe" or first, count)
    b = tree(t, n - i, leaves, ops, decorate, tag + "r", first and op == "group", count)
    return deco((op, a, b))


def build(t, spec):
    """the pipeline object for a specification"""
    e, kind = t.env, spec[0]
    Function = t.mod("pipeline.function").Function
    Pipeline = t.mod("pipeline.base").Pipeline
    if kind == "cmd":
        return e._(spec[1])
    if kind == "fn":
        async def fn(stdin):
            async for line in stdin:
                yield line
        return fn
    if kind == "it":
        return iter([spec[1]])
    if kind == "fnearly":            # does not look at its input
        async def fn(stdin):
            yield "early"
        return fn
    if kind == "fnone":              # stops in the middle of its input
        async def fn(stdin):
            async for line in stdin:
                yield line
                return
        return fn
    if kind == "fnraise":
        async def fn(stdin):
            async for line in stdin:
                yield line
                raise ValueError("stage fails")
            raise ValueError("stage fails")
        return fn
    if kind == "fncall":             # fails before it returns anything
        def fn(stdin):
            raise ValueError("stage fails")
        return fn
    if kind == "itraise":
        def it():
            yield "first"
            raise ValueError("stage fails")
        return it()
    if kind == "fnargs":             # does not look at its input, has arguments
        async def fn(stdin, text):
            yield text
        return Function(e, fn, "given")
    if kind == "itmany":
        return iter([str(i) for i in range(4)])

    def full(x):
        return x if isinstance(x, Pipeline) else Function(e, x)
    if kind == "arg":
        return e._(spec[1], build(t, spec[2]))
    if kind == "redir":
        return full(build(t, spec[1])) | t.redir.Redirect(spec[2], spec[3], borrowed=True)
    if kind == "redirs":
        return full(build(t, spec[1])) | t.redir.Redirects(*[t.redir.Redirect(f, x, borrowed=True) for f, x in spec[2]])
    a, b = build(t, spec[1]), build(t, spec[2])
    if kind == "pipe":
        return (full(a) if not isinstance(b, Pipeline) else a) | b
    return full(a) + full(b)



# ---------------------------------------------------------------- what a run looks like
class Picture(object):
    """The programs a run started and what they are connected to, with names that are the same for every run."""

    def __init__(self, t, procs, held=()):
        self.ids = []
        self.t = t
        self.rows = []
        self.own = []           # streams made for this run
        for p in procs:
            fds = sorted([(int(f), self.name(o)) for f, o in p.exec_fds])
            # the numbers of argument pipes depend on what else is open
            extra = [f for f, n in fds if f > 2]
            argv = list(p.argv)
            for i, f in enumerate(extra):
                argv = [a.replace("/dev/fd/%d" % f, "/dev/fd/argument%d" % i) if type(a) is str and a.endswith("/dev/fd/%d" % f) else a
                        for a in argv]
            fds = [(f if f < 3 else 3 + extra.index(f), n) for f, n in fds]
            self.rows.append((argv, fds, p.exec_cwd, [list(x) for x in p.env]))
        self.held = sorted(self.name(o) for o in held)

    def name(self, o):
        if o.kind in ("pr", "pw"):
            key = ("pipe", o.obj.id)
        elif o.kind == "ext":
            return o.label
        elif o.path.startswith("/tmp/"):
            key = ("tmp", o.path)
        else:
            return o.path
        if key not in self.ids:
            self.ids.append(key)
        return "%s%d%s" % (key[0], self.ids.index(key), o.kind)

    def same(self, other, what):
        t = self.t
        t.prove(len(self.rows) == len(other.rows), "%s: %d programs instead of %d" % (what, len(self.rows), len(other.rows)))
        for (a, f, c, e), (a2, f2, c2, e2) in zip(self.rows, other.rows):
            t.prove(len(a) == len(a2), "%s: another number of arguments" % what)
            for x, y in zip(a, a2):
                t.prove(len(x) == len(y) and eq(x, y), "%s: other arguments" % what)
            t.prove(f == f2, "%s: other streams: %s instead of %s" % (what, f, f2))
            t.prove(c == c2, "%s: another directory" % what)
            t.prove(len(e) == len(e2), "%s: other variables" % what)
            for x, y in zip(e, e2):
                t.prove(and_(eq(x[0], y[0]), eq(x[1], y[1])), "%s: other variables" % what)
        t.prove(self.held == other.held, "%s: the caller holds other streams" % what)

    def separate(self, other, what):
        """nothing that was made for one run is used by the other"""
        both = [x for x in self.ids if x in other.ids]
        self.t.prove(not both, "%s: they share %s" % (what, both))


def start_picture(t, pl, iterate=False, what="starting the pipeline"):
    """starts pl; (running pipeline, picture)"""
    k = t.k
    had = [p.pid for p in t.children()]
    fds = [(e[0], e[1].id) for e in k.rootp.fds.ent]
    R = t.redir.Redirect
    rp = t.call(lambda: pl.run([R("stdout", t.redir.PIPE)] if iterate else []), what)
    procs = [p for p in t.children() if p.pid not in had]
    t.prove(all(p.execd for p in procs), "a program is not started")
    held = [e[1] for e in k.rootp.fds.ent if (e[0], e[1].id) not in fds]
    return rp, Picture(t, procs, held), procs
