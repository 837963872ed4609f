"""C18  A pipeline object can be run any number of times, also concurrently."""
from sx.api import *
from .shapes import tree, build, start_picture, Picture

ASSUMPTIONS = ["iterators and generators can only be consumed once and are excluded; functions and lists are not"]


def rerunnable(t, spec):
    """like build, with functions that can be called any number of times"""
    return build(t, spec)


def whole(t, spec):
    pl = build(t, spec)
    if not isinstance(pl, t.mod("pipeline.base").Pipeline):
        pl = t.mod("pipeline.function").Function(t.env, pl)
    return pl


def check_separate(t, runs, base):
    """every process, pipe and capture file belongs to one run"""
    for i, (rp, pic, procs) in enumerate(runs):
        for rp2, pic2, procs2 in runs[:i]:
            pic.separate(pic2, "two runs")
            t.prove(not [p for p in procs if p.pid in [q.pid for q in procs2]], "two runs have a process in common")


def finish(t, rp, out=None):
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    t.prove(not r.hung, "a run never ends")
    return r


def reruns(t, n, leaves, ops, decorate, nruns, iterate):
    """Runs one after the other and overlapping."""
    t.boot()
    k = t.k
    k.add_file("/w/in", b"data\n")
    k.programs["*"] = cat
    spec = tree(t, n, leaves, ops, decorate, "")
    if "'fn'" in str(spec) and iterate:
        iterate = False
    pl = whole(t, spec)
    fresh = whole(t, spec)
    base = [(e[0], e[1].id) for e in k.rootp.fds.ent]
    runs = []
    rp, first, procs = start_picture(t, fresh, False, "starting a fresh pipeline")
    runs.append((rp, first, procs))
    overlap = t.flag("overlap")
    if not overlap:
        finish(t, rp)
    for i in range(nruns):
        rp, pic, procs = start_picture(t, pl, False, "running again")
        pic.same(first, "run %d" % (i + 1))
        runs.append((rp, pic, procs))
        if not overlap:
            finish(t, rp)
    check_separate(t, runs, base)
    if overlap:
        order = t.choose("order", 2)
        for rp, pic, procs in (runs if order == 0 else runs[::-1]):
            finish(t, rp)
    for rp, pic, procs in runs:
        t.prove(not rp.is_running, "a run that has ended is reported as running")
        for p in procs:
            t.prove(k.procs[p.pid].state in ("zombie", "reaped"), "a stage is still running")
    t.prove([(e[0], e[1].id) for e in k.rootp.fds.ent] == base, "the caller's descriptors change")
    t.cover("ended")
    t.note("spec", str(spec))


LEAVES = ["cmd", "fn"]
OPS = ["pipe", "group", "arg"]
DECO = [(0, "/w/in"), (1, "/w/out"), (2, "/w/err"), (2, 1)]
scenario("C18", "one", args=(1, LEAVES, OPS, DECO, 3, False), covers=["ended"],
         bounds="1 stage, with or without a redirection, 4 runs, after each other or overlapping")(reruns)
scenario("C18", "two", args=(2, LEAVES, OPS, DECO[:2], 2, False), covers=["ended"],
         bounds="2 stages, a redirection on every part or none, 3 runs, after each other or overlapping")(reruns)
scenario("C18", "three", args=(3, LEAVES, OPS, [], 1, False), covers=["ended"],
         bounds="3 stages, 2 runs, after each other or overlapping")(reruns)
scenario("C18", "three_deep", args=(3, LEAVES, OPS, DECO[:2], 1, False), covers=["ended"], tier="thorough",
         bounds="3 stages, a redirection on every part or none, 2 runs, after each other or overlapping")(reruns)
scenario("C18", "four_deep", args=(4, ["cmd"], OPS, [], 2, False), covers=["ended"], tier="thorough",
         bounds="4 commands, 3 runs, after each other or overlapping")(reruns)


# ---------------------------------------------------------------- one object in several places
def copy_fn(t):
    async def fn(stdin):
        async for line in stdin:
            yield line
    return fn


PARTS = ["command", "arguments", "pipe", "group", "redirected", "in", "function", "argument", "fnstage", "subshell-arg", "err"]
PLACES = ["pipe", "group", "argument", "two_arguments", "pipe_redirected", "named", "three", "list", "both_sides"]


def part(t, kind):
    e = t.env
    R = t.redir.Redirect
    return {"command": lambda: e.x,
            "arguments": lambda: e.x("a", key="v"),
            "pipe": lambda: e.x | e.y,
            "group": lambda: e.x + e.y,
            "redirected": lambda: e.x > "/w/out",
            "in": lambda: e.x < "/w/in",
            "err": lambda: e.x | R("stderr", "/w/err"),
            "function": lambda: e.x | copy_fn(t),
            "fnstage": lambda: t.mod("pipeline.function").Function(e, copy_fn(t)),
            "argument": lambda: e.x(e.y),
            "subshell-arg": lambda: e.x(["line"])}[kind]()


def place(t, how, a, b, c):
    e = t.env
    if how == "pipe":
        return a | b
    if how == "group":
        return a + b
    if how == "argument":
        return e.z(a) | b
    if how == "two_arguments":
        return e.z(a, b)
    if how == "pipe_redirected":
        return (a | b) > "/w/out2"
    if how == "named":
        return e.z(a, name=b)
    if how == "three":
        return a | b | c
    if how == "list":
        return ["one"] | (a + b)
    if how == "both_sides":
        return (a + e.z) | b
    raise AssertionError(how)


def shared(t, parts, places):
    """One object used in several places makes independent stages."""
    t.boot()
    k = t.k
    k.add_file("/w/in", b"data\n")

    def tell(k, p):
        yield ("write", 2, b"%d\n" % p.pid)
        yield from cat(k, p)
    k.programs["*"] = tell
    kind = t.pick("part", parts)
    how = t.pick("place", places)
    one = part(t, kind)
    pics, runs = [], []
    for pl in (place(t, how, one, one, one), place(t, how, part(t, kind), part(t, kind), part(t, kind))):
        rp, pic, procs = start_picture(t, pl)
        pics.append(pic)
        runs.append((rp, pic, procs))
        captures = [o.path for p in procs for f, o in p.exec_fds if o.kind == "node" and o.path.startswith("/tmp/") and f > 1]
        t.prove(len(set(captures)) == len(captures), "two stages capture into one file")
    pics[0].same(pics[1], "one object in several places")
    check_separate(t, runs, None)
    # another run of the part alone is not disturbed by it
    for rp, pic, procs in runs:
        finish(t, rp)
        for x in rp.processes:
            if isinstance(x, t.running.RunningProcess) and kind != "err":
                t.prove(x.output_content == {2: "%d\n" % x.pid}, "a stage has the captured output of another stage")
    rp, p1, _ = start_picture(t, one)
    finish(t, rp)
    rp, p2, _ = start_picture(t, part(t, kind))
    finish(t, rp)
    p1.same(p2, "the part alone")
    t.cover("same")
    t.note("rows", [r[0] for r in pics[0].rows])


scenario("C18", "shared", args=(PARTS, PLACES), covers=["same"], bounds="11 kinds of parts, used two or three times in 9 ways")(shared)


# ---------------------------------------------------------------- status
def status(t, n, forms, text=False):
    """The status of one run is not that of another."""
    t.boot()
    k = t.k
    codes = [t.pick("code%d" % i, [0, 7]) if text else t.int("code%d" % i, 0, 255) for i in range(n)]

    def code_of(k, pid):
        return codes[len([p for p in k.procs.values() if p.name == "x" and p.pid < pid])]

    def prog(k, p):
        yield ("write", 2, b"%d\n" % p.pid)
        return code_of(k, p.pid)
    t.prog("x", prog)
    t.prog("y", cat)
    form = t.pick("form", forms)
    e = t.env
    pl = {"command": lambda: e.x, "pipe": lambda: e.x | e.y, "group": lambda: e.x + e.y, "redirected": lambda: e.x > "/w/out",
          "function": lambda: e.x | copy_fn(t), "second": lambda: e.y | e.x, "second_of_group": lambda: e.y + e.x,
          "argument": lambda: e.y(e.x)}[form]()
    runs = []
    for i in range(n):
        rp, pic, procs = start_picture(t, pl)
        runs.append((rp, [p for p in procs if p.name == "x"][0].pid))
        if i == 0 and t.flag("first_ends"):
            t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    order = t.pick("order", [runs, runs[::-1]])
    results = {}
    for i, (rp, pid) in enumerate(order):
        # the status of a run that goes on is untouched by the end of another
        for rp2, pid2 in order[i + 1:]:
            p2 = k.procs[pid2]
            t.prove(rp2.is_running or p2.state in ("zombie", "reaped"), "a run ends with another run")
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
        t.prove(not r.hung, "a run never ends")
        results[pid] = r
    for rp, pid in runs:
        r = results[pid]
        code = code_of(k, pid)
        xs = [p for p in rp.processes if getattr(p, "pid", None) == pid]
        t.prove(len(xs) == 1, "a run does not know its process")
        t.prove(eq(xs[0].exit_code, code), "a run has the status of another run")
        if bool(eq(code, 0)):
            t.prove(r.ok and not rp.failed_processes, "a run fails because of another run")
            t.cover("ok")
        else:
            t.prove(not r.ok and r.value.pipeline is rp and [p.pid for p in rp.failed_processes] == [pid],
                    "a run does not fail with its own processes")
            t.cover("failed")
        content = [v for f, v in xs[0].output_content.items()]
        t.prove(content == [str(pid) + "\n"], "a run has the captured output of another run")
        if text:
            shown = repr(rp)
            t.prove(str(pid) in shown, "a run does not show its process")
            for rp2, pid2 in runs:
                t.prove(pid2 == pid or str(pid2) not in shown, "a run shows the process of another run")
    if text:
        t.prove(not any(str(pid) in repr(pl) for rp, pid in runs), "the pipeline shows the status of a run")


FORMS = ["command", "pipe", "group", "redirected", "function", "second", "second_of_group", "argument"]
scenario("C18", "status", args=(2, FORMS), covers=["ok", "failed"],
         bounds="2 runs, any exit codes, either order of ends, 8 forms")(status)
scenario("C18", "shown", args=(2, FORMS[:-1], True), covers=["ok", "failed"],
         bounds="what 2 runs show, two exit codes, either order of ends, 7 forms")(status)
scenario("C18", "status_deep", args=(3, ["command", "pipe", "second", "group", "argument"]), covers=["ok", "failed"], tier="thorough",
         bounds="3 runs, any exit codes, either order of ends, 5 forms")(status)


def functions(t, n):
    """A function stage is called once per run, and its state belongs to the run."""
    t.boot()
    calls = []

    def fn(stdin):
        calls.append(stdin)
        yield "run %d" % len(calls)
    kind = t.pick("kind", ["function", "list", "bound"])

    class Thing(object):
        def method(self, stdin):
            return fn(stdin)
    t.prog("y", cat)
    src = {"function": fn, "list": ["run"], "bound": Thing().method}[kind]
    pl = src | t.env.y if kind == "list" else t.mod("pipeline.function").Function(t.env, src) | t.env.y
    overlap = t.flag("overlap")
    its = []
    want = []
    for i in range(n):
        if overlap:
            its.append(pl.run([t.redir.Redirect("stdout", t.redir.PIPE)]))
            want.append(["run"] if kind == "list" else ["run %d" % (i + 1)])
        else:
            got = t.call(lambda: list(pl), "reading the pipeline")
            t.prove(got == (["run"] if kind == "list" else ["run %d" % (i + 1)]), "another run writes something else: %s" % got)
    if overlap:
        got = [t.call(lambda: list(t.mod("utils.asyncutils").asyncitertoiter(rp.__aiter__())), "reading the pipeline") for rp in its]
        t.prove(sorted(got) == sorted(want), "overlapping runs write something else: %s" % got)
    t.prove(len(calls) == (0 if kind == "list" else n), "a function is not called once per run")
    t.cover("read")


scenario("C18", "functions", args=(3,), covers=["read"], bounds="3 runs of a function, a method or a list, after each other or overlapping")(functions)


def parts_stay(t, kinds):
    """Running a pipeline does not run, or change, the objects it was built from: at the prompt they run as before."""
    t.boot(interactive=True)
    t.k.add_file("/w/in", b"data\n")
    t.k.programs["*"] = cat
    e = t.env
    kind = t.pick("part", kinds)
    how = t.pick("place", PLACES + ["alone", "source"])
    one, other = part(t, kind), e.z
    pl = {"alone": lambda: one, "source": lambda: one | other}.get(how, lambda: place(t, how, other, one, e.w))()
    n = t.choose("runs", 2) + 1
    parts = [one] + ([] if how == "named" or pl is one else [other])
    shown = [t.call(lambda: t.repr(x), "describing a part") for x in parts]
    for i in range(n):
        rp = t.call(lambda: pl.run(), "running the pipeline")
        if t.flag("ends%d" % i):
            finish(t, rp)
    if pl is not one:
        for x, text in zip(parts, shown):
            t.prove(t.call(lambda: t.repr(x), "describing a part") == text, "a part is described otherwise after the pipeline was run")
    before = len(t.started())
    if pl is not one:
        t.call(lambda: t.display(one), "displaying a part")
        t.prove(len(t.started()) > before or kind == "fnstage", "a part no longer runs at the prompt")
    t.cover("ran")
    t.note("started", len(t.started()))


scenario("C18", "parts_stay", args=(PARTS,), covers=["ran"], bounds="11 kinds of parts, 11 ways of using them, 1-2 runs, ended or not")(parts_stay)
