"""C04  Running pipelines neither leaks nor steals descriptors of the caller."""
import errno as E
import os
from sx.api import *
from .shapes import tree, build

ASSUMPTIONS = ["the run itself starts (fork, pipe and open in the calling process succeed)"]


def table(t):
    return sorted((int(f), o.id, bool(c)) for f, o, c in t.k.rootp.fds.ent if o.kind != "poison")


def tmpfiles(t):
    return [n for n, x in t.k.lookup("/tmp").entries]


def finish(t, rp, how):
    if how == "wait":
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    elif how == "iterate":
        r = t.attempt(lambda: list(t.mod("utils.asyncutils").asyncitertoiter(rp.__aiter__())))
    else:
        r = t.attempt(lambda: list(t.mod("utils.asyncutils").asyncitertoiter(rp.iterbytes())))
    if r.hung:
        t.fail("the pipeline never ends: %s" % r.value)
    t.settle()
    return r


def check_clean(t, before, tmp=0):
    if t.k.poison:
        t.prove(table(t) == [x for x in before], "the caller's descriptors are not the same as before the run")
    else:
        t.prove(table(t) == before, "the caller's descriptors are not the same as before the run: %s, before: %s" % (
            [x[0] for x in table(t)], [x[0] for x in before]))
    t.prove(not [x for x in t.k.close_log if x[0] == t.k.root_pid and x[2] is None], "a descriptor is closed twice")
    t.prove(not [x for x in t.k.closed_uses if x[0] == t.k.root_pid], "a closed descriptor is used")
    t.prove(len(tmpfiles(t)) == tmp, "a temporary file is left behind")


def programs(t, names, which):
    progs = {"cat": cat, "fails": exits(1), "sink": sink, "killed": killed(9), "emit": emit(b"line\nline\n"),
             "endless": endless}
    for n in names:
        t.prog(n, progs[t.pick("prog_" + n, which)] if len(which) > 1 else progs[which[0]])


def shapes(t, n, leaves, ops, deco, which, hows, sched=0, poison=False):
    t.boot(maxfd=60)
    k = t.k
    k.add_file("/w/in", b"one\ntwo\n")
    k.sched_budget = sched
    k.ready_order_choice = bool(sched)
    spec = tree(t, n, leaves, ops, deco, "")
    how = t.pick("how", hows) if len(hows) > 1 else hows[0]
    names = [c for c in "abcdef" if "'%s'" % c in str(spec) and ("('cmd', '%s'" % c in str(spec) or "('arg', '%s'" % c in str(spec))]
    programs(t, names, which)
    pl = build(t, spec)
    if not isinstance(pl, t.mod("pipeline.base").Pipeline):
        pl = t.mod("pipeline.function").Function(t.env, pl)
    before = table(t)
    k.poison = poison
    R = t.redir.Redirect
    rp = t.call(lambda: pl.run([R("stdout", t.redir.PIPE)] if how != "wait" else []), "starting the pipeline")
    r = finish(t, rp, how)
    check_clean(t, before)
    t.cover("clean")
    t.note("r", [str(spec), r.kind])


ALL = ["cmd", "fn", "it", "fnearly", "fnargs", "fnone", "fnraise", "fncall", "itraise"]
FDECO = [(0, "/w/in"), (1, "/w/out"), (2, "/w/err")]
scenario("C04", "one_stage", args=(1, ALL, [], FDECO, ["cat", "fails", "killed", "emit"], ["wait", "iterate", "bytes"]),
         covers=["clean"], bounds="1 stage of 9 kinds, 4 programs, a redirection or none; waited for, iterated, read")(shapes)
scenario("C04", "two_stages", args=(2, ALL, ["pipe", "group", "arg"], [], ["cat", "fails"], ["wait", "iterate"]),
         covers=["clean"], bounds="2 stages of 9 kinds: pipe, group, argument; 2 programs")(shapes)
scenario("C04", "two_stages_poison", args=(2, ALL, ["pipe", "group", "arg"], [], ["cat"], ["iterate"], 0, True),
         covers=["clean"], bounds="the same with every closed number in use again at once")(shapes)
scenario("C04", "redirected", args=(2, ["cmd", "fn", "it"], ["pipe", "group", "arg"], FDECO[:2], ["cat"], ["wait"], 0, True),
         covers=["clean"], bounds="2 stages, a file on every part or none, every closed number in use again at once")(shapes)
scenario("C04", "three_stages", args=(3, ["cmd", "fn", "it"], ["pipe", "group", "arg"], [], ["emit"], ["iterate"]),
         covers=["clean"], bounds="3 stages: every tree of pipes, groups and arguments")(shapes)
scenario("C04", "schedules", args=(2, ["fn", "fnone", "cmd"], ["pipe", "group"], [], ["emit"], ["iterate"], 5, True),
         covers=["clean"], bounds="2 stages, the first 5 scheduling decisions arbitrary, every closed number in use again at once")(shapes)
scenario("C04", "three_stages_all", args=(3, ALL, ["pipe", "group", "arg"], [], ["cat"], ["iterate"], 0, True),
         covers=["clean"], tier="thorough", bounds="3 stages of 9 kinds: every tree")(shapes)
scenario("C04", "three_schedules", args=(3, ["fn", "fnone", "cmd", "it"], ["pipe", "group"], [], ["emit"], ["iterate"], 5, True),
         covers=["clean"], tier="thorough", bounds="3 stages, the first 5 scheduling decisions arbitrary")(shapes)
scenario("C04", "two_schedules", args=(2, ALL, ["pipe", "group", "arg"], [], ["emit"], ["iterate"], 9, True),
         covers=["clean"], tier="thorough", bounds="2 stages of 9 kinds, the first 9 scheduling decisions arbitrary")(shapes)


def write_errors(t, nitems, sched):
    """Every write of a function stage may fail with any error; the source may end, fail or be late."""
    t.boot(maxfd=60)
    k = t.k
    at = t.int("at", 0, 12)
    errno = t.pick("errno", [E.EPIPE, E.EIO, E.ENOSPC, E.EAGAIN, E.EINTR])
    count = [0]

    def fault(k, call):
        if call == "write" and k.cur == k.root_pid:
            c = count[0]
            count[0] += 1
            if at == c:
                raise OSError(errno, "injected")
    k.faults = fault
    k.sched_budget = sched
    k.short_writes = 1
    t.prog("c", cat)
    end = t.pick("end", ["return", "raise"])
    asyncio = t.mod("iterio").asyncio
    late = t.int("late", 0, nitems)

    async def source():
        for i in range(nitems):
            if late == i + 1:
                f = asyncio.get_event_loop().create_future()
                k.external = [lambda k: f.get_loop().call_soon(f.set_result, None)]
                await f
            yield "item%d" % i
        if end == "raise":
            raise ValueError("source fails")
    form = t.pick("form", ["cmd", "fn", "file"])
    Function = t.mod("pipeline.function").Function
    if form == "cmd":
        pl = Function(t.env, source()) | t.env.c
    elif form == "fn":
        async def reader(stdin):
            async for line in stdin:
                yield line
        pl = Function(t.env, source()) | Function(t.env, reader)
    else:
        pl = Function(t.env, source()) | "/w/out"
    before = table(t)
    k.poison = True
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    r = finish(t, rp, "wait")
    check_clean(t, before)
    t.cover("clean")
    if not r.ok:
        t.cover("failed")
    t.note("r", r.kind)


scenario("C04", "write_errors", args=(2, 2), covers=["clean", "failed"],
         bounds="2 items, any one write fails (5 errors), one short write, source late at any item, 2 free scheduling "
                "decisions, every closed number in use again at once")(write_errors)
scenario("C04", "write_errors_deep", args=(3, 6), covers=["clean", "failed"], tier="thorough",
         bounds="3 items, any one write fails (5 errors), one short write, 6 free scheduling decisions")(write_errors)


def owned(t, n, sources=(5, 6)):
    """Descriptors given to the run, owned or borrowed, on commands, functions, pipes and groups."""
    t.boot(maxfd=60)
    k = t.k
    k.programs["*"] = cat
    for fd in sources:
        if fd < 3:
            continue
        o = k.new_ofd("ext", None)
        o.label = "ext%d" % fd
        k.rootp.fds.ent.append([fd, o, True])
    R = t.redir.Redirect
    reds, closes = [], set()
    own = {}
    for i in range(n):
        fd = t.choose("fd%d" % i, 3)
        src = sources[t.choose("src%d" % i, len(sources))]
        b = t.flag("borrowed%d" % i)
        # one number is either lent or given away
        if own.setdefault(src, b) != b:
            t.assume(False)
        if not b and any(r.source == src and r.fd == fd for r in reds):
            t.assume(False)
        reds.append(R(fd, src, os.O_RDWR, borrowed=b))
        if not b:
            closes.add(src)
    e = t.env

    async def fn(stdin):
        async for line in stdin:
            yield line
    Function = t.mod("pipeline.function").Function
    form = t.choose("form", 7)
    base = [lambda: e.a, lambda: Function(e, fn), lambda: e.a | e.b, lambda: e.a + e.b, lambda: iter([]) | e.a,
            lambda: e.a | fn, lambda: e.a(e.b)][form]()
    nested = t.flag("nested") if n > 1 else False
    if nested:
        pl = base
        for r in reds:
            pl = pl | r
    else:
        pl = base | t.redir.Redirects(*reds)
        for i, r in enumerate(reds):
            if any(r2.fd == r.fd for r2 in reds[i + 1:]):
                t.assume(False)              # replaced before anything runs: never part of the pipeline
    before = table(t)
    k.poison = True
    rp = t.call(lambda: pl.run(), "starting the pipeline")
    r = finish(t, rp, "wait")
    check_clean(t, [x for x in before if x[0] not in closes])
    t.cover("clean")
    if closes:
        t.cover("closed")
    t.note("r", [r.kind, sorted(closes)])


scenario("C04", "owned_one", args=(1,), covers=["clean", "closed"],
         bounds="1 given descriptor, owned or borrowed, 7 forms of pipeline")(owned)
scenario("C04", "owned_two", args=(2,), covers=["clean", "closed"],
         bounds="2 given descriptors, possibly the same, owned or borrowed, 7 forms of pipeline")(owned)
scenario("C04", "owned_three", args=(3,), covers=["clean", "closed"], tier="thorough",
         bounds="3 given descriptors, possibly the same, owned or borrowed, 7 forms of pipeline")(owned)


scenario("C04", "owned_standard", args=(1, (0, 1, 2)), covers=["clean", "closed"],
         bounds="a standard descriptor of the caller given to the run, owned or borrowed, 7 forms of pipeline")(owned)


def repeated(t, n):
    """Many runs one after the other, and some of them overlapping."""
    t.boot(maxfd=60)
    k = t.k
    k.programs["*"] = cat
    e = t.env

    async def fn(stdin):
        async for line in stdin:
            yield line
    pl = [lambda: e.a | e.b, lambda: e.a | fn | e.b, lambda: (e.a + e.b) | e.c][t.choose("form", 3)]()
    before = table(t)
    runs = []
    for i in range(n):
        runs.append(t.call(lambda: pl.run(), "starting the pipeline"))
        if t.flag("now%d" % i):
            while runs:
                finish(t, runs.pop(0), "wait")
    while runs:
        finish(t, runs.pop(), "wait")
    check_clean(t, before)
    t.cover("clean")


scenario("C04", "repeated", args=(3,), covers=["clean"], bounds="3 runs of one pipeline, each ending before or after the next starts")(repeated)


def stage_errors(t, nitems, sched):
    """Whatever a stage raises, wherever, its streams are closed exactly once."""
    t.boot(maxfd=60)
    k = t.k
    t.prog("c", cat)
    t.prog("emit", emit(b"one\ntwo\nthree\n"))
    asyncio = t.mod("iterio").asyncio
    error = t.pick("error", [lambda: ValueError("stage fails"), lambda: OSError(E.EIO, "stage fails"),
                             lambda: BrokenPipeError(E.EPIPE, "stage fails"), lambda: BlockingIOError(E.EAGAIN, "stage fails"),
                             lambda: EOFError("stage fails"), lambda: StopIteration(), lambda: StopAsyncIteration(),
                             lambda: GeneratorExit(), lambda: asyncio.CancelledError(), lambda: KeyboardInterrupt()])
    at = t.int("at", 0, nitems)

    class Iterator(object):
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            i = self.i
            self.i += 1
            if at == i:
                raise error()
            if i == nitems:
                raise StopIteration()
            return "item%d" % i

    class AsyncIterator(object):
        def __init__(self):
            self.i = 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            i = self.i
            self.i += 1
            if at == i:
                raise error()
            if i == nitems:
                raise StopAsyncIteration()
            return "item%d" % i

    async def reads(stdin):
        i = 0
        async for line in stdin:
            if at == i:
                raise error()
            i += 1
            yield line
        if at == nitems:
            raise error()

    class Refuses(object):
        def __iter__(self):
            raise error()

    class AsyncRefuses(object):
        def __aiter__(self):
            raise error()

    def wrong(stdin):
        raise error()

    async def waits(stdin):
        await asyncio.sleep(0)
        raise error()
    Function = t.mod("pipeline.function").Function
    e = t.env
    kind = t.pick("kind", ["iterator", "async iterator", "function", "call", "coroutine", "iter", "aiter", "call iter", "call aiter"])
    stage = {"iterator": lambda: Function(e, Iterator()), "async iterator": lambda: Function(e, AsyncIterator()),
             "function": lambda: Function(e, reads), "call": lambda: Function(e, wrong),
             "coroutine": lambda: Function(e, waits), "iter": lambda: Function(e, Refuses()),
             "aiter": lambda: Function(e, AsyncRefuses()), "call iter": lambda: Function(e, lambda stdin: Refuses()),
             "call aiter": lambda: Function(e, lambda stdin: AsyncRefuses())}[kind]
    if kind in ("call", "iter", "call iter") and not isinstance(error(), Exception):
        t.assume(False)         # then the run does not start
    form = t.pick("form", ["alone", "x|c", "x|fn", "x|file"])

    async def reader(stdin):
        async for line in stdin:
            yield line
    pl = stage()
    if kind in ("function", "call", "coroutine", "call iter", "call aiter"):
        pl = e.emit | pl
    if form == "x|c":
        pl = pl | e.c
    elif form == "x|fn":
        pl = pl | Function(e, reader)
    elif form == "x|file":
        pl = pl | "/w/out"
    k.sched_budget = sched
    before = table(t)
    k.poison = True
    how = t.pick("how", ["wait", "iterate"]) if form != "x|file" else "wait"
    R = t.redir.Redirect
    rp = t.call(lambda: pl.run([R("stdout", t.redir.PIPE)] if how == "iterate" else []), "starting the pipeline")
    r = finish(t, rp, how)
    if isinstance(r.value, KeyboardInterrupt):
        # that has only interrupted the caller
        r = finish(t, rp, how)
    check_clean(t, before)
    t.cover("clean")
    if not r.ok:
        t.cover("failed")
    t.note("r", [kind, form, how, r.kind])


scenario("C04", "stage_errors", args=(2, 0), covers=["clean", "failed"],
         bounds="2 items, a stage of 9 kinds raises any of 10 exceptions at any item; 4 forms; every closed number in use again at once")(stage_errors)
scenario("C04", "stage_errors_deep", args=(3, 5), covers=["clean", "failed"], tier="thorough",
         bounds="3 items, a stage of 9 kinds raises any of 10 exceptions at any item; 4 forms; 5 free scheduling decisions")(stage_errors)
