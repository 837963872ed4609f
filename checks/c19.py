"""C19  Captured output is exactly what was written."""
from sx.api import *

ASSUMPTIONS = ["bytes that are not valid UTF-8 appear as \\xNN (or as surrogate escapes)"]


def tmpfiles(t):
    return ["/tmp/" + n for n, x in t.k.lookup("/tmp").entries]


def sequence(data, i):
    """length of the valid UTF-8 sequence at i, and its code point; 0 if there is none"""
    b = data[i]
    if bool(b < 0x80):
        return 1, b
    for n, lo, hi, base in ((2, 0xC2, 0xDF, 0xC0), (3, 0xE0, 0xEF, 0xE0), (4, 0xF0, 0xF4, 0xF0)):
        if bool(and_(lo <= b, b <= hi)):
            if i + n > len(data):
                return 0, None
            cp = b - base
            for j in range(1, n):
                c = data[i + j]
                if not bool(and_(0x80 <= c, c <= 0xBF)):
                    return 0, None
                cp = cp * 64 + (c - 0x80)
            if n == 3 and bool(or_(cp < 0x800, and_(0xD800 <= cp, cp <= 0xDFFF))):
                return 0, None
            if n == 4 and bool(or_(cp < 0x10000, cp > 0x10FFFF)):
                return 0, None
            return n, cp
    return 0, None


def check_text(t, text, data, what):
    """text stands for data: characters as they are, other bytes escaped, nothing lost"""
    i = j = 0
    t.prove(isinstance(text, str) or getattr(type(text), "realtype", None) is str, "%s is not text" % what)
    while i < len(data):
        n, cp = sequence(data, i)
        t.prove(j < len(text), "%s is incomplete" % what)
        if n:
            t.prove(eq(code(text[j]), cp), "%s has another character" % what)
            i += n
            j += 1
        else:
            if bool(eq(text[j], "\\")):
                t.prove(len(text) >= j + 4 and eq(text[j + 1], "x"), "%s has lost a byte" % what)
                h = [code(text[j + 2]), code(text[j + 3])]
                v = 0
                for x in h:
                    d = ite(x >= 97, x - 87, ite(x >= 65, x - 55, x - 48))
                    v = v * 16 + d
                t.prove(eq(v, data[i]), "%s has another byte" % what)
                j += 4
            else:
                t.prove(eq(code(text[j]), 0xDC00 + data[i]), "%s has lost a byte" % what)
                j += 1
            i += 1
            t.cover("invalid")
    t.prove(j == len(text), "%s has more than was written" % what)


def item(t, rp, pid):
    xs = [p for p in rp.processes if getattr(p, "pid", None) == pid]
    t.prove(len(xs) == 1, "a process of the pipeline is not listed")
    return xs[0]


def everything(t):
    """all that happens, in any order"""
    t.settle()
    i = 0
    while t.k.external:
        t.k.fire(t.choose("event%d" % i, len(t.k.external)))
        i += 1
        t.settle()


def wait(t, rp, how, ok=True):
    if how == "wait":
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    elif how == "await":
        async def go():
            await rp
        r = t.attempt(lambda: t.loop.run_until_complete(go()))
    elif how == "late":
        everything(t)
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    elif how == "none":
        everything(t)
        return None
    t.prove(not r.hung, "the wait never ends")
    t.prove(r.ok == ok, "the wait ends otherwise than the processes")
    return r


def content(t, length, chunks, fds, hows):
    """What one command writes."""
    t.boot()
    data = t.bytes("data", t.choose("len", length + 1))
    cut = t.choose("cut", len(data) + 1) if chunks > 1 else len(data)
    fd, explicit = t.pick("fd", fds)
    status = t.pick("code", [0, 3])
    t.prog("x", emits([(fd, data[:cut]), (fd, data[cut:])] if chunks > 1 else [(fd, data)], status))
    cmd = t.env.x
    if explicit:
        cmd = cmd | t.redir.Redirect(fd, t.redir.STRING)
    rp = t.call(lambda: cmd.run(), "starting the program")
    p = t.one("x")
    r = wait(t, rp, t.pick("how", hows), status == 0)
    it = item(t, rp, p.pid)
    t.prove(fd in it.output_content, "nothing is captured")
    check_text(t, it.output_content[fd], data, "the captured output")
    t.prove(not tmpfiles(t), "a temporary file stays")
    t.prove(sorted(it.output_content) == sorted({2, fd}), "something else is captured")
    if fd == 1:
        t.prove(len(it.output_content[2]) == 0, "something else is captured")
    t.prove(not it.output_files, "a file that is gone is reported")
    t.note("text", it.output_content[fd])
    t.cover("captured")


scenario("C19", "content", args=(2, 1, [(2, False)], ["wait"]), covers=["captured", "invalid"],
         bounds="any 0-2 bytes written to the captured stderr")(content)
scenario("C19", "content_spellings", args=(1, 2, [(2, False), (2, True), (1, True)], ["wait", "await", "late", "none"]),
         covers=["captured", "invalid"], bounds="any 0-1 bytes in 2 writes, stdout or stderr, 4 ways of waiting")(content)
scenario("C19", "content_deep", args=(4, 1, [(2, False)], ["wait"]), covers=["captured", "invalid"], tier="thorough",
         bounds="any 0-4 bytes written to the captured stderr")(content)
scenario("C19", "content_cut_deep", args=(3, 2, [(2, False), (1, True)], ["wait", "late"]), covers=["captured", "invalid"], tier="thorough",
         bounds="any 0-3 bytes, cut anywhere, stdout or stderr")(content)


def big(t):
    """Much output."""
    t.boot()
    n = t.pick("size", [1, 4096, 65536, 65537, 200000])
    a = t.bytes("a", 1)
    b = t.bytes("b", 1)
    t.prog("x", emits([(2, a), (2, b"x" * n), (2, b)]))
    rp = t.call(lambda: t.env.x.run(), "starting the program")
    wait(t, rp, "wait")
    text = item(t, rp, t.one("x").pid).output_content[2]
    if bool(a[0] < 128) and bool(b[0] < 128):
        t.prove(len(text) == n + 2 and eq(code(text[0]), a[0]) and eq(code(text[n + 1]), b[0]), "the captured output is not complete")
        t.cover("captured")
    t.prove(not tmpfiles(t), "a temporary file stays")


scenario("C19", "big", covers=["captured"], bounds="5 sizes up to 200000 bytes, any first and last byte")(big)


def stages(t, forms, hows, faults, sched):
    """Several stages, ending in any order."""
    t.boot()
    k = t.k
    names = ["x", "y", "z"]
    form = t.pick("form", forms)
    n = 3 if form in ("three", "pipe_group") else 2
    ch = [t.bytes("c%d" % i, 1) for i in range(n)]
    for c in ch:
        t.assume(c[0] < 128)
    codes = [t.pick("code%d" % i, [0, 3]) if faults else 0 for i in range(n)]
    ends = {}

    def prog(i, name):
        def prog(k, p):
            yield ("write", 2, b"stage " + ch[i])
            pid = p.pid
            # goes on until something outside ends it

            def end(k):
                q = k.procs[pid]
                if q.state in ("run", "stop"):
                    k.finish(q, 256 * codes[i])
            yield ("call", lambda k, p: setattr(k, "external", k.external + [end]))
            yield ("never",)
        return prog
    for i in range(n):
        t.prog(names[i], prog(i, names[i]))
    e = t.env
    R, S = t.redir.Redirect, t.redir.STRING
    err = {2}
    outs = {i: {2} for i in range(n)}
    if form == "pipe":
        cmd = e.x | e.y
    elif form == "group":
        cmd = e.x + e.y
    elif form == "three":
        cmd = e.x | e.y | e.z
    elif form == "pipe_group":
        cmd = (e.x + e.y) | e.z
    elif form == "shared":
        cmd = (e.x + e.y) | R("stdout", S)
        outs = {0: {1, 2}, 1: {1, 2}}
    elif form == "argument":
        cmd = e.x(e.y)
    elif form == "twice":
        t.prog("y", prog(1, "y"))
        cmd = e.x | (e.y | R("stdout", S))
        outs = {0: {2}, 1: {1, 2}}
    rp = t.call(lambda: cmd.run(), "starting the pipeline")
    t.k.sched_budget = sched
    pids = [t.one(nm).pid for nm in names[:n]]
    how = t.pick("how", hows)
    wait(t, rp, how, not any(codes))
    for i in range(n):
        it = item(t, rp, pids[i])
        t.prove(set(it.output_content) == outs[i], "other streams of a stage are captured")
        check_text(t, it.output_content[2], b"stage " + ch[i], "the captured output of a stage")
        if 1 in outs[i]:
            t.prove(len(it.output_content[1]) == 0, "a stage gets the captured output of another")
    t.prove(not tmpfiles(t), "a temporary file stays")
    t.cover("captured")


scenario("C19", "stages", args=(["pipe", "group", "shared", "argument", "twice"], ["wait", "none"], True, 3), covers=["captured"],
         bounds="2 stages in 5 forms, ending in any order with either result")(stages)
scenario("C19", "stages_three", args=(["three", "pipe_group"], ["wait", "none"], False, 4), covers=["captured"],
         bounds="3 stages in 2 forms, ending in any order")(stages)
scenario("C19", "stages_deep", args=(["pipe", "group", "three", "pipe_group", "shared", "argument", "twice"],
         ["wait", "await", "late", "none"], True, 5), covers=["captured"], tier="thorough",
         bounds="2-3 stages in 7 forms, ending in any order with any result, 4 ways of waiting")(stages)


def late(t, hows, sched):
    """Something else writes to the captured stream of a stage that has ended, before the pipeline ends."""
    t.boot()
    k = t.k
    first, second = t.bytes("first", 1), t.bytes("second", 1)
    t.assume(first[0] < 128)
    t.assume(second[0] < 128)

    def x(k, p):
        pid = p.pid

        def end(k):
            # a descendant of x still had its stderr
            node = [o for f, o in k.procs[pid].exec_fds if f == 2][0].obj
            node.data = node.data + second
            k.finish([p for p in k.procs.values() if p.name == "y"][0], 0)
        yield ("write", 2, first)
        yield ("call", lambda k, p: setattr(k, "external", k.external + [end]))
        return 0
    t.prog("x", x)
    t.prog("y", forever)
    e = t.env
    cmd = e.x + e.y if t.flag("group") else e.x | e.y
    rp = t.call(lambda: cmd.run(), "starting the pipeline")
    k.sched_budget = sched
    px = t.one("x").pid
    wait(t, rp, t.pick("how", hows))
    check_text(t, item(t, rp, px).output_content[2], first + second, "the captured output")
    t.prove(not tmpfiles(t), "a temporary file stays")
    t.cover("captured")


scenario("C19", "late", args=(["wait", "await", "none"], 4), covers=["captured"],
         bounds="output of a descendant after the end of a stage, before the end of the pipeline; any order of events")(late)


def kept(t, length, forms):
    """TMP: the file holds the output and stays until it is removed."""
    t.boot()
    k = t.k
    data = t.bytes("data", t.choose("len", length + 1))
    data2 = t.bytes("data2", 1)
    t.prog("x", emits([(1, data), (2, b"err")], t.pick("code", [0, 3])))
    t.prog("y", emits([(1, data2), (2, b"err")]))
    e = t.env
    R, TMP = t.redir.Redirect, t.redir.TMP
    form = t.pick("form", forms)
    want = {}
    if form == "one":
        cmd = e.x | R("stdout", TMP)
        want = {("x", 1): data}
    elif form == "both":
        cmd = e.x | R("stdout", TMP) | R("stderr", TMP)
        want = {("x", 1): data, ("x", 2): b"err"}
    elif form == "group":
        cmd = (e.x + e.y) | R("stdout", TMP)
        want = {("x", 1): data, ("y", 1): data2}
    elif form == "pipe":
        cmd = (e.x | R("stderr", TMP)) | (e.y | R("stdout", TMP))
        want = {("x", 2): b"err", ("y", 1): data2}
    rp = t.call(lambda: cmd.run(), "starting the pipeline")
    rp2 = None
    if t.flag("again"):
        rp2 = t.call(lambda: cmd.run(), "starting the pipeline again")
    pids = {p.name: p.pid for p in t.started() if p.pid in [getattr(q, "pid", None) for q in rp.processes]}
    r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    t.prove(not r.hung, "the wait never ends")
    if rp2 is not None:
        r = t.attempt(lambda: t.loop.run_until_complete(rp2.wait()))
        t.prove(not r.hung, "the wait never ends")
    if t.flag("events"):
        t.settle(10)
    paths = []
    for (name, fd), d in want.items():
        it = item(t, rp, pids[name])
        t.prove(fd in it.output_files, "the path of a kept file is not reported")
        path = it.output_files[fd].path
        t.prove(path not in paths, "two streams are kept in one file")
        paths.append(path)
        t.prove(path in tmpfiles(t), "a kept file is gone")
        got = k.lookup(path).data
        t.prove(len(got) == len(d) and eq(got, d), "a kept file does not hold the output")
    for q in rp.processes:
        for fd in q.output_files:
            t.prove(any(q is item(t, rp, pids[n]) and f == fd for n, f in want), "another file is reported as kept")
    n = len(want) * (1 if rp2 is None else 2)
    t.prove(len(tmpfiles(t)) == n, "another temporary file stays")
    t.call(lambda: rp.remove_output_files(), "removing the kept files")
    t.prove(len(tmpfiles(t)) == n - len(want) and not [p for p in paths if p in tmpfiles(t)], "other files are removed")
    if rp2 is not None:
        t.call(lambda: rp2.remove_output_files(), "removing the kept files")
    t.prove(not tmpfiles(t), "a kept file cannot be removed")
    t.cover("kept")


scenario("C19", "kept", args=(1, ["one", "both", "group", "pipe"]), covers=["kept"],
         bounds="any 0-1 bytes, kept files in 4 forms, one run or two overlapping ones")(kept)
scenario("C19", "kept_deep", args=(3, ["one", "both", "group", "pipe"]), covers=["kept"], tier="thorough",
         bounds="any 0-3 bytes, kept files in 4 forms, one run or two overlapping ones")(kept)


def while_running(t):
    """Before the pipeline has finished nothing is reported as captured, and the file of a run is left alone."""
    t.boot()
    k = t.k
    ch = t.bytes("c", 1)
    t.assume(ch[0] < 128)

    def y(k, p):
        pid = p.pid
        yield ("call", lambda k, p: setattr(k, "external", k.external + [lambda k: k.finish(k.procs[pid], 0)]))
        yield ("never",)
    t.prog("x", emits([(2, ch)]))
    t.prog("y", y)
    e = t.env
    k.sched_budget = 4
    one = t.call(lambda: (e.x + e.y).run(), "starting the pipeline")
    two = t.call(lambda: e.x.run(), "starting the pipeline")
    xs = [p.pid for p in t.started("x")]
    wait(t, two, "wait")
    it = item(t, two, xs[1])
    check_text(t, it.output_content[2], ch, "the captured output")
    if one.is_running:
        t.prove(len(tmpfiles(t)) == 2, "a file of a pipeline that still runs is removed")
        t.cover("running")
    wait(t, one, "wait")
    check_text(t, item(t, one, xs[0]).output_content[2], ch, "the captured output")
    t.prove(not tmpfiles(t), "a temporary file stays")
    t.cover("captured")


scenario("C19", "while_running", covers=["captured", "running"], bounds="two pipelines, the first one still runs when the second ends")(while_running)


def one_file(t, n, shapes):
    """Stages that capture into one file: each of them has all of it, whichever ends first."""
    t.boot()
    k = t.k
    names = "abc"[:n]
    datas = [t.bytes("data" + x, 1, lo=1, hi=127) for x in names]
    for x, d in zip(names, datas):
        def prog(k, p, d=d):
            yield ("write", 2, d)
            pid = p.pid
            yield ("call", lambda k, p: setattr(k, "external", k.external + [lambda k: k.finish(k.procs[pid], 0)]))
            yield ("never",)
        t.prog(x, prog)
    shape = t.pick("shape", shapes)
    e = t.env
    pl = e._(names[0])
    for x in names[1:]:
        pl = pl | e._(x) if shape == "pipe" else pl + e._(x)
    capture = t.call(lambda: t.redir.Redirect(2, t.redir.STRING).make_pipe(), "making a temporary file")
    rp = t.call(lambda: pl.run([t.redir.Redirect(1, "/dev/null"), capture]), "starting")
    ends = t.choose("how", 2)
    wait(t, rp, ["wait", "late"][ends])
    pids = [t.one(x).pid for x in names]
    texts = [item(t, rp, pid).output_content for pid in pids]
    for text in texts:
        t.prove(2 in text, "nothing is captured")
        got = [text[2][i] for i in range(len(text[2]))]
        t.prove(len(got) == n, "the output of another stage is missing")
        for d in datas:
            t.prove(or_(*[eq(code(c), d[0]) for c in got]), "the output of another stage is missing")
    t.prove(not tmpfiles(t), "a temporary file stays")
    t.cover("captured")


scenario("C19", "one_file", args=(2, ["pipe", "group"]), covers=["captured"],
         bounds="two commands capturing any byte each into one file, ending in any order")(one_file)
scenario("C19", "one_file_deep", args=(3, ["pipe", "group"]), covers=["captured"], tier="thorough",
         bounds="three commands capturing any byte each into one file, ending in any order")(one_file)


def reported(t, n):
    """What a failing pipeline says: the captured output of the stages that failed, as a whole, and only theirs."""
    t.boot()
    e = t.env
    names = "abc"[:n]
    said, codes = {}, {}
    for x in names:
        said[x] = b"<" + x.encode() + b">" + t.pick("says" + x, [b"", b"one\ntwo", b"\xc3\xa4\n"])
        codes[x] = t.choose("code" + x, 2) * 3

        def prog(k, p, x=x):
            while True:
                d = yield ("read", 0, 65536)
                if isinstance(d, OSError) or len(d) == 0:
                    break
            yield ("write", 2, said[x])
            return codes[x]
        t.prog("prog" + x, prog)
    form = t.pick("form", ["pipe", "group"])
    pl = e._("prog" + names[0])
    for x in names[1:]:
        pl = (pl | e._("prog" + x)) if form == "pipe" else (pl + e._("prog" + x))
    how = t.pick("how", ["interactive", "wait"])
    if how == "interactive":
        r = t.attempt(lambda: pl.run_interactive())
    else:
        rp = t.call(lambda: pl.run(), "starting the pipeline")
        r = t.attempt(lambda: t.loop.run_until_complete(rp.wait()))
    if not any(codes.values()):
        t.prove(r.ok, "a pipeline fails although its stages do not")
        t.cover("fine")
        return
    t.prove(isinstance(r.value, t.running.PipelineFailed), "a failing pipeline is not reported as failed")
    text = t.call(lambda: str(r.value), "describing the failure")
    for x in names:
        i = text.find(said[x].decode())
        t.prove((i >= 0) == (codes[x] != 0) if said[x] else True, "the output of a stage is reported exactly if it did not fail")
        t.prove(text.find("<%s>" % x) < 0 if not codes[x] else text.count("<%s>" % x) == 1, "the output of a stage is not reported once exactly if it failed")
    t.cover("failed")


scenario("C19", "reported", args=(2,), covers=["failed", "fine"],
         bounds="two programs in a pipe or a group that say one of 3 things on stderr and fail or not")(reported)
