"""C06  Everything a Python stage yields is written, in order, exactly once."""
import errno as E
import os
from sx.api import *


class Thing(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


KINDS = ["text", "bytes", "none", "int", "thing", "empty", "list", "bytearray", "coroutine"]


def item(t, i, kinds):
    """an item and what has to be written for it (None: nothing)"""
    kind = t.pick("kind%d" % i, kinds)
    if kind == "text":
        s = t.str("s%d" % i, 2, lo=0)
        return s, s.encode("utf-8") + b"\n"
    if kind == "char":
        s = t.str("s%d" % i, 1, lo=0)
        return s, s.encode("utf-8") + b"\n"
    if kind == "bytes":
        b = t.bytes("b%d" % i, 2)
        return b, b + b"\n"
    if kind == "none":
        return None, b""
    if kind == "int":
        n = t.pick("n%d" % i, [0, -7, 123, True, False, 2.5, 0.0, ()])
        return n, str(n).encode() + b"\n"
    if kind == "thing":
        return Thing("täg%d" % i), ("täg%d" % i).encode() + b"\n"
    if kind == "empty":
        x = t.pick("e%d" % i, ["", b""])
        return x, b"\n"
    if kind == "list":
        return ["x", i], str(["x", i]).encode() + b"\n"
    if kind == "bytearray":
        x = t.pick("a%d" % i, [bytearray(b"\xe9x"), bytearray(), ["a\nb"], {}, Ellipsis])
        return x, str(x).encode() + b"\n"
    if kind == "coroutine":
        # stands for what it returns
        s = t.pick("c%d" % i, ["x\xe9", b"\xe9", None, 5])

        async def co():
            return s
        return co(), {"x\xe9": b"x\xc3\xa9\n", b"\xe9": b"\xe9\n", None: b"", 5: b"5\n"}[s]
    raise AssertionError(kind)


SOURCES = ["iter", "list", "generator", "asyncgen", "function", "asyncfunction", "coroutine", "listfunction", "method",
           "tuple", "map", "iterable", "restarting", "asynciterable", "asynciterablefunction"]


def late_future(t, box=[0]):
    import asyncio
    f = asyncio.get_event_loop().create_future()
    t.k.external = t.k.external + [lambda k: f.get_loop().call_soon(f.set_result, None)]
    return f


def source(t, kind, items, late=None):
    """a stage that yields the items; late: the index before which it has to wait for something"""
    def gen():
        for i in items:
            yield i

    async def agen():
        for i, x in enumerate(items):
            if late is not None and late == i:
                await late_future(t)
            yield x
    if kind == "iter":
        return iter(items)
    if kind == "list":
        return list(items)
    if kind == "tuple":
        return tuple(items)
    if kind == "map":
        return map(lambda x: x, items)
    if kind == "generator":
        return gen()
    if kind == "asyncgen":
        return t.mod("pipeline.function").Function(t.env, agen())
    if kind == "iterable":
        class Iterable(object):
            def __iter__(self):
                return gen()
        return Iterable()
    if kind == "restarting":
        # asking for an iterator begins anew
        class Restarting(object):
            def __iter__(self):
                self.rest = gen()
                return self

            def __next__(self):
                return next(self.rest)
        return Restarting()
    if kind.startswith("asynciterable"):
        class AsyncIterable(object):
            def __aiter__(self):
                return agen()
        if kind == "asynciterable":
            return t.mod("pipeline.function").Function(t.env, AsyncIterable())

        def f(stdin):
            return AsyncIterable()
        return f
    if kind == "coroutine":
        async def co():
            if late is not None:
                await late_future(t)
            return items[0]
        return t.mod("pipeline.function").Function(t.env, co())
    if kind == "function":
        def f(stdin):
            return gen()
        return f
    if kind == "asyncfunction":
        async def f(stdin):
            for i, x in enumerate(items):
                if late is not None and late == i:
                    await late_future(t)
                yield x
        return f
    if kind == "listfunction":
        def f(stdin):
            return list(items)
        return f
    if kind == "method":
        class Obj(object):
            def run(self, stdin):
                for i in items:
                    yield i
        return Obj().run
    raise AssertionError(kind)


def sinks(t, src, where):
    """the pipeline with that source, and a function that tells what has been written"""
    Pipeline = t.mod("pipeline.base").Pipeline
    e = t.env
    if where == "command":
        def c(k, p):
            while True:
                d = yield ("read", 0, 65536)
                if isinstance(d, OSError) or len(d) == 0:
                    return 0
        t.prog("c", c)
        return src | e.c, lambda: t.one("c").got.get(0, b"")
    full = src if isinstance(src, Pipeline) else t.mod("pipeline.function").Function(e, src)
    if where == "file":
        return full | "/w/out", lambda: t.k.lookup("/w/out").data
    if where == "append":
        t.k.add_file("/w/out", b"")
        return full | t.redir.Redirect(1, "/w/out", os.O_WRONLY | os.O_APPEND), lambda: t.k.lookup("/w/out").data
    if where == "stdout":
        o = t.k.rootp.fds.find(1)[1]
        return full, lambda: getattr(t.k.ofds[o.id], "out", b"")
    raise AssertionError(where)


def written(t, n, kinds, sources, wheres, short, sched=0):
    t.boot()
    k = t.k
    items, want = [], b""
    for i in range(n):
        x, w = item(t, i, kinds)
        items.append(x)
        want = want + w
    kind = t.pick("source", sources)
    where = t.pick("where", wheres)
    late = None
    if kind in ("asyncgen", "asyncfunction", "coroutine", "asynciterable", "asynciterablefunction"):
        late = t.choose("late", n + 1)
        late = None if late == n else late
    if kind == "coroutine" and n > 1:
        t.assume(False)
    if kind in ("asyncgen", "asyncfunction", "coroutine", "asynciterable", "asynciterablefunction") and any(hasattr(x, "cr_frame") for x in items):
        t.assume(False)         # only plain iterators hand out coroutines
    pl, out = sinks(t, source(t, kind, items, late), where)
    k.short_writes = short
    k.sched_budget = sched
    t.call(lambda: pl.run_interactive(), "running the pipeline")
    t.prove(eq(out(), want), "what the stage yielded is not what has been written")
    t.cover("written")
    t.note("out", out())


scenario("C06", "kinds", args=(1, KINDS, SOURCES, ["command"], 0), covers=["written"],
         bounds="1 item of 9 kinds (any 2 characters, any 2 bytes), 15 kinds of source")(written)
scenario("C06", "targets", args=(1, KINDS, ["generator", "asyncgen", "function"], ["file", "append", "stdout"], 0),
         covers=["written"], bounds="1 item of 9 kinds, 3 kinds of source, to files and the terminal")(written)
scenario("C06", "two_items", args=(2, ["bytes", "char", "none", "empty", "int"], ["iter", "asyncfunction"], ["command"], 0),
         covers=["written"], bounds="2 items of 5 kinds, 2 kinds of source, late at any item")(written)
scenario("C06", "three_items", args=(3, ["bytes", "none", "empty"], ["generator", "asyncgen"], ["command"], 0),
         covers=["written"], bounds="3 items of 3 kinds, 2 kinds of source, late at any item")(written)
scenario("C06", "short_writes", args=(2, ["bytes", "none", "empty"], ["iter", "asyncgen"], ["command"], 3), covers=["written"],
         bounds="2 items, the first 3 writes accept any part of what they are given")(written)
scenario("C06", "short_writes_file", args=(2, ["bytes"], ["iter", "function"], ["file", "append", "stdout"], 3), covers=["written"],
         bounds="2 items, the first 3 writes accept any part of what they are given, to files and the terminal")(written)
scenario("C06", "schedules", args=(2, ["bytes"], ["asyncgen", "function"], ["command"], 1, 5), covers=["written"],
         bounds="2 items, one short write, 5 free scheduling decisions")(written)
scenario("C06", "short_writes_deep", args=(3, ["bytes", "none", "empty", "char"], ["iter", "asyncgen"], ["command", "file"], 5),
         covers=["written"], tier="thorough", bounds="3 items, the first 5 writes accept any part")(written)
scenario("C06", "schedules_deep", args=(3, ["bytes", "none"], ["asyncgen", "function"], ["command"], 2, 8), covers=["written"],
         tier="thorough", bounds="3 items, two short writes, 8 free scheduling decisions")(written)
scenario("C06", "kinds_deep", args=(2, KINDS, SOURCES, ["command", "file", "append", "stdout"], 1), covers=["written"],
         tier="thorough", bounds="2 items of 9 kinds, 15 kinds of source, 4 targets, one short write")(written)


def big(t, sizes, short):
    """Items larger than what a pipe takes at once, and a reader that is slow, or another stage of this process."""
    t.boot()
    k = t.k
    size = t.pick("size", sizes)
    count = 1 + t.choose("more", 2)
    reader = t.pick("reader", ["slow", "function", "fast"])
    start = b"start%d" % size
    items = [start + b"x" * (size - len(start)), b"last"][:count]
    want = b"".join(x + b"\n" for x in items)
    k.short_writes = short
    got = []
    e = t.env
    src = iter(items)
    if reader == "function":
        async def f(stdin):
            async for line in stdin:
                got.append(line)
        pl = t.mod("pipeline.function").Function(e, src) | t.mod("pipeline.function").Function(e, f)
    else:
        def c(kern, p):
            if reader == "slow":
                for i in range(3):
                    yield ("yield",)
            while True:
                d = yield ("read", 0, 65536 if reader == "fast" else 40000)
                if isinstance(d, OSError) or len(d) == 0:
                    return 0
                if reader == "slow":
                    yield ("yield",)
        t.prog("c", c)
        pl = src | e.c
    t.call(lambda: pl.run_interactive(), "running the pipeline")
    out = b"".join(x.encode() + b"\n" for x in got) if reader == "function" else t.one("c").got.get(0, b"")
    t.prove(out == want, "a large item is not written completely")
    t.prove(not k.blocked_calls, "writing a large item blocks the calling program")
    t.cover("written")
    t.note("out", [size, len(out)])


scenario("C06", "big", args=([1023, 4095, 4096, 4097, 65535, 65536, 65537, 100000], 1), covers=["written"],
         bounds="8 sizes up to 100000 bytes, one short write, 3 kinds of reader")(big)
scenario("C06", "big_deep", args=([4096, 65536, 140000, 300000], 3), covers=["written"], tier="thorough",
         bounds="4 sizes up to 300000 bytes, 3 short writes, 3 kinds of reader")(big)


def errors(t, nitems):
    """A write fails, or the reader goes away: the stage is reported as failed with the error, or everything is there."""
    t.boot()
    k = t.k
    items = [b"item%d" % i for i in range(nitems)]
    want = b"".join(x + b"\n" for x in items)
    at = t.int("at", 0, 6)
    errno = t.pick("errno", [E.EPIPE, E.EIO, E.ENOSPC, E.EAGAIN, E.EBADF, E.EPERM, E.EFBIG])
    n = [0]
    failed = []

    def fault(k, call):
        if call == "write" and k.cur == k.root_pid:
            c = n[0]
            n[0] += 1
            if at == c:
                failed.append(errno)
                raise OSError(errno, "injected")
    k.faults = fault
    k.short_writes = 2
    where = t.pick("where", ["command", "file", "stdout"])
    kind = t.pick("source", ["iter", "asyncgen"])
    pl, out = sinks(t, source(t, kind, items), where)
    r = t.attempt(lambda: pl.run_interactive())
    if r.hung:
        t.fail("the pipeline never ends")
    if failed and errno != E.EAGAIN:
        t.prove(not r.ok, "an item is lost and the stage is not reported as failed")
        t.prove(isinstance(r.value, t.running.PipelineFailed), "another error is raised")
        fs = [f for f in r.value.pipeline.failed_processes]
        t.prove(len(fs) == 1 and isinstance(fs[0].iohandler.exception, OSError)
                and fs[0].iohandler.exception.errno == errno, "the stage does not report the error")
        t.prove(len(out()) <= len(want) and want[:len(out())] == out(), "something else has been written")
        t.cover("failed")
    else:
        t.prove(r.ok, "the stage is reported as failed")
        t.prove(eq(out(), want), "what the stage yielded is not what has been written")
        t.cover("written")
    t.note("r", [r.kind, out()])


scenario("C06", "errors", args=(2,), covers=["failed", "written"],
         bounds="2 items, any one of the first 7 writes fails (7 errors), 2 short writes, 3 targets")(errors)
scenario("C06", "errors_deep", args=(4,), covers=["failed", "written"], tier="thorough",
         bounds="4 items, any one of the first 7 writes fails (7 errors), 2 short writes, 3 targets")(errors)


def gone(t):
    """The reader goes away while items are left."""
    t.boot()
    k = t.k
    k.sched_budget = 4
    reads = t.choose("reads", 3)
    code = t.pick("code", [0, 1])

    def c(kern, p):
        for i in range(reads):
            yield ("read", 0, 3)
        return code
    t.prog("c", c)
    size = t.pick("size", [4, 3000, 70000])
    items = [bytes([65 + i]) * size for i in range(3)]
    r = t.attempt(lambda: (iter(items) | t.env.c).run_interactive())
    if r.hung:
        t.fail("the pipeline never ends")
    p = t.one("c")
    pipes = [x for x in k.pipes.values()]
    total = sum(len(x) + 1 for x in items)
    done = any(len(x.total) == total for x in pipes)
    if not done:
        t.prove(not r.ok, "items are lost and the stage is not reported as failed")
        fs = [f for f in r.value.pipeline.failed_processes if isinstance(f, t.running.RunningFunction)]
        t.prove(len(fs) == 1 and isinstance(fs[0].iohandler.exception, BrokenPipeError), "the stage does not report the error")
        t.cover("lost")
    elif code == 0:
        t.prove(r.ok, "the pipeline is reported as failed")
        t.cover("all")
    t.prove(not k.blocked_calls, "writing blocks the calling program")


scenario("C06", covers=["lost", "all"], bounds="3 items of 3 sizes, a reader that ends after 0-2 reads, 4 free scheduling "
         "decisions")(gone)


def no_text(t):
    """Text that is not representable in UTF-8 is an item that can not be written."""
    t.boot()
    bad = t.pick("bad", ["\udc80", "a\ud800b", "\udfff\n"])
    as_ = t.pick("as", ["text", "thing"])
    before = t.pick("before", [[], ["x"], [b"x", None]])
    kind = t.pick("source", ["list", "generator", "asyncgen", "function", "asyncfunction"])
    where = t.pick("where", ["command", "file"])
    items = before + [bad if as_ == "text" else Thing(bad), "later"]
    pl, out = sinks(t, source(t, kind, items), where)
    r = t.attempt(lambda: pl.run_interactive())
    if r.hung:
        t.fail("the pipeline never ends")
    t.prove(isinstance(r.value, t.running.PipelineFailed) and not r.ok, "an item is shortened or left out silently")
    fs = r.value.pipeline.failed_processes
    t.prove(len(fs) == 1 and isinstance(fs[0].iohandler.exception, UnicodeEncodeError), "the stage does not report the error")
    t.prove(eq(out(), b"x\n" if before else b""), "something else has been written")
    t.cover("failed")


scenario("C06", covers=["failed"], bounds="3 texts with lone surrogates, 5 kinds of source, 2 targets")(no_text)
