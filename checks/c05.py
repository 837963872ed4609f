"""C05  Reading a pipeline yields exactly its lines, bytes or text."""
import os
from sx.api import *

ASSUMPTIONS = ["streams that are read as lines or text are valid UTF-8 as a whole"]
# everything str.splitlines or bytes.splitlines would split at, and multi-byte characters
CHARS = "\na\r\x0b\x0c\x1c\x85\u2028é\U0001d11e\0 \ufeff"
FEW = "\na\ré"


def split(t, text):
    """the lines of a text (reference)"""
    lines, cur = [], []
    for i in range(len(text)):
        c = text[i:i + 1]
        if bool(eq(c, "\n")):
            lines.append(cur)
            cur = []
        else:
            cur.append(c)
    if cur:
        lines.append(cur)
    return [join(l) for l in lines]


def join(parts):
    r = ""
    for p in parts:
        r = r + p
    return r


def same_lines(t, got, want):
    t.prove(len(got) == len(want), "the number of lines is wrong")
    for g, w in zip(got, want):
        t.prove(eq(g, w), "a line is not what was written")


def writer(t, data, pieces):
    """a program that writes the data in up to that many pieces, cut anywhere"""
    cuts = []
    last = 0
    for i in range(pieces - 1):
        last = last + t.choose("cut%d" % i, len(data) - last + 1)
        cuts.append(last)
    bounds = [0] + cuts + [len(data)]
    return emits([data[a:b] for a, b in zip(bounds, bounds[1:]) if b > a])


def asynciter(t, it):
    return t.mod("utils.asyncutils").asyncitertoiter(it)


def lines(t, n, chars, reads, pieces, how):
    t.boot()
    k = t.k
    k.chunk_budget = reads
    text = t.str("text", n, among=chars, lo=0)
    data = text.encode("utf-8")
    want = split(t, text)
    e = t.env
    t.prog("w", writer(t, data, pieces))
    t.prog("c", cat)
    got = []
    if how == "for":
        got = t.call(lambda: list(e.w), "iterating")
    elif how == "async":
        async def go():
            async for line in e.w:
                got.append(line)
        t.run(go(), "iterating")
    elif how == "stdin":
        async def fn(stdin):
            async for line in stdin:
                got.append(line)
        t.call(lambda: (e.w | fn).run_interactive(), "running the pipeline")
    elif how == "both":
        async def fn(stdin):
            async for line in stdin:
                got.append(line)
                yield line
        out = t.call(lambda: list(e.w | fn), "iterating")
        same_lines(t, out, want)
    elif how == "file":
        async def fn(stdin):
            async for line in stdin:
                got.append(line)
        k.add_file("/w/in", data)
        t.call(lambda: ("/w/in" | t.mod("pipeline.function").Function(e, fn)).run_interactive(), "running the pipeline")
    same_lines(t, got, want)
    t.cover("read")
    if len(want) > 1:
        t.cover("several")
    t.note("lines", want)


for how in ("for", "async", "stdin", "both", "file"):
    scenario("C05", "chunks_" + how, args=(4, FEW, 3, 1, how), covers=["read", "several"],
             bounds="4 characters of newline, a, CR, é; the system hands out any prefix at the first 3 reads")(lines)
    scenario("C05", "chunks_%s_deep" % how, args=(6, FEW, 5, 1, how), covers=["read", "several"], tier="thorough",
             bounds="6 characters of newline, a, CR, é; the system hands out any prefix at the first 5 reads")(lines)
scenario("C05", "separators", args=(3, CHARS, 0, 1, "for"), covers=["read", "several"],
         bounds="3 characters out of everything Unicode or bytes.splitlines would split at")(lines)
scenario("C05", "separators_stdin", args=(3, CHARS, 0, 1, "stdin"), covers=["read", "several"],
         bounds="the same on the input of a function stage")(lines)
scenario("C05", "any_character", args=(2, None, 1, 1, "for"), covers=["read", "several"],
         bounds="any 2 characters of Unicode, any prefix at the first read")(lines)
scenario("C05", "any_character_stdin", args=(2, None, 1, 1, "stdin"), covers=["read", "several"],
         bounds="the same on the input of a function stage")(lines)
scenario("C05", "pieces", args=(4, "\na", 1, 3, "for"), covers=["read", "several"],
         bounds="4 characters, written in up to 3 pieces cut anywhere, any prefix at the first read")(lines)
scenario("C05", "pieces_stdin", args=(4, "\na", 1, 3, "stdin"), covers=["read", "several"],
         bounds="the same on the input of a function stage")(lines)
scenario("C05", "separators_chunked", args=(4, CHARS, 2, 2, "both"), covers=["read", "several"], tier="thorough",
         bounds="4 characters of any separator, written in 2 pieces, any prefix at the first 2 reads")(lines)


def raw(t, n, reads, how):
    """Any bytes at all."""
    t.boot()
    t.k.chunk_budget = reads
    data = t.bytes("data", n)
    e = t.env
    t.prog("w", emit(data))
    if how == "bytes":
        got = t.call(lambda: t.mod("pipeline.base").Pipeline.__bytes__(e.w), "bytes()")
    else:
        chunks = t.call(lambda: list(asynciter(t, e.w.run([t.redir.Redirect("stdout", t.redir.PIPE)]).iterbytes())), "reading")
        got = b""
        for c in chunks:
            got = got + c
    t.prove(eq(got, data), "the bytes read are not the bytes written")
    t.cover("read")
    t.note("data", data)


scenario("C05", "bytes", args=(4, 3, "bytes"), covers=["read"], bounds="any 4 bytes, any prefix at the first 3 reads")(raw)
scenario("C05", "iterbytes", args=(4, 3, "iter"), covers=["read"], bounds="any 4 bytes, any prefix at the first 3 reads")(raw)
scenario("C05", "bytes_deep", args=(8, 8, "bytes"), covers=["read"], tier="thorough",
         bounds="any 8 bytes, any prefix at every read")(raw)


def text(t, n, reads):
    """str() of a pipeline."""
    t.boot()
    t.k.chunk_budget = reads
    txt = t.str("text", n, among=CHARS)
    data = txt.encode("utf-8")
    t.prog("w", emit(data))
    got = t.call(lambda: t.mod("pipeline.base").Pipeline.__str__(t.env.w), "str()")
    t.prove(eq(got, txt), "the text read is not the text written")
    t.cover("read")
    t.note("text", txt)


scenario("C05", "text", args=(3, 2), covers=["read"], bounds="3 characters of 13, any prefix at the first 2 reads")(text)
scenario("C05", "text_any", args=(5, 6), covers=["read"], tier="thorough", bounds="5 characters of 13, any prefix at the first 6 reads")(text)


def long_lines(t, how):
    """Lines around the sizes in which the stream is read and buffered."""
    t.boot()
    size = t.pick("size", [1021, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 65535, 65536, 70000])
    tail = t.pick("tail", ["", "\n", "é\n", "\n\n", "é", "\nx", "\n\U0001d11e\nend", "\r\n"])
    txt = "a" * size + tail
    data = txt.encode()
    e = t.env
    t.prog("w", emit(data))
    want = txt.split("\n")
    if want and want[-1] == "":
        want.pop()
    if how == "for":
        got = t.call(lambda: list(e.w), "iterating")
        t.prove(got == want, "the lines read are not the lines written")
    elif how == "stdin":
        got = []

        async def fn(stdin):
            async for line in stdin:
                got.append(line)
        t.call(lambda: (e.w | fn).run_interactive(), "running the pipeline")
        t.prove(got == want, "the lines read are not the lines written")
    elif how == "str":
        got = t.call(lambda: t.mod("pipeline.base").Pipeline.__str__(e.w), "str()")
        t.prove(got == txt, "the text read is not the text written")
    t.cover("read")
    t.note("lines", [size, tail, len(got)])


for how in ("for", "stdin", "str"):
    scenario("C05", "long_" + how, args=(how,), covers=["read"],
             bounds="12 line lengths around 1024, 2048, 4096 and 65536 bytes, 8 line endings")(long_lines)


def end(t, how):
    """The end comes after all data and after the pipeline has finished, also when stdout is closed early."""
    t.boot()
    k = t.k
    k.sched_budget = 3
    code = t.int("code", 0, 255)
    before_close = t.pick("data", [b"", b"x\n", b"x\ny"])
    seen = []

    def w(kern, p):
        if before_close:
            yield ("write", 1, before_close)
        if t.flag("closes"):
            yield ("close", 1)
        yield ("call", lambda k, p: p.user.__setitem__("done", True))
        yield ("yield",)
        return code
    t.prog("w", w)
    e = t.env
    got = []

    async def go():
        rp = e.w.run([t.redir.Redirect("stdout", t.redir.PIPE)])
        if how == "lines":
            async for x in rp:
                got.append(x)
        else:
            async for x in rp.iterbytes():
                got.append(x)
    r = t.attempt(lambda: t.loop.run_until_complete(go()))
    if r.hung:
        t.fail("the end of the stream is never reported")
    p = t.one("w")
    t.prove(p.state == "reaped", "the end of the stream is reported before the pipeline has finished")
    t.prove(eq(r.ok, eq(code, 0)) if not is_sym(eq(code, 0)) else r.ok == bool(eq(code, 0)),
            "the end of the stream does not tell how the pipeline ended")
    if how == "lines":
        t.prove(got == before_close.decode().split("\n")[:len(got)] and len(got) == before_close.count(b"\n") + (
            before_close[-1:] == b"y"), "the data is not complete at the end of the stream")
    else:
        t.prove(b"".join(got) == before_close, "the data is not complete at the end of the stream")
    t.cover("ended" if r.ok else "failed")


scenario("C05", "end_lines", args=("lines",), covers=["ended", "failed"], bounds="3 streams, stdout closed early or not, "
         "every exit code, 3 free scheduling decisions")(end)
scenario("C05", "end_bytes", args=("bytes",), covers=["ended", "failed"], bounds="3 streams, stdout closed early or not, "
         "every exit code, 3 free scheduling decisions")(end)


def resumed(t, n, rounds, reads):
    """An iteration can stop anywhere, and the next one carries on there."""
    t.boot(maxfd=40)
    k = t.k
    k.chunk_budget = reads
    txt = t.str("text", n, among="\na")
    want = split(t, txt)
    code = t.pick("code", [0, 1])
    t.prog("w", emit(txt.encode("utf-8"), code))
    base = sorted((int(f), o.id) for f, o, c in k.rootp.fds.ent)
    got = []
    stops = [t.choose("stop%d" % i, n + 1) for i in range(rounds)]

    async def go():
        rp = t.env.w.run([t.redir.Redirect("stdout", t.redir.PIPE)])
        for stop in stops:
            if stop:
                i = 0
                async for line in rp:
                    got.append(line)
                    i += 1
                    if i == stop:
                        break
        async for line in rp:
            got.append(line)
    # the numbers of everything closed are in use again
    k.poison = True
    r = t.attempt(lambda: t.loop.run_until_complete(go()))
    if r.hung:
        t.fail("the end of the stream is never reported")
    t.prove(r.ok == (code == 0), "the end of the stream does not tell how the pipeline ended: %s" % (r.value,))
    if r.ok:
        t.cover("read")
        same_lines(t, got, want)
    t.prove([x for x in k.close_log if x[0] == k.root_pid and x[2] is None] == [], "a descriptor is closed twice")
    t.prove([x for x in k.closed_uses if x[0] == k.root_pid] == [], "a closed descriptor is used")
    t.prove(sorted((int(f), o.id) for f, o, c in k.rootp.fds.ent if o.kind != "poison") == base,
            "the calling process's descriptors are not the same")
    t.note("lines", [want, r.kind])


scenario("C05", "resumed", args=(3, 2, 1), covers=["read"],
         bounds="3 characters, 3 iterations of one run that stop after any number of lines, any prefix at the first read")(resumed)
scenario("C05", "resumed_deep", args=(5, 3, 3), covers=["read"], tier="thorough",
         bounds="5 characters, 4 iterations of one run that stop after any number of lines, any prefix at the first 3 reads")(resumed)
