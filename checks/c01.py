"""C01  Redirections take effect simultaneously and exactly."""
import os
from sx.api import *


def open_ext(t, fds):
    """the descriptors the caller has: a different stream on each"""
    for fd in fds:
        o = t.k.new_ofd("ext", None)
        o.label = "caller%d" % fd
        e = t.k.rootp.fds.find(fd)
        if e is not None:
            t.k.rootp.fds.remove(e)
        t.k.rootp.fds.ent.append([fd, o, False])


def close_fds(t, fds):
    for fd in fds:
        t.k.rootp.fds.remove(t.k.rootp.fds.find(fd))


def snapshot(t):
    return [(e[0], e[1].id) for e in t.k.rootp.fds.ent]


def final(t, name="x"):
    p = t.one(name)
    return p


def stream_of(p, fd):
    """what descriptor fd of the program is connected to (None: nothing)"""
    r = None
    for f, o in p.exec_fds:
        if eq(f, fd) is True or (is_sym(eq(f, fd)) and bool(eq(f, fd))):
            r = o
    return r


def numbers(t, n, lo_t, hi_t, srcs, closed=(), extra=True):
    """n redirections of symbolic target numbers from symbolic descriptors of the caller"""
    t.boot()
    if closed:
        close_fds(t, closed)
    open_ext(t, [s for s in srcs])
    R = t.redir.Redirect
    before = snapshot(t)
    reds, want = [], []
    for i in range(n):
        target = t.int("target%d" % i, lo_t, hi_t)
        source = t.int("source%d" % i, min(srcs), max(srcs))
        for s in range(min(srcs), max(srcs)):
            if s not in srcs:
                t.assume(not_(eq(source, s)))
        reds.append(R(target, source, os.O_RDWR, borrowed=True))
        want.append((target, source))
    pl = t.redir.Redirects()
    for r in reds:
        pl.register(r)
    t.prog("x", exits(0))
    t.call(lambda: t.env.x.run(pl), "starting the program")
    p = t.children()[0]
    t.prove(p.execd, "the program was not started although every redirection is possible")
    # the last redirection of a number counts
    for i, (target, source) in enumerate(want):
        if any(bool(eq(target, t2)) for t2, s2 in want[i + 1:]):
            continue
        got = stream_of(p, target)
        if got is None:
            t.fail("a redirected descriptor is closed")
        exp = [o for f, o in before if bool(eq(f, source))][0]
        t.prove(got.id == exp, "a descriptor is connected to another stream than its redirection names")
    t.prove(snapshot(t)[:len(before)] == before, "the caller's descriptors changed")
    t.cover("started")
    t.note("fds", [[f, o.label] for f, o in p.exec_fds])


scenario("C01", "two_numbers", args=(2, 0, 6, [0, 1, 2, 4, 5, 6]), covers=["started"],
         bounds="2 redirections, targets 0-6, sources any of the caller's 0,1,2,4,5,6")(numbers)
scenario("C01", "three_numbers", args=(3, 0, 3, [0, 1, 2, 3]), covers=["started"],
         bounds="3 redirections, targets 0-3, sources 0-3 (all permutations, chains and sharings)")(numbers)
scenario("C01", "closed_std", args=(2, 0, 4, [2, 4, 5], (0, 1)), covers=["started"],
         bounds="2 redirections, stdin and stdout of the caller closed")(numbers)
scenario("C01", "closed_stderr", args=(2, 0, 4, [0, 1, 4], (2,)), covers=["started"],
         bounds="2 redirections, stderr of the caller closed")(numbers)
scenario("C01", "high_numbers", args=(2, 3, 12, [0, 1, 9, 12]), covers=["started"],
         bounds="2 redirections, targets 3-12, sources 0,1,9,12")(numbers)
scenario("C01", "three_numbers_wide", tier="thorough", args=(3, 0, 7, [0, 1, 2, 4, 5, 7]), covers=["started"],
         bounds="3 redirections, targets 0-7, sources 0,1,2,4,5,7")(numbers)
scenario("C01", "four_numbers", tier="thorough", args=(4, 0, 3, [0, 1, 2, 3]), covers=["started"], budget=2500,
         bounds="4 redirections, targets 0-3, sources 0-3")(numbers)

FLAGS = [None, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, os.O_WRONLY | os.O_APPEND | os.O_CREAT, os.O_RDWR,
         os.O_RDONLY, os.O_WRONLY | os.O_CREAT | os.O_EXCL]


def mixed(t, closed, nnum, flags):
    """Files and numbers mixed, standard descriptors open or closed; flags: every flag word, mode and spelling."""
    t.boot()
    if closed:
        close_fds(t, closed)
    nums = [n for n in (0, 1, 2, 4) if n not in closed]
    open_ext(t, nums)
    before = snapshot(t)
    R = t.redir.Redirect
    t.k.add_file("/w/in", b"content")
    t.k.add_file("/w/old", b"old")
    want = {}
    pl = t.redir.Redirects()
    # one file redirection on a standard descriptor, flags left to default or given
    ft = t.choose("file_target", 3)
    fl = t.pick("flags", FLAGS if flags else [os.O_RDWR])
    mode = t.int("mode", 0, 0o777)
    path = t.pick("path", ["/w/in", "/w/new"] if flags else ["/w/in"])
    creates = (fl if fl is not None else (0 if ft == 0 else os.O_CREAT)) & os.O_CREAT
    ok = (path == "/w/in" and not (fl or 0) & os.O_EXCL) or (path == "/w/new" and creates)
    name = t.redir.Redirect.names_to_fd[ft] if flags and t.flag("by_name") else ft
    order = t.choose("order", nnum + 1)
    items = []
    for i in range(nnum):
        items.append(("n", t.int("target%d" % i, 0, 4), t.pick("source%d" % i, nums)))
    items.insert(order, ("f", ft, None))
    exp = []
    for kind, target, source in items:
        if kind == "f":
            pl.register(R(name, path, fl, mode))
        else:
            pl.register(R(target, source, os.O_RDWR, borrowed=True))
        exp = [(k2, t2, s2) for k2, t2, s2 in exp if not bool(eq(t2, target))] + [(kind, target, source)]
    t.prog("x", exits(0))
    t.call(lambda: t.env.x.run(pl), "starting the program")
    p = t.children()[0]
    file_used = [e for e in exp if e[0] == "f"]
    if file_used and not ok:
        t.prove(not p.execd, "the program runs without its file")
        t.cover("refused")
        return
    t.prove(p.execd, "the program was not started although every redirection is possible")
    for kind, target, source in exp:
        got = stream_of(p, target)
        if got is None:
            t.fail("a redirected descriptor is closed")
        if kind == "n":
            want_o = [o for f, o in before if f == source][0]
            t.prove(got.id == want_o, "a descriptor is connected to another stream than its redirection names")
        else:
            t.prove(got.kind == "node" and got.path == path, "the file's descriptor is connected to something else")
            wf = fl if fl is not None else (os.O_RDONLY if ft == 0 else os.O_WRONLY | os.O_CREAT)
            t.prove(eq(got.flags & ~os.O_CLOEXEC, wf), "the file was opened with other flags than requested")
            if creates:
                t.prove(eq(got.mode, mode), "the file was created with another mode than requested")
    t.cover("started")
    t.note("fds", [[f, o.label] for f, o in p.exec_fds])


scenario("C01", "file_flags", args=((), 0, True), covers=["started", "refused"],
         bounds="a file on every standard descriptor: 6 flag words, every mode, existing or not, by name or number")(mixed)
for closed in ((), (0,), (1,), (0, 1), (0, 1, 2)):
    scenario("C01", "mixed_closed_%s" % "".join(map(str, closed)), args=(closed, 1, False), covers=["started"],
             bounds="a file on a standard descriptor and a number, every order; "
                    "%s closed in the caller" % (list(closed) or "nothing"))(mixed)
    scenario("C01", "mixed2_closed_%s" % "".join(map(str, closed)), args=(closed, 2, False), tier="thorough",
             covers=["started"], bounds="a file and two numbers; %s closed in the caller" % (list(closed) or "nothing"))(mixed)
    scenario("C01", "mixed_flags_closed_%s" % "".join(map(str, closed)), args=(closed, 1, True), tier="thorough",
             covers=["started", "refused"], bounds="a file with every flag word and mode, and a number; "
             "%s closed in the caller" % (list(closed) or "nothing"))(mixed)


def two_files(t):
    """Two or three files at once; the numbers the files get while being opened must not disturb each other."""
    t.boot()
    closed = t.pick("closed", [(), (0,), (0, 1), (0, 1, 2), (1,), (2,)])
    close_fds(t, closed)
    t.k.add_file("/w/in", b"content")
    R = t.redir.Redirect
    pl = t.redir.Redirects()
    items = [(0, "/w/in"), (1, "/w/out"), (2, "/w/err")]
    perm = t.pick("order", [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (1, 0), (0, 1), (2, 1),
                            (1, 2), (0,), (1,), (2,)])
    for i in perm:
        pl.register(R(*items[i]))
    t.prog("x", exits(0))
    t.call(lambda: t.env.x.run(pl), "starting the program")
    p = t.children()[0]
    t.prove(p.execd, "the program was not started although every redirection is possible")
    for i in perm:
        got = stream_of(p, i)
        t.prove(got is not None and got.path == items[i][1], "a file is not on its descriptor")
    t.cover("started")
    t.note("fds", [[f, o.label] for f, o in p.exec_fds])


scenario("C01", covers=["started"], bounds="1-3 files in every order, any standard descriptors closed")(two_files)


def operators(t):
    """Every way of writing one redirection with the operators."""
    t.boot()
    t.k.add_file("/w/f", b"data")
    open_ext(t, [4])
    R = t.redir.Redirect
    import pathlib
    t.prog("x", exits(0))
    e = t.env
    forms = [
        (lambda: e.x | "/w/f", 1, "/w/f"), (lambda: e.x > "/w/f", 1, "/w/f"), (lambda: "/w/f" | e.x, 0, "/w/f"),
        (lambda: e.x < "/w/f", 0, "/w/f"), (lambda: e.x | None, 1, "/dev/null"), (lambda: None | e.x, 0, "/dev/null"),
        (lambda: e.x > None, 1, "/dev/null"), (lambda: e.x < None, 0, "/dev/null"),
        (lambda: e.x | b"/w/f", 1, "/w/f"), (lambda: e.x | pathlib.PurePosixPath("/w/f"), 1, "/w/f"),
        (lambda: pathlib.PurePosixPath("/w/f") | e.x, 0, "/w/f"),
        (lambda: e.x | R("stderr", "/w/f"), 2, "/w/f"), (lambda: R("stdin", "/w/f") | e.x, 0, "/w/f"),
        (lambda: e.x | R("stdin", "/w/f"), 0, "/w/f"), (lambda: e.x | R("stdout", "/w/f"), 1, "/w/f"),
        (lambda: e.x | R(2, 4, borrowed=True), 2, 4), (lambda: e.x | R(7, "/w/f", os.O_RDWR), 7, "/w/f"),
        (lambda: e.x | R(7, 4, os.O_RDWR, borrowed=True), 7, 4),
        (lambda: e.x | t.redir.Redirects(R(1, "/w/f")), 1, "/w/f"),
        (lambda: (e.x | "/w/f") | R(2, "/w/g"), 1, "/w/f"), (lambda: (e.x | R(2, "/w/g")) | "/w/f", 1, "/w/f"),
        (lambda: ("/w/f" | e.x) | "/w/g", 0, "/w/f"), (lambda: "/w/f" | (e.x | "/w/g"), 0, "/w/f"),
    ]
    i = t.choose("form", len(forms))
    f, fd, what = forms[i]
    t.call(lambda: f().run(), "starting the program")
    p = t.children()[0]
    t.prove(p.execd, "the program was not started")
    o = stream_of(p, fd)
    ext4 = [x for n, x in snapshot(t) if n == 4][0]
    t.prove(o is not None and (o.path == what if isinstance(what, str) else o.id == ext4),
            "form %d does not redirect descriptor %d" % (i, fd))
    other = [x for x in (0, 1) if x != fd]
    if i not in (21, 22):
        for x in other:
            if i >= 19 and x == 1:
                continue
            t.prove(stream_of(p, x) is not None and stream_of(p, x).label == "ext%d" % x,
                    "form %d disturbs descriptor %d" % (i, x))
    if fd == 1 and isinstance(what, str) and what != "/dev/null":
        t.prove(o.flags & 3 == os.O_WRONLY, "stdout is not opened for writing")
        t.prove(eq(o.mode, 0o777), "another mode")
    if fd == 0 and isinstance(what, str):
        t.prove(o.flags & 3 == os.O_RDONLY, "stdin is not opened for reading")
    t.cover("started")
    t.note("fds", [[f, o.label] for f, o in p.exec_fds])


scenario("C01", covers=["started"], bounds="23 ways of writing a redirection")(operators)
