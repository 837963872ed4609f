"""C14  Changing directory is exact, all-or-nothing and local to the environment."""
import errno
from sx.api import *

ASSUMPTIONS = ["~ is the home directory of the calling process's user (HOME), ~name that of a user the system knows", "'..' is resolved by name, as shells do"]


def resolve(path, base, home):
    """the absolute, normalised path (a list of components)"""
    if len(path) and bool(eq(path[0], "~")) and (len(path) == 1 or bool(eq(path[1], "/"))):
        rest = path[1:]
        comps = [c for c in home.split("/") if c]
    elif len(path) > 1 and bool(eq(path[:2], "~b")) and (len(path) == 2 or bool(eq(path[2], "/"))):
        rest = path[2:]
        comps = ["a"]           # the home directory of another user
    else:
        rest = path
        comps = list(base)
        if len(path) and bool(eq(path[0], "/")):
            comps = []
    for c in rest.split("/"):
        if len(c) == 0 or bool(eq(c, ".")):
            continue
        if bool(eq(c, "..")):
            comps = comps[:-1]
        else:
            comps.append(c)
    return comps


def join(comps):
    r = "/"
    for i, c in enumerate(comps):
        r = r + ("/" if i else "") + c
    return r


def is_dir(t, comps):
    try:
        return t.k.lookup(join(comps)).kind == "dir"
    except OSError:
        return False


class World(object):
    """Environments and where each of them has to be."""

    def __init__(self, t, dirs, files=(), home="/h/b", procdir="/p/q", environ=None):
        t.boot(environ={"HOME": home, "PATH": "/bin"}, env=False)
        self.t = t
        self.k = t.k
        eng.w.data["users"] = {"b": "/a/"}
        self.home = home
        for d in dirs:
            t.k.mkdir_p(d)
        t.k.mkdir_p(procdir)
        t.k.mkdir_p(home)
        for f in files:
            t.k.add_file(f, b"")
        t.k.rootp.cwd = t.k.lookup(procdir)
        self.proc = [c for c in procdir.split("/") if c]
        self.envs = []
        self.default = [t.ps.env, self.where(t.ps.env)]

    def where(self, e):
        return [c for c in e._cwd.split("/") if c]

    def add(self, e, comps, interactive=False):
        self.envs.append([e, list(comps), interactive])
        return e

    def moved(self, e, comps):
        for x in self.envs:
            if x[0] is e:
                x[1] = list(comps)
                if x[2]:
                    self.proc = list(comps)

    def check(self, what):
        t = self.t
        for e, comps, inter in self.envs:
            got = e._cwd
            want = join(comps)
            ok = eq(got, want)
            if len(got) == len(want) + 1:
                ok = or_(ok, eq(got, "/" + want))       # exactly two slashes are kept, as POSIX allows
            t.prove(ok, "%s: an environment is not where it has to be" % what)
        t.prove(self.default[0]._cwd == join(self.default[1]), "%s: the default environment moves" % what)
        t.prove(self.k.cwd_node() is self.k.lookup(join(self.proc)),
                "%s: the calling process is not where it has to be" % what)

    def start(self, e):
        """a program is started there"""
        t = self.t
        comps = [x[1] for x in self.envs if x[0] is e][0]
        t.prog("x", exits(0))
        n = len(t.started("x"))
        t.call(lambda: e.x().run(), "starting a program")
        ps = t.started("x")
        t.prove(len(ps) == n + 1, "the program is not started")
        k = self.k
        t.prove(k.lookup(ps[-1].exec_cwd) is k.lookup(join(comps)), "a program is started in another directory")
        t.note("cwd", e._cwd)
        t.note("program cwd", ps[-1].exec_cwd)


def change(w, e, path, how):
    """tries to change to path; checks everything"""
    t = w.t
    entry = [x for x in w.envs if x[0] is e][0]
    want = resolve(path, entry[1], w.home)
    ok = is_dir(t, want)
    if how == "cd":
        r = t.attempt(lambda: e.cd(path).run())
    elif how == "cdrun":
        r = t.attempt(lambda: +e.cd(path))
    elif how == "call":
        r = t.attempt(lambda: e(path))
    elif how == "named":
        r = t.attempt(lambda: e(cwd=path))
    elif how == "item":
        r = t.attempt(lambda: e[path])
    elif how == "new":
        want = resolve(path, w.proc, w.home)
        ok = is_dir(t, want)
        r = t.attempt(lambda: t.environ.Environment(cwd=path, exports={"PATH": "/bin"}, interactive=entry[2]))
    t.prove(not r.hung, "changing the directory never ends")
    if not ok:
        t.prove(not r.ok, "changing to something that is not a directory is no error")
        t.prove(isinstance(r.value, Exception), "changing to something that is not a directory is no ordinary error")
        if how in ("call", "named", "item") and entry[2]:
            # the new environment was on its way
            w.proc = list(entry[1])
        w.check("after an error")
        t.cover("error")
        return e
    if not r.ok:
        t.note("error", repr(r.value))
    t.prove(r.ok, "changing to a directory is an error")
    if how in ("cd", "cdrun"):
        w.moved(e, want)
    else:
        e = w.add(r.value, want, entry[2])
        w.moved(e, want)
    w.check("after a change")
    t.cover("changed")
    return e


HOWS = ["cd", "call", "named", "item", "new"]


def anypath(t, n, alphabet, hows, starts, inter):
    """Any path."""
    w = World(t, ["/a/b/a", "/b/~", "/h/b/a", "/~a", "/a/~a", "/a/~/b", "/a/..a"], ["/a/a", "/b/b"])
    start = t.pick("start", starts)
    e = t.environ.Environment(cwd=start, exports={"PATH": "/bin"}, interactive=inter)
    w.add(e, [c for c in start.split("/") if c], inter)
    w.moved(e, w.envs[0][1])
    other = w.add(t.call(lambda: e(interactive=False), "copying"), w.envs[0][1])
    w.check("at first")
    how = t.pick("how", hows)
    path = t.str("path", t.choose("len", n + 1), among=alphabet)
    e2 = change(w, e, path, how)
    w.start(e2)
    if e2 is not e:
        w.start(e)
    w.start(other)
    w.check("after programs")


scenario("C14", "anypath", args=(3, "ab./~", HOWS, ["/a", "/"], False), covers=["changed", "error"],
         bounds="any path of 0-3 characters of 5, from 2 directories, in 5 ways")(anypath)
scenario("C14", "anypath_interactive", args=(3, "ab./~", ["cd", "call", "new"], ["/a"], True), covers=["changed", "error"],
         bounds="any path of 0-3 characters of 5, in an interactive environment, in 3 ways")(anypath)
scenario("C14", "anypath_deep", args=(5, "ab./~", HOWS, ["/a", "/"], False), covers=["changed", "error"], tier="thorough",
         bounds="any path of 0-5 characters of 5, from 2 directories, in 5 ways")(anypath)
scenario("C14", "anypath_interactive_deep", args=(4, "ab./~", HOWS, ["/a", "/b"], True), covers=["changed", "error"], tier="thorough",
         bounds="any path of 0-4 characters of 5, in an interactive environment, in 5 ways")(anypath)


def names(t, n):
    """Directories of any name."""
    w = World(t, ["/w"])
    k = t.k
    s = t.str("name", n, exclude="/\0", escapes=True)
    t.assume(not_(eq(s, ".")))
    t.assume(not_(eq(s, "..")))
    k.add_entry("/w", s, type(k.root)("dir" if t.flag("isdir") else "file"))
    inter = t.flag("interactive")
    e = w.add(t.environ.Environment(cwd="/w", exports={"PATH": "/bin"}, interactive=inter), ["w"], inter)
    w.moved(e, ["w"])
    how = t.pick("how", ["cd", "item", "absolute", "parent"])
    if how == "absolute":
        e = change(w, e, "/w/" + s, "cd")
    elif how == "parent":
        e = change(w, e, s + "/../" + s, "cd")
    else:
        if bool(eq(s, "~")):
            t.assume(False)
        e = change(w, e, s, how)
    w.start(e)
    if how == "cd":
        e = change(w, e, "..", "cd")


scenario("C14", "names", args=(2,), covers=["changed", "error"], bounds="any name of 2 characters, in 4 spellings")(names)
scenario("C14", "names_deep", args=(3,), covers=["changed", "error"], tier="thorough", bounds="any name of 3 characters, in 4 spellings")(names)


PATHS = ["b", "..", "/a/b", "~", "nothing", "/a/f", "~/a", "../..//./b", "/", "b/", ".", "../a/nothing/.."]


def sequence(t, n, paths, hows):
    """Changes of two environments in any order."""
    w = World(t, ["/a/b", "/b/b/b", "/h/b/a", "/h/a"], ["/a/f", "/f"])
    kinds = t.pick("interactive", [(False, False), (True, False), (True, True)][:2 if len(hows) > 1 else 3])
    for i in range(2):
        inter = kinds[i]
        start = ["/a", "/b/b"][i]
        e = w.add(t.call(lambda: t.environ.Environment(cwd=start, exports={"PATH": "/bin"}, interactive=inter)),
                  start[1:].split("/"), inter)
        w.moved(e, start[1:].split("/"))
    w.check("at first")
    for i in range(n):
        which = t.choose("which%d" % i, 2)
        e = w.envs[which][0]
        change(w, e, t.pick("path%d" % i, paths), t.pick("how%d" % i, hows))
    for e, _, _ in w.envs[-2:] if len(w.envs) > 2 or kinds == (True, True) else w.envs[which:which + 1]:
        w.start(e)
    w.check("at the end")


scenario("C14", "sequence", args=(2, PATHS, ["cd"]), covers=["changed", "error"],
         bounds="2 changes of 12 paths in 2 environments, each interactive or not")(sequence)
scenario("C14", "derived", args=(2, ["b", "..", "nothing"], ["cd", "call", "cdrun"]), covers=["changed", "error"],
         bounds="2 changes of 3 paths in 2 environments, some in derived environments")(sequence)
scenario("C14", "sequence_deep", args=(3, PATHS, ["cd", "call"]), covers=["changed", "error"], tier="thorough",
         bounds="3 changes of 12 paths in 2 environments, each interactive or not")(sequence)


def links(t, n, paths, hows):
    """Through symbolic links: the names that were given stay, .. leads back."""
    w = World(t, ["/w/real/sub/in", "/w/real/x", "/w/x", "/x"], ["/w/real/file"])
    k = t.k
    Node = type(k.root)
    for where, name, target in (("/w", "l", "real/sub"), ("/w", "m", "/w/real"), ("/w/real/sub", "up", ".."),
                                ("/w", "gone", "nothing"), ("/w", "f", "real/file")):
        node = k.add_entry(where, name, Node("link"))
        node.target = target
    inter = t.flag("interactive")
    e = w.add(t.environ.Environment(cwd="/w", exports={"PATH": "/bin"}, interactive=inter), ["w"], inter)
    w.moved(e, ["w"])
    for i in range(n):
        e = change(w, e, t.pick("path%d" % i, paths), t.pick("how%d" % i, hows))
    w.start(e)


scenario("C14", "links", args=(2, ["l", "m/sub", "..", "l/..", "gone", "f", "x", "l/up", "up"], ["cd", "call"]), covers=["changed", "error"],
         bounds="2 changes of 9 paths through symbolic links")(links)
scenario("C14", "links_deep", args=(3, ["l", "m/sub", "..", "l/..", "gone", "f", "x", "l/up", "up/sub/in", "in"], ["cd", "item"]),
         covers=["changed", "error"], tier="thorough", bounds="3 changes of 10 paths through symbolic links")(links)


WORDS = ["a", "b", "PARENT", "ROOT", "..", "/b", "a/b", "~", ".", "parent", "Root"]


def words(t, n):
    """cd.a.b and cd('a', 'b'), with PARENT and ROOT."""
    w = World(t, ["/a/b/a", "/b/b/b", "/h/b/a", "/w/a/b/a", "/w/b/a/b", "/w/parent/a", "/w/a/parent", "/w/Root/b",
                  "/w/a/Root"])
    inter = t.flag("interactive")
    e = w.add(t.environ.Environment(cwd="/w", exports={"PATH": "/bin", "HOME": "/w/b"}, interactive=inter), ["w"], inter)
    w.moved(e, ["w"])
    ws = [t.pick("word%d" % i, WORDS) for i in range(t.choose("n", n + 1))]
    comps = ["w"]
    if not ws:
        comps = ["h", "b"]
    for i, x in enumerate(ws):
        x = {"PARENT": "..", "ROOT": "/"}.get(x, x)
        if x.startswith("~") and i > 0:
            x = "./" + x
        comps = resolve(x, comps, w.home)
    form = t.pick("form", ["call", "attributes"])

    def go():
        c = e.cd
        if form == "call":
            c = c(*ws)
        else:
            for x in ws:
                c = getattr(c, x)
        return c.run()
    # the words make one path, which is resolved at once
    ok = is_dir(t, comps)
    r = t.attempt(go)
    if not ok:
        t.prove(not r.ok and not r.hung, "changing to something that is not a directory is no error")
        t.cover("error")
    else:
        t.prove(r.ok, "changing to a directory is an error")
        w.moved(e, comps)
        t.cover("changed")
    w.check("after words")
    w.start(e)


scenario("C14", "words", args=(2,), covers=["changed", "error"], bounds="cd with 0-2 words of 11")(words)
scenario("C14", "words_deep", args=(3,), covers=["changed", "error"], tier="thorough", bounds="cd with 0-3 words of 11")(words)


def fault(t):
    """The system refuses to move an interactive session."""
    w = World(t, ["/a/b", "/b"])
    inter = t.flag("interactive")
    e = w.add(t.environ.Environment(cwd="/a", exports={"PATH": "/bin"}, interactive=inter), ["a"], inter)
    w.moved(e, ["a"])
    n = [0]

    def refuse(k, call):
        if call == "chdir":
            n[0] += 1
            if t.flag("fails"):
                raise OSError(t.pick("errno", [errno.EACCES, errno.ENOENT, errno.EIO]), "injected")
    t.k.faults = refuse
    path = t.pick("path", ["b", "/b", ".."])
    how = t.pick("how", ["cd", "call"])
    if how == "cd":
        r = t.attempt(lambda: e.cd(path).run())
    else:
        r = t.attempt(lambda: e(path))
    t.k.faults = None
    want = resolve(path, ["a"], w.home)
    if r.ok:
        t.cover("changed")
        if how == "cd":
            w.moved(e, want)
        else:
            w.moved(w.add(r.value, want, inter), want)
    else:
        t.prove(isinstance(r.value, OSError), "a directory that cannot be entered raises something else")
        t.cover("refused")
        if how == "call":
            # the copy enters the directory of the original first
            w.proc = list(w.proc)
    w.check("after a refusal")


scenario("C14", "refused", covers=["changed", "refused"], bounds="any chdir of the process failing, 3 paths, 2 ways")(fault)
