"""C21  Every process in a process tree can be reached by name."""
from sx.api import *

ASSUMPTIONS = ["names consist of ASCII characters and contain no character entity (&...;); python-slugify is modelled",
               "a member's longest key is its own (for processes it is the process id)",
               "psutil answers as documented: a process is gone, hidden or has a program and arguments"]


class Member(object):
    """what a tree is made of"""

    def __init__(self, ident, keys):
        self.ident = ident
        self.keys = keys

    def _getkey(self, level):
        if level is None or level >= len(self.keys):
            return "id%s" % self.ident
        return self.keys[level]


def attribute(t, obj, name):
    return t.call(lambda: attr(obj, name), "looking up a name")


def letters(t, s):
    """the letters and digits of a string, lower case"""
    out = []
    for i in range(len(s)):
        c = code(s[i])
        if bool(or_(and_(c >= 48, c <= 57), and_(c >= 97, c <= 122))):
            out.append(c)
        elif bool(and_(c >= 65, c <= 90)):
            out.append(c + 32)
    return out


def identifier(t, name):
    t.prove(len(name) > 0, "a name in the tree is empty")
    for i in range(len(name)):
        c = code(name[i])
        ok = or_(eq(c, 95), and_(c >= 97, c <= 122), and_(c >= 65, c <= 90))
        if i:
            ok = or_(ok, and_(c >= 48, c <= 57))
        t.prove(ok, "a name in the tree is no identifier")


def names_it(t, name, key):
    """name is what key is called in the tree"""
    got, want = letters(t, name), letters(t, key)
    if want and bool(and_(want[0] >= 48, want[0] <= 57)):
        t.prove(len(got) and eq(got[0], ord("n")), "a member is reached by the name of another one")
        got = got[1:]
    t.prove(len(got) == len(want) and and_(*[eq(a, b) for a, b in zip(got, want)]), "a member is reached by the name of another one")


def called(t, name, key):
    if key is not None:
        names_it(t, name, key)


def walk(t, group, key, of, depth=0):
    """the members found in the tree: [(path of names, member)]"""
    t.prove(depth < 8, "the tree has no end")
    names = t.call(lambda: list(group.__dir__()), "listing the names")
    for i, a in enumerate(names):
        identifier(t, a)
        for b in names[:i]:
            t.prove(len(a) != len(b) or not_(eq(a, b)), "a name is listed twice")
    out = []
    for n in names:
        x = attribute(t, group, n)
        if isinstance(x, t.mod("tree").TreeGroup):
            found = walk(t, x, key, of, depth + 1)
            t.prove(len(found) > 1, "a single member has a group of its own")
            t.cover("clash")
            for path, m in found:
                called(t, n, key(m, depth))
            out.extend(([n] + path, m) for path, m in found)
        else:
            m = of(x)
            t.prove(m is not None, "a name in the tree leads to something else")
            called(t, n, key(m, depth))
            out.append(([n], m))
    return out


def complete(t, found, members):
    for i, (p, m) in enumerate(found):
        t.prove(any(m is x for x in members), "the tree has a member that it should not have")
        for q, x in found[:i]:
            t.prove(x is not m, "a member is reached in two ways")
    t.prove(len(found) >= len(members), "a member is lost")
    t.cover("found")


def no_others(t, group, name):
    """a name that is not listed does not exist"""
    names = t.call(lambda: list(group.__dir__()), "listing the names")
    if bool(or_(*[eq(name, n) for n in names if len(n) == len(name)])):
        t.prove(has_attr(group, name), "a listed name does not exist")
    else:
        t.prove(not has_attr(group, name), "a name that is not listed exists")
        t.cover("absent")


def key_string(t, name, length):
    return t.str(name, t.choose(name + ".len", length + 1), hi=127, exclude="&\0")


def groups(t, n, levels, length, extra=("children", "_children", "level")):
    """Any members with any keys."""
    t.boot(env=False)
    members = []
    for i in range(n):
        keys = []
        for l in range(levels):
            if l == 0 and i == 0 and extra:
                k = t.pick("special", [None] + list(extra))
                if k is not None:
                    keys.append(k)
                    continue
            keys.append(key_string(t, "key%d_%d" % (i, l), length if l == 0 else 1))
        members.append(Member(i, keys))
    tree = t.call(lambda: t.mod("tree").TreeGroup(list(members)), "building the tree")
    found = walk(t, tree, lambda m, d: m._getkey(d), lambda x: x if isinstance(x, Member) else None)
    complete(t, found, members)
    if extra:
        no_others(t, tree, t.pick("probe", ["children", "zz", "_", "", "n"]))


scenario("C21", "one", args=(1, 1, 3), covers=["found", "absent"], bounds="one member of any name of 0-3 characters")(groups)
scenario("C21", "two", args=(2, 2, 1), covers=["found", "clash", "absent"],
         bounds="two members with any keys of 0-1 characters in two levels")(groups)
scenario("C21", "three", args=(3, 1, 1, ()), covers=["found", "clash"], bounds="three members with any keys of 0-1 characters")(groups)
scenario("C21", "two_deep", args=(2, 3, 2, ()), covers=["found", "clash"], tier="thorough",
         bounds="two members with any keys of 0-2 characters and 0-1 in two more levels")(groups)
scenario("C21", "four_deep", args=(4, 1, 1, ()), covers=["found", "clash"], tier="thorough",
         bounds="four members with any keys of 0-1 characters")(groups)


# ---------------------------------------------------------------- processes of the system
class Psutil(object):
    """psutil for a given table of processes"""
    class Error(Exception):
        pass

    class NoSuchProcess(Error):
        pass

    class ZombieProcess(NoSuchProcess):
        pass

    class AccessDenied(Error):
        pass

    def __init__(self):
        self.table = {}
        self.logins = []
        outer = self

        class Process(object):
            def __init__(self, pid):
                if pid not in outer.table:
                    raise outer.NoSuchProcess(pid)
                self.pid = pid

            def get(self, what):
                x = outer.table[self.pid][what]
                if isinstance(x, Exception):
                    raise x
                return x

            def exe(self):
                return self.get("exe")

            def cmdline(self):
                return list(self.get("cmdline"))

            def children(self):
                return [Process(pid) for pid in sorted(outer.table) if outer.table[pid]["parent"] == self.pid]
        self.Process = Process

    def users(self):
        return list(self.logins)


class Login(object):
    def __init__(self, name, host, pid):
        self.name = name
        self.host = host
        self.pid = pid


def describe(t, ps, i, length, kinds):
    """one process"""
    kind = t.pick("kind%d" % i, kinds)
    args = [["a"], [], ["a", "-b"], ["b c"]]
    if kind == "gone":
        return kind, {"exe": ps.NoSuchProcess(), "cmdline": ps.NoSuchProcess()}
    if kind == "zombie":
        return kind, {"exe": ps.ZombieProcess(), "cmdline": ps.ZombieProcess()}
    if kind == "denied":
        return kind, {"exe": ps.AccessDenied(), "cmdline": ps.AccessDenied()}
    if kind == "hidden":
        return kind, {"exe": ps.AccessDenied(), "cmdline": t.pick("args%d" % i, args)}
    if kind == "kernel":
        return kind, {"exe": "", "cmdline": []}
    exe = "/" + t.str("exe%d" % i, t.choose("exe%d.len" % i, length + 1), hi=127, exclude="&\0")
    return kind, {"exe": exe, "cmdline": t.pick("args%d" % i, args)}


def processes(t, n, length, kinds):
    """Any processes."""
    t.boot(env=False)
    ps = Psutil()
    ps.table[1] = {"exe": "/init", "cmdline": ["init"], "parent": 0}
    t.mod("ps").psutil = ps
    shown = {}
    for i in range(n):
        shown[10 + i], ps.table[10 + i] = describe(t, ps, i, length, kinds)
        ps.table[10 + i]["parent"] = 1
    # the child of a child is not a child
    ps.table[20] = {"exe": "/a", "cmdline": ["a"], "parent": 10}
    top = t.call(lambda: t.mod("ps").PstreeProcess(1), "looking at a process")

    def key(pid, depth):
        p = ps.table[pid]
        if shown[pid] not in ("program", "kernel"):
            return None
        if depth == 0:
            exe = p["exe"]
            i = len(exe)
            while i > 0 and not bool(eq(exe[i - 1], "/")):
                i -= 1
            return exe[i:]
        return [None, p["exe"], " ".join(p["cmdline"]), "pid_%d" % pid][depth]
    found = walk(t, t.call(lambda: top._children, "listing the children"), key, lambda x: known(x, shown))
    complete(t, found, list(shown))
    for path, pid in found:
        x = top
        for name in path:
            x = attribute(t, x, name)
        t.prove(x.INFO.pid == pid, "a name leads to another process")
    names = t.call(lambda: list(top.__dir__()), "listing the names")
    t.prove(len(names) == len(set_of(path[0] for path, pid in found)), "the process lists other names than its children's")


def set_of(names):
    out = []
    for n in names:
        if not any(len(n) == len(m) and bool(eq(n, m)) for m in out):
            out.append(n)
    return out


def known(x, shown):
    pid = x.INFO.pid if hasattr(type(x), "PARENT") else None
    for p in shown:
        if p == pid:
            return p


KINDS = ["program", "gone", "zombie", "denied", "hidden", "kernel"]
scenario("C21", "process", args=(1, 3, KINDS), covers=["found"], bounds="a child of any of 6 kinds, its program any path of 0-3 characters")(processes)
scenario("C21", "processes", args=(2, 1, KINDS), covers=["found", "clash"],
         bounds="two children of any of 6 kinds, any path of 0-1 characters, 4 argument lists")(processes)
scenario("C21", "processes_deep", args=(3, 1, KINDS), covers=["found", "clash"], tier="thorough",
         bounds="three children of any of 6 kinds, any path of 0-1 characters, 4 argument lists")(processes)


def logins(t, n, length):
    """Any users that are logged in, each with a process of their own."""
    t.boot(env=False)
    ps = Psutil()
    t.mod("ps").psutil = ps
    pids = []
    for i in range(n):
        ps.table[10 + i] = {"exe": t.pick("exe%d" % i, ["/bin/sh", "/bin/zsh"]), "cmdline": [], "parent": 1}
        ps.logins.append(Login(key_string(t, "user%d" % i, length), key_string(t, "host%d" % i, 1), 10 + i))
        pids.append(10 + i)

    def key(pid, depth):
        login = ps.logins[pid - 10]
        exe = ps.table[pid]["exe"]
        return [login.name, login.host, exe.split("/")[-1], exe, "", "pid_%d" % pid][depth]
    users = t.mod("ps").USERS
    found = walk(t, t.call(lambda: users._children, "listing the users"), key,
                 lambda x: x.process.INFO.pid if type(x).__name__ == "PstreeLogin" else None)
    complete(t, found, pids)
    for path, pid in found:
        x = users
        for name in path:
            x = attribute(t, x, name)
        t.prove(x.process.INFO.pid == pid, "a name leads to another process")


scenario("C21", "logins", args=(2, 1), covers=["found", "clash"], bounds="two users of any names and hosts of 0-1 characters")(logins)


# ---------------------------------------------------------------- the stages of a pipeline
def stages(t, n, kinds):
    """The stages of a pipeline that has been started."""
    t.boot(exports={"PATH": "/bin"})
    t.prog("ls", exits(0))
    t.prog("cat", cat)
    e = t.env

    def upper(stdin):
        for x in stdin:
            yield x
    make = {"ls": lambda: e.ls, "ls -a": lambda: e.ls("-a"), "cat": lambda: e.cat, "slash": lambda: e._("/bin/cat"), "function": lambda: upper,
            "ls.a": lambda: e.ls.a, "number": lambda: e._("2to3")}
    picked = [t.pick("stage%d" % i, kinds if i else [k for k in kinds if k != "function"]) for i in range(n)]

    def build():
        pl = make[picked[0]]()
        for p in picked[1:]:
            pl = pl | make[p]()
        return pl
    pl = t.call(build, "building the pipeline")
    rp = t.call(lambda: pl.run(), "running the pipeline")
    procs = list(rp.processes)
    t.prove(len(procs) == n, "another number of stages is started")
    found = walk(t, t.call(lambda: rp._children, "listing the stages"), lambda m, d: None, lambda x: x if any(x is p for p in procs) else None)
    complete(t, found, procs)
    for path, p in found:
        x = rp
        for name in path:
            x = attribute(t, x, name)
        t.prove(x is p, "a name leads to another stage")
    names = dir(rp)
    for path, p in found:
        t.prove(path[0] in names, "the name of a stage is not listed")
    for i, p in enumerate(procs):
        first = {"ls": "ls", "ls -a": "ls", "cat": "cat", "ls.a": "ls", "function": "upper"}.get(picked[i])
        if first:
            mine = [path for path, x in found if x is p][0]
            t.prove(mine[0] == first, "a stage is not reached by the name of its program")


ALL = ["ls", "ls -a", "cat", "slash", "function", "ls.a", "number"]
scenario("C21", "stages", args=(3, ALL), covers=["found", "clash"], bounds="pipelines of three stages of 7 kinds")(stages)
scenario("C21", "stages_deep", args=(4, ALL), covers=["found", "clash"], tier="thorough", bounds="pipelines of four stages of 7 kinds")(stages)
