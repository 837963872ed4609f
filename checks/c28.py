"""C28  A .pysh file is a module of its own."""
import types

from sx.api import *
from sx.engine import eng

ASSUMPTIONS = ["the import system asks the finders on sys.meta_path as in Python 3.9 (find_module/load_module or find_spec)",
               "module files are executed by the interpreter (not symbolically); what they do to pieshell is"]


def find(t, name, path=None):
    """what the import system does: a function that loads the module, or None"""
    sys = t.loader.modules["sys"]
    for f in sys.meta_path:
        if hasattr(f, "find_spec"):
            spec = t.call(lambda: f.find_spec(name, path), "finding a module")
            if spec is not None:
                return spec.loader, spec
        else:
            loader = t.call(lambda: f.find_module(name, path), "finding a module")
            if loader is not None:
                return loader, None
    return None


def load(t, name, path=None, again=False, may_fail=False):
    """import name"""
    sys = t.loader.modules["sys"]
    if name in sys.modules and not again:
        return sys.modules[name]
    found = find(t, name, path)
    t.prove(found is not None, "a module is not found")
    loader, spec = found

    def go():
        if hasattr(loader, "exec_module"):
            m = sys.modules[name] if again else loader.create_module(spec)
            if m is None:
                m = types.ModuleType(name)
            m.__loader__, m.__spec__ = loader, spec
            sys.modules[name] = m
            loader.exec_module(m)
            return sys.modules[name]
        loader.load_module(name)
        m = sys.modules.pop(name)
        sys.modules[name] = m
        for a, v in (("__loader__", loader), ("__package__", name.rpartition(".")[0]), ("__spec__", object())):
            if getattr(m, a, None) is None:
                try:
                    setattr(m, a, v)
                except AttributeError:
                    pass
        return m
    return t.attempt(go) if may_fail else t.call(go, "importing a module")


def world(t, files, **kw):
    k = t.kernel()
    for d in ("/w", "/a", "/b", "/other", "/home/u"):
        k.mkdir_p(d)
    for name, data in files:
        k.add_file(name, data)
    k.rootp.cwd = k.lookup("/w")
    t.boot(environ={"HOME": "/home/u", "PATH": "/bin", "V": "outer"}, env=False)
    t.out = []
    t.environ.envScope["note"] = t.out.append
    t.mod("module")


ELEMENTS = ["/a", "/b", "", "/none", "/w/file", "."]


def paths(t, n):
    """The first .pysh file along the path is the module, whatever is on the path."""
    dirs = {"/a": t.flag("in_a"), "/b": t.flag("in_b"), "/w": t.flag("in_w")}
    name = t.pick("name", ["m", "p.m", "p.q.m", "other"])
    world(t, [(d + "/m.pysh", b"where = '%s'\n" % d.encode()) for d in dirs if dirs[d]] + [("/w/file", b"")])
    els = [t.pick("e%d" % i, ELEMENTS) for i in range(n)]
    how = t.pick("how", ["sys.path", "list", "tuple", "iterable"] + (["string"] if n == 1 else []))
    sys = t.loader.modules["sys"]
    path = None
    if how == "sys.path":
        sys.path[:] = els
    elif how == "list":
        path = list(els)
    elif how == "tuple":
        path = tuple(els)
    elif how == "string":
        path = els[0]
    else:
        class Iterable(object):
            def __init__(self, items):
                self.items = items

            def __iter__(self):
                return iter(self.items)

            def __len__(self):
                return len(self.items)

            def __getitem__(self, i):
                return self.items[i]
        path = Iterable(els)
    if how != "sys.path":
        sys.path[:] = ["/other"]
    full = [{"": "/w", ".": "/w"}.get(e, e) for e in els]
    want = [d for d in full if dirs.get(d)] if name.endswith("m") else []
    if not want:
        t.prove(find(t, name, path) is None, "a module is found that is not there")
        t.cover("absent")
        return
    m = load(t, name, path)
    t.prove(m.where == want[0], "another module is imported: the one in %s instead of %s" % (m.where, want[0]))
    t.prove(load(t, name, path) is m, "importing again makes another module")
    t.cover("found")


scenario("C28", "paths", args=(2,), covers=["found", "absent"],
         bounds="a path of two elements of 6 kinds given in 4 ways, the module in any of 3 directories, 4 names")(paths)
scenario("C28", "paths_one", args=(1,), covers=["found", "absent"],
         bounds="a path of one element of 6 kinds given in 5 ways, the module in any of 3 directories, 4 names")(paths)
scenario("C28", "paths_deep", args=(3,), covers=["found", "absent"], tier="thorough",
         bounds="a path of three elements of 6 kinds given in 4 ways")(paths)

TEXT = b"""
runs = []
runs.append(1)
x = 'first'
__secret__ = 'dunder'
_private = 1
def get():
    return x
def set(value):
    global x
    x = value
def enter(d):
    cd(d).run_interactive()
def directory():
    return env._cwd
def export(value):
    exports['V'] = value
def exported():
    return V
def run(*a):
    +prog(*a)
def outside():
    return zz
"""


def attributes(t, length):
    """Attributes of the module are the names of its scope, read and written."""
    world(t, [("/a/m.pysh", TEXT)])
    t.loader.modules["sys"].path[:] = ["/a"]
    m = load(t, "m")
    t.prove(isinstance(m, types.ModuleType), "an imported file is no module")
    t.prove(m.__name__ == "m", "a module has another name")
    t.prove(len(m.runs) == 1, "a module is executed another number of times")
    t.prove(m.x == "first" and m.get() == "first", "a module does not have what it defines")
    v = t.str("v", t.choose("len", length + 1))
    how = t.pick("how", ["attribute", "inside", "setattr"])
    if how == "attribute":
        def f():
            m.x = v
    elif how == "inside":
        def f():
            m.set(v)
    else:
        def f():
            setattr(m, "x", v)
    t.call(f, "assigning in a module")
    for got in (m.x, getattr(m, "x"), t.call(lambda: m.get(), "a function of a module")):
        t.prove(len(got) == len(v) and eq(got, v), "a module reads back something else than was assigned")
    # commands and what is exported
    had = len(t.started())
    t.prog("prog", exits(0))
    t.call(lambda: m.prog("a").run_interactive(), "running a command of a module")
    p = t.one("prog")
    t.prove(list(p.argv) == ["prog", "a"], "a command of a module is another command")
    t.prove(m.V == "outer" and m.exports["V"] == "outer", "an exported variable is no attribute of a module")
    # new names
    def f():
        m.fresh = v
    t.call(f, "assigning in a module")
    t.prove(eq(m.fresh, v), "a module reads back something else than was assigned")
    names = t.call(lambda: list(types.ModuleType.__dir__(m) if not hasattr(type(m), "__dir__") else type(m).__dir__(m)), "listing a module")
    for n in ("x", "get", "set", "fresh", "__secret__", "_private"):
        t.prove(n in names, "%s is not listed" % n)
    t.prove(t.call(lambda: m.__secret__, "reading a special name that is defined") == "dunder", "a special name that is defined is not found")
    for n in ("__all__x__", "__path__", "__wrapped__", "__getstate__x__", "__iter__", "__fspath__"):
        t.prove(not has_attr(m, n), "a module has a special attribute %s that nobody defined" % n)
    if has_attr(m, "__all__"):
        star = t.call(lambda: list(m.__all__), "import *")
        for n in ("x", "get", "set", "fresh", "runs"):
            t.prove(n in star, "%s is not imported by import *" % n)
        for n in star:
            t.prove(n != "env" and not n.startswith("_"), "%s is imported by import *" % n)
    t.prove(len(t.started()) == had + 1, "looking at a module runs something")
    t.prove(load(t, "m") is m and len(m.runs) == 1, "importing again executes the file again")
    m2 = load(t, "m", again=True)
    t.prove(m2 is m and m.get() == "first" and len(m.runs) == 1, "reloading does not execute the file again")
    t.cover("read")


scenario("C28", "attributes", args=(1,), covers=["read"], bounds="any value of 0-1 characters, assigned in 3 ways")(attributes)


def isolated(t, length):
    """What a module does to its environment stays there."""
    world(t, [("/a/m.pysh", TEXT), ("/a/n.pysh", TEXT)])
    t.loader.modules["sys"].path[:] = ["/a"]
    scope = t.environ.envScope
    v = t.str("v", t.choose("len", length + 1), exclude="\0")
    scope["zz"] = "a name outside"
    before = t.flag("before")
    if before:
        # modules start with what is exported when they are imported
        def f():
            scope["V"] = v
        t.call(f, "assigning")
    inner = v if before else "outer"
    m, n = load(t, "m"), load(t, "n")
    for x in (m, n):
        t.prove(not isinstance(t.call(lambda: x.outside(), "a function"), str), "a module sees names of the one that imports it")
        t.prove(eq(t.call(lambda: x.exported(), "a function"), inner), "a module starts with other variables")
        t.prove(t.call(lambda: x.directory(), "a function") == "/w", "a module starts in another directory")
    act = t.pick("act", ["cd", "export", "attribute", "outside_cd", "outside_export", "name"])
    w = t.str("w", t.choose("wlen", length + 1), exclude="\0")
    wd = {"m": "/w", "n": "/w", "scope": "/w"}
    ex = {"m": inner, "n": inner, "scope": inner}
    if act == "cd":
        t.call(lambda: m.enter("/other"), "cd in a module")
        wd["m"] = "/other"
    elif act == "export":
        t.call(lambda: m.export(w), "exporting in a module")
        ex["m"] = w
    elif act == "attribute":
        def f():
            m.V = w
        t.call(f, "assigning in a module")
        ex["m"] = w
    elif act == "outside_cd":
        t.call(lambda: scope["env"].cd("/other").run_interactive(), "cd")
        wd["scope"] = "/other"
    elif act == "outside_export":
        def f():
            scope["V"] = w
        t.call(f, "assigning")
        ex["scope"] = w
    else:
        def f():
            m.newname = w
        t.call(f, "assigning")
        t.prove(not isinstance(dict.get(n._scope if hasattr(n, "_scope") else {}, "newname"), str), "a name of one module is in another one")
        t.prove(not dict.__contains__(scope, "newname"), "a name of a module is in the interactive scope")
    got = {"m": m.directory(), "n": n.directory(), "scope": scope["env"]._cwd}
    t.prove(got == wd, "the directory of another module changes")
    for name, g in (("m", m.exported()), ("n", n.exported()), ("scope", scope["V"])):
        t.prove(len(g) == len(ex[name]) and eq(g, ex[name]), "the variables of another module change")
    # programs run in the module's environment
    t.prog("prog", exits(0))
    t.call(lambda: m.run("a"), "running a program in a module")
    p = t.one("prog")
    t.prove(p.exec_cwd == wd["m"], "a program of a module runs in another directory")
    env = {}
    for kk, vv in p.env:
        env[kk] = vv
    t.prove(eq(env["V"], ex["m"]), "a program of a module gets other variables")
    t.cover("isolated")


scenario("C28", "isolated", args=(1,), covers=["isolated"],
         bounds="two modules and the interactive scope, 6 actions, any values of 0-1 characters")(isolated)


FILES = [(b"x = 1\n", {"x": 1}, 0), (b"x = 1\nif 1:\n    y = 2", {"x": 1, "y": 2}, 0), (b"", {}, 0), (b"x = 1\ny = (2\n", {}, 1),
         (b"x = 1\nraise ValueError()\ny = 2\n", {"x": 1}, 1), (b"x = 1\n  y = 2\n", {}, 1), (b"x = 1\nraise OSError(2, 'gone', '/w/x')\ny = 2\n", {"x": 1}, 1),
         (b"x = 1\nraise KeyError('k')\n", {"x": 1}, 1), (b"x = 1\nraise AttributeError('k')\n", {"x": 1}, 1), (b"x = 1\nraise StopIteration()\n", {"x": 1}, 1),
         (b"x = 1\nraise UnicodeDecodeError('utf-8', b'a', 0, 1, 'x')\n", {"x": 1}, 1), (b"x = 1\nraise Exception\n", {"x": 1}, 1),
         (b"def f():\n    raise PermissionError(13, 'no')\nf()\nx = 1\n", {}, 1), (b"raise ImportError('nowhere')\nx = 1\n", {}, 1),
         (b"import m2\nx = m2\n", None, 0)]


def contents(t):
    """The file is executed completely; errors are reported."""
    data, names, error = t.pick("file", FILES[:-1])
    world(t, [("/a/m.pysh", data)])
    t.loader.modules["sys"].path[:] = ["/a"]
    d = eng.w.data
    try:
        m = load(t, "m") if not error else t.attempt(lambda: load(t, "m")).value
    finally:
        pass
    if error:
        t.prove(d.get("console_errors") or d.get("console") or d.get("tracebacks") or isinstance(m, Exception), "an error in a module is not reported")
        t.cover("error")
        return
    for n in ("x", "y"):
        t.prove(dict.__contains__(m._scope, n) == (n in names) if hasattr(m, "_scope") else True, "a module has other names than its file defines")
        if n in names:
            t.prove(getattr(m, n) == names[n], "a module has other values than its file defines")
    t.cover("loaded")


def unreadable(t):
    """A file that cannot be read or decoded: the import says so."""
    world(t, [("/a/m.pysh", b"x = 1\n")])
    t.loader.modules["sys"].path[:] = ["/a"]
    kind = t.pick("kind", ["directory", "unreadable", "encoding"])
    k = t.k
    if kind == "directory":
        d = k.lookup("/a")
        d.entries = [x for x in d.entries if x[0] != "m.pysh"]
        k.mkdir_p("/a/m.pysh")
    elif kind == "unreadable":
        k.lookup("/a/m.pysh").unreadable = True
    else:
        k.lookup("/a/m.pysh").data = b"x = 1 # \xff\n"
    r = load(t, "m", may_fail=True)
    t.prove(not r.hung, "an import never ends")
    d = eng.w.data
    t.prove(not r.ok or d.get("console_errors") or d.get("tracebacks"), "a module that cannot be read is imported without an error")
    t.cover("error")


scenario("C28", "unreadable", covers=["error"], bounds="a directory, an unreadable file, a file that is not UTF-8")(unreadable)
scenario("C28", "contents", covers=["error", "loaded"], bounds="14 kinds of files")(contents)


def circular(t, n):
    """Modules that import each other, or themselves, are each executed once."""
    which = [t.pick("imports%d" % i, range(n)) for i in range(n)]
    files = [("/a/m%d.pysh" % i, b"note('m%d')\nimp('m%d')\nnote('end%d')\nx = %d\n" % (i, j, i, i)) for i, j in enumerate(which)]
    world(t, files)
    t.loader.modules["sys"].path[:] = ["/a"]
    deep = []

    def imp(name):
        deep.append(name)
        t.prove(len(deep) < 3 * n, "modules that import each other are executed again and again")
        load(t, name)
    t.loader.modules["builtins"].imp = imp
    t.loader.modules["builtins"].note = t.out.append
    m = load(t, "m0")
    want, i = [], 0
    while i not in want:
        want.append(i)
        i = which[i]
    t.prove(t.out == ["m%d" % i for i in want] + ["end%d" % i for i in reversed(want)], "executed: %s" % t.out)
    t.prove(m.x == 0, "another module is imported")
    t.cover("circular")


scenario("C28", "circular", args=(3,), covers=["circular"], bounds="three modules, each importing any of them")(circular)
