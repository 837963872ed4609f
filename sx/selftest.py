"""python3-vt -m sx.selftest [seed]

Tests of the checker itself (no part of any verdict): the symbolic operations against Python's, the models against what
they stand for.  The plain halves run under pieshell's own interpreter where that matters."""
import fnmatch as real_fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---------------------------------------------------------------- 1. operations on symbolic texts
SNIPPETS = r'''
def f_split(s, u): return s.split(u) if len(u) else s.split()
def f_split1(s, u): return s.split(u, 1) if len(u) else None
def f_rsplit1(s, u): return s.rsplit(u, 1) if len(u) else None
def f_partition(s, u): return s.partition(u) if len(u) else None
def f_replace(s, u): return s.replace(u, "xy") if len(u) else None
def f_strip(s, u): return s.strip(u), s.lstrip(u), s.rstrip(u)
def f_strip0(s, u): return s.strip(), s.rstrip(), s.lstrip()
def f_find(s, u): return s.find(u), s.rfind(u), u in s
def f_start(s, u): return s.startswith(u), s.endswith(u), s.startswith(("/", u))
def f_count(s, u): return s.count(u) if len(u) else None
def f_join(s, u): return u.join([s, "a", u])
def f_mod(s, u): return "%s=%s" % (s, u)
def f_modr(s, u): return "<%s>" % (repr(s) if s.isascii() and s.isprintable() and "'" not in s and "\\" not in s else "",)
def f_fmt(s, u): return f"{s}-{u!s}:"
def f_slice(s, u): return s[1:], s[:-1], s[::-1], s[0:2]
def f_index(s, u): return s[0] if s else None, s[-1] if s else None
def f_cmp(s, u): return s == u, s != u, s < u, s >= u
def f_case(s, u): return (s.upper(), s.lower()) if s.isascii() else None
def f_is(s, u): return (s.isdigit(), s.isalpha(), s.isspace(), s.isidentifier(), s.isalnum()) if s.isascii() else None
def f_encode(s, u): return s.encode("utf-8")
def f_decode(s, u): return s.encode("utf-8").decode("utf-8")
def f_lines(s, u): return s.splitlines()
def f_mul(s, u): return s * 2 + u
def f_in(s, u): return s in [u, "a"], s in {"a": 1, "/": 2}
def f_dict(s, u):
    d = {"a": 1}
    d[s] = 2
    d[u] = 3
    return sorted(d.values()), len(d)
def f_bytes(s, u):
    b = (s + "\n" + u).encode("utf-8")
    return b.split(b"\n"), b.split(b"\n", 1), b[1:], len(b), b.find(b"\n"), b.replace(b"\n", b"")
def f_quote(s, u): return shlex.quote(s)
def f_path(s, u):
    return posixpath.join(s, u), posixpath.normpath(s), posixpath.basename(s), posixpath.dirname(s), posixpath.isabs(s), posixpath.split(s)
def f_re(s, u):
    m = re.match(r"^[a-zA-Z]*$", s)
    n = re.search(r"(a|/)+([^a])?", s)
    return m is not None, n and (n.start(), n.end(), n.group(1), n.group(2))
def f_re2(s, u): return re.split(r"[/.]+", s), re.sub(r"a*b", "-", s), re.findall(r"a.?", s)
def f_has(s, u): return glob.has_magic(s), glob.escape(s)
'''
CASES = int(os.environ.get("SX_CASES", "30"))
ALPHABET = "ab/. \n\r*[]'\"%é\u2028\U0001d11e-_A0~"


def encode_value(x):
    if isinstance(x, (list, tuple)):
        return [encode_value(y) for y in x]
    if isinstance(x, bytes):
        return {"b": list(x)}
    return x


def cases(seed, n):
    r = random.Random(seed)
    return [("".join(r.choice(ALPHABET) for _ in range(r.randrange(4))), "".join(r.choice(ALPHABET) for _ in range(r.randrange(3))))
            for _ in range(n)]


def plain_operations(seed, n):
    import glob, posixpath, re, shlex
    ns = {"shlex": shlex, "posixpath": posixpath, "re": re, "glob": glob}
    exec(SNIPPETS, ns)
    return [[encode_value(ns[f](s, u)) for f in sorted(ns) if f.startswith("f_")] for s, u in cases(seed, n)]


def symbolic_operations(seed, n, expected):
    from sx import api, load, instrument, ops
    from sx.engine import eng
    load.install()
    eng.mode = "sym"
    code = instrument.instrument(SNIPPETS, "<snippets>", "snippets")
    bad = []

    def same(a, b):
        """a: value of the symbolic run, b: expected"""
        if isinstance(b, list):
            if not isinstance(a, (list, tuple)) or len(a) != len(b):
                return False
            return api.and_(*[same(x, y) for x, y in zip(a, b)])
        if isinstance(b, dict):
            b = bytes(b["b"])
        if b is None or a is None:
            return a is b
        if isinstance(b, (str, bytes)):
            return len(a) == len(b) and api.eq(a, b)
        return api.eq(a, b)
    names = sorted(x.split("(")[0][4:] for x in SNIPPETS.splitlines() if x.startswith("def f_"))
    for (s0, u0), want in zip(cases(seed, n), expected):
        for f, w in zip(names, want):
            def harness(e):
                t = api.T(e)
                t.kernel()
                l = load.WorldLoader({"HOME": "/"})
                ns = {"shlex": l.import_module("shlex"), "posixpath": l.import_module("posixpath"), "glob": l.import_module("glob"),
                      "re": l.import_module("re"), "__sx__": ops}
                exec(code, ns)
                s, u = t.str("s", len(s0)), t.str("u", len(u0))
                t.assume(api.and_(api.eq(s, s0), api.eq(u, u0)))
                t.prove(same(ns[f](s, u), w), "is not %r" % (w,))
            eng.reset_stats()
            try:
                st = eng.explore(harness)
                why = (eng.violation or {}).get("message") or eng.why
            except Exception as x:
                st, why = type(x).__name__, x
            if st != "ok":
                bad.append("%s(%r, %r): %s %s" % (f, s0, u0, st, why))
    return bad


# ---------------------------------------------------------------- 2. models of library functions
def model_fnmatch(seed, n):
    from sx import load
    from sx.engine import eng
    eng.mode = "sym"
    r = random.Random(seed)
    bad = []

    def harness(e):
        m = load.FnmatchModel()
        for _ in range(n):
            p = "".join(r.choice("ab*?[]!-.\\^") for _ in range(r.randrange(6)))
            name = "".join(r.choice("ab.-]!^\\") for _ in range(r.randrange(5)))
            if bool(m.fnmatchcase(name, p)) != real_fnmatch.fnmatchcase(name, p):
                bad.append("fnmatch(%r, %r)" % (name, p))
    eng.reset_stats()
    st = eng.explore(harness)
    return bad + ([] if st == "ok" else ["fnmatch: %s %s" % (st, eng.why)])


def slug_texts(seed, n):
    r = random.Random(seed)
    return ["".join(r.choice("aZ0_-. /'(),:@é") if r.random() < 0.97 else "x" for _ in range(r.randrange(8))) for _ in range(n)]


def model_slugify(seed, n, expected):
    from sx import load
    return ["slugify(%r) is %r, not %r" % (s, load.slugify_model(s, separator="_"), w)
            for s, w in zip(slug_texts(seed, n), expected) if s.isascii() and load.slugify_model(s, separator="_") != w]


# ---------------------------------------------------------------- 3. the modelled kernel against the real one
def system_calls(seed, n):
    """a sequence of calls, as (name, arguments)"""
    r = random.Random(seed)
    paths = ["f", "d", "d/g", "none", "d/none", "l", "broken", "f/x", "d/..", "none/x", ".", "d/s", "", "new", "d/new", "loop"]
    flags = [os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREAT, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
             os.O_RDWR | os.O_CREAT | os.O_EXCL, os.O_WRONLY | os.O_APPEND, os.O_RDONLY | os.O_DIRECTORY]
    calls = []
    fd = lambda: r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
    path = lambda: r.choice(paths)
    for _ in range(n):
        what = r.choice(["open", "open", "open", "dup", "dup2", "close", "close", "read", "write", "write", "pipe", "lseek", "inherit",
                         "getinherit", "unlink", "mkdir", "rmdir", "listdir", "isdir", "exists", "lexists", "symlink", "chdir", "cwd", "rename",
                         "readlink", "stat", "fstat", "dupfd", "getfl", "islink"])
        if what == "open":
            calls.append((what, path(), r.choice(flags)))
        elif what in ("dup", "close", "getinherit", "fstat", "getfl"):
            calls.append((what, fd()))
        elif what == "dup2":
            calls.append((what, fd(), fd(), r.random() < 0.5))
        elif what == "dupfd":
            calls.append((what, fd(), r.choice([0, 5, 10])))
        elif what == "inherit":
            calls.append((what, fd(), r.random() < 0.5))
        elif what == "read":
            calls.append((what, fd(), r.choice([1, 3, 100])))
        elif what == "write":
            calls.append((what, fd(), "".join(r.choice("xyz\n") for _ in range(r.randrange(5)))))
        elif what == "lseek":
            calls.append((what, fd(), r.choice([0, 1, 3])))
        elif what in ("pipe", "cwd"):
            calls.append((what,))
        elif what in ("symlink", "rename"):
            calls.append((what, path(), path()))
        else:
            calls.append((what, path()))
    return calls


def perform(os_, fcntl_, calls, base):
    """results of the calls"""
    out = []
    E = __import__("errno")
    for c in calls:
        what, a = c[0], c[1:]
        try:
            if what == "open":
                r = os_.open(a[0], a[1])
            elif what == "dup":
                r = os_.dup(a[0])
            elif what == "dup2":
                r = os_.dup2(a[0], a[1], a[2])
            elif what == "dupfd":
                r = fcntl_.fcntl(a[0], fcntl_.F_DUPFD, a[1])
            elif what == "close":
                r = os_.close(a[0])
            elif what == "read":
                # never blocks: pipes are left alone
                r = list(os_.read(a[0], a[1])) if kind(os_, a[0]) == "reg" else kind(os_, a[0])
            elif what == "write":
                r = os_.write(a[0], a[1].encode()) if kind(os_, a[0]) == "reg" else kind(os_, a[0])
            elif what == "lseek":
                r = os_.lseek(a[0], a[1], 0) if kind(os_, a[0]) == "reg" else kind(os_, a[0])
            elif what == "inherit":
                r = os_.set_inheritable(a[0], a[1])
            elif what == "getinherit":
                r = bool(os_.get_inheritable(a[0]))
            elif what == "fstat":
                r = kind(os_, a[0], True)
            elif what == "getfl":
                r = fcntl_.fcntl(a[0], fcntl_.F_GETFL) & 3
            elif what == "pipe":
                r = list(os_.pipe())
            elif what == "cwd":
                r = os_.getcwd()
                r = r[len(base):] if r.startswith(base) else r
            elif what == "listdir":
                r = sorted(os_.listdir(a[0]))
            elif what in ("isdir", "exists", "lexists", "islink"):
                r = bool(getattr(os_.path, what)(a[0]))
            elif what == "stat":
                import stat
                m = os_.stat(a[0]).st_mode
                r = [stat.S_ISDIR(m), stat.S_ISREG(m)]
            else:
                r = getattr(os_, what)(*a)
        except OSError as x:
            r = "E" + E.errorcode.get(x.errno, str(x.errno))
        out.append([list(c), r])
    return out


def kind(os_, fd, report=False):
    import stat
    m = os_.fstat(fd).st_mode
    return "dir" if stat.S_ISDIR(m) else "reg" if stat.S_ISREG(m) else "fifo" if stat.S_ISFIFO(m) else "other"


def real_kernel(calls):
    """in a forked child, in a scratch directory"""
    top = tempfile.mkdtemp()
    base = top + "/base"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import fcntl, resource
            os.dup2(w, 99)
            null = os.open("/dev/null", os.O_RDWR)
            for i in (0, 1, 2):
                os.dup2(null, i)
            os.closerange(3, 99)
            os.makedirs(base + "/d")
            for n in ("f", "d/g"):
                with open(base + "/" + n, "w") as f:
                    f.write("content\n")
            os.symlink("d", base + "/l")
            os.symlink("missing", base + "/broken")
            os.symlink("../f", base + "/d/s")
            os.symlink("loop", base + "/loop")
            os.chdir(base)
            os.umask(0)
            data = json.dumps(perform(os, fcntl, calls, base)).encode()
            while data:
                data = data[os.write(99, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(top)
    return json.loads(data)


def model_kernel(calls):
    from sx import api, load, simos
    from sx.engine import eng
    out = []

    def harness(e):
        t = api.T(e)
        k = t.kernel()
        l = load.WorldLoader({"HOME": "/"})
        k.mkdir_p("/base/d")
        k.add_file("/base/f", b"content\n")
        k.add_file("/base/d/g", b"content\n")
        osm = l.modules["os"]
        osm.symlink("d", "/base/l")
        osm.symlink("missing", "/base/broken")
        osm.symlink("../f", "/base/d/s")
        osm.symlink("loop", "/base/loop")
        k.rootp.cwd = k.lookup("/base")
        for o in (0, 1, 2):
            k.sys_close(o)
            k.sys_open("/dev/null", os.O_RDWR, cloexec=False)
        out.extend(perform(osm, l.modules["fcntl"], calls, "/base"))
    eng.reset_stats()
    st = eng.run_concrete(harness, {})
    return json.loads(json.dumps(out)), st


def kernels(seed, rounds, n):
    bad = []
    for i in range(rounds):
        calls = system_calls("%s/%s" % (seed, i), n)
        real = real_kernel(calls)
        model, st = model_kernel(calls)
        for a, b in zip(real, model):
            if a != b:
                bad.append("%s: system %s, model %s" % (a[0], a[1], b[1]))
                break
        if st != "ok":
            bad.append("kernel: %s" % st)
    return bad


# ---------------------------------------------------------------- 4. pickle at the level of objects
PICKLES = r'''
import types, functools
class Plain(object):
    def __init__(self): self.a = [1, {"x": (2, None)}]
class Slots(object):
    __slots__ = ("a", "b")
class State(object):
    def __init__(self): self.a, self.b = 1, 2
    def __getstate__(self): return {"a": self.a}
class SetState(object):
    def __init__(self): self.a = 1
    def __setstate__(self, s): self.b = s
class Delegating(object):
    def __init__(self): self.inner = "text"
    def __getattr__(self, name): return getattr(self.inner, name)
class Reduce(object):
    def __reduce__(self): return (list, ((1, 2),))
class ReduceEx(object):
    def __reduce_ex__(self, p): return (Plain, ())
class MyList(list): pass
class MyDict(dict): pass
class Error(Exception): pass
class Meta(type): pass
class WithMeta(object, metaclass=Meta): pass
def function(): pass
def make():
    def local(): pass
    def gen(): yield 1
    s = Slots(); s.a = 1
    ml = MyList([1, 2]); ml.extra = 3
    md = MyDict(a=1); md.extra = 3
    shared = [1]
    rec = []; rec.append(rec)
    yield "plain", Plain(), lambda x: x.a
    yield "slots", s, lambda x: (x.a, hasattr(x, "b"))
    yield "state", State(), lambda x: sorted(x.__dict__)
    yield "setstate", SetState(), lambda x: sorted(x.__dict__)
    yield "delegating", Delegating(), lambda x: x.inner
    yield "reduce", Reduce(), lambda x: x
    yield "reduce_ex", ReduceEx(), lambda x: type(x).__name__
    yield "list", ml, lambda x: (list(x), x.extra)
    yield "dict", md, lambda x: (dict(x), x.extra)
    yield "error", Error("x", 1), lambda x: (type(x).__name__, x.args)
    yield "meta", WithMeta, lambda x: x.__name__
    yield "metainstance", WithMeta(), lambda x: type(x).__name__
    yield "function", function, lambda x: x.__name__
    yield "local", local, lambda x: 1
    yield "lambda", lambda: 1, lambda x: 1
    yield "generator", gen(), lambda x: 1
    yield "iterator", iter([1, 2, 3]), list
    yield "shared", (shared, shared), lambda x: x[0] is x[1]
    yield "recursive", rec, lambda x: x[0] is x
    yield "bound", Plain().__init__, lambda x: 1
    yield "module", types, lambda x: 1
    yield "set", {1, 2}, sorted
    yield "partial", functools.partial(int, "7"), lambda x: x()
    yield "types", [int, dict, type(None)], lambda x: [t.__name__ for t in x]
'''


def pickles(dumps, loads, ns):
    out = []
    for name, x, look in ns["make"]():
        try:
            d = dumps(x)
        except Exception as e:
            out.append([name, "not saved"])
            continue
        try:
            out.append([name, encode_value(look(loads(d)))])
        except Exception as e:
            out.append([name, "not loaded"])
    return json.loads(json.dumps(out))


def pickle_module():
    m = types.ModuleType("picklecases")
    sys.modules["picklecases"] = m
    exec(PICKLES, m.__dict__)
    return m


def real_pickles():
    import pickle
    return pickles(lambda x: pickle.dumps(x, 4), pickle.loads, pickle_module().__dict__)


def model_pickles():
    from sx import api, load
    from sx.engine import eng
    out = []

    def harness(e):
        t = api.T(e)
        t.kernel()
        l = load.WorldLoader({"HOME": "/"})
        m = pickle_module()
        l.modules["picklecases"] = m
        p = l.modules["pickle"]
        out.extend(pickles(p.dumps, p.loads, m.__dict__))
    eng.reset_stats()
    st = eng.run_concrete(harness, {})
    return out, st


# ----------------------------------------------------------------
def main():
    seed = os.environ.get("VERIF_SEED", "1")
    if len(sys.argv) > 2 and sys.argv[1] == "--plain":
        seed = sys.argv[2]
        try:
            import slugify
            slugs = [slugify.slugify(s, separator="_") for s in slug_texts(seed, 400)]
        except ImportError:
            slugs = []
        sys.stdout.write(json.dumps({"operations": plain_operations(seed, CASES), "slugs": slugs, "pickles": real_pickles()}))
        return 0
    if len(sys.argv) > 1:
        seed = sys.argv[1]
    from sx import load
    sys.path.insert(0, HERE)
    runtime = load.RUNTIME if os.path.exists(load.RUNTIME) else sys.executable
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    plain = json.loads(subprocess.check_output([runtime, "-m", "sx.selftest", "--plain", seed], env=env, cwd=HERE))
    failed = 0

    def report(what, bad):
        nonlocal failed
        print("%-12s %s" % (what, "ok" if not bad else "%d differ" % len(bad)))
        shown = {}
        for b in bad:
            k = str(b).split("(")[0]
            shown[k] = shown.get(k, 0) + 1
            if shown[k] < 4:
                print("   " + str(b)[:300])
        failed += len(bad)
        sys.stdout.flush()
    load.install()
    parts = os.environ.get("SX_PARTS", "fnmatch slugify kernel pickle operations").split()
    if "fnmatch" in parts:
        report("fnmatch", model_fnmatch(seed, 3000))
    if "slugify" in parts:
        report("slugify", model_slugify(seed, 400, plain["slugs"]))
    if "kernel" in parts:
        report("kernel", kernels(seed, 200, 60))
    if "pickle" in parts:
        model, st = model_pickles()
        report("pickle", [(a, b) for a, b in zip(plain["pickles"], model) if a != b] + ([] if st == "ok" else [st]))
    if "operations" in parts:
        report("operations", symbolic_operations(seed, CASES, plain["operations"]))
    return 1 if failed else 0


if __name__ == "__main__":
    sys.exit(main())
