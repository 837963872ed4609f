"""Loads pieshell from /repo into a world: its imports of operating-system facing modules get the models, its
sources are instrumented (symbolic mode) or compiled as they are (replay)."""
import ast
import builtins as _builtins
import importlib
import io as _io
import logging as _logging
import os as _os
import re as _re
import subprocess
import sys
import types
import warnings

from .engine import eng, Unsupported, eq
from . import simos, simloop

REPO = _os.environ.get("SX_REPO", "/repo")
RUNTIME = "/opt/venv/bin/python"
STDLIB_MODULES = ("posixpath", "genericpath", "glob", "fnmatch", "shlex")

_code_cache = {}
_stdlib_dir = None


def stdlib_dir():
    """the library of the interpreter pieshell runs under"""
    global _stdlib_dir
    if _stdlib_dir is None:
        if "SX_STDLIB" in _os.environ:
            _stdlib_dir = _os.environ["SX_STDLIB"]
        elif _os.path.realpath(sys.executable) == _os.path.realpath(RUNTIME) or not _os.path.exists(RUNTIME):
            import shlex
            _stdlib_dir = _os.path.dirname(shlex.__file__)
        else:
            _stdlib_dir = subprocess.check_output(
                [RUNTIME, "-c", "import shlex, os; print(os.path.dirname(shlex.__file__))"]).decode().strip()
        _os.environ["SX_STDLIB"] = _stdlib_dir
    return _stdlib_dir


def code_for(path, modname, fallback=None):
    inst = eng.mode == "sym"
    key = (path, inst)
    if key not in _code_cache:
        if not _os.path.exists(path) and fallback is not None:
            source = fallback
        else:
            with _io.open(path, encoding="utf-8") as f:
                source = f.read()
        if inst:
            from .instrument import instrument
            _code_cache[key] = instrument(source, path, modname)
        else:
            _code_cache[key] = compile(source, path, "exec", dont_inherit=True)
    return _code_cache[key]


# ------------------------------------------------------------------ small model modules

class Stub(types.ModuleType):
    pass


def _contains(t, c):
    from .engine import or_, eq
    return or_(*[eq(t[i], c) for i in range(len(t))])


def slugify_model(text, separator="-", **kw):
    """python-slugify on ASCII text without character entities (&...;): compared with the installed package in the
    self test."""
    if eng.mode == "sym":
        from . import rx
        re = rx.module
    else:
        re = _re
    from .engine import and_
    from .api import code as _ord
    if eng.mode != "sym":
        try:
            from slugify import slugify
        except ImportError:
            pass
        else:
            return slugify(text, separator=separator, **kw)
    t = text
    if not bool(and_(*[_ord(t[i]) < 128 for i in range(len(t))])):
        raise Unsupported("slugify of other than ASCII text")
    if len(t) > 2 and bool(_contains(t, "&")):
        raise Unsupported("slugify of a character entity")
    t = re.sub(r"'+", "-", t)
    t = t.lower()
    # commas between digits vanish
    r = ""
    for i in range(len(t)):
        if 0 < i < len(t) - 1:
            a, c, b = _ord(t[i - 1]), _ord(t[i]), _ord(t[i + 1])
            if bool(and_(c == 44, a >= 48, a <= 57, b >= 48, b <= 57)):
                continue
        r = r + t[i:i + 1]
    t = re.sub(r"[^a-z0-9]+", "-", r)
    t = t.strip("-")
    if separator != "-":
        t = t.replace("-", separator)
    return t


class StringIOModel(object):
    def __init__(self, data="", newline="\n"):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readline(self, *a):
        i = self.data.find("\n", self.pos)
        end = len(self.data) if i < 0 else i + 1
        d = self.data[self.pos:end]
        self.pos = end
        return d

    def __iter__(self):
        return self

    def __next__(self):
        d = self.readline()
        if len(d) == 0:
            raise StopIteration
        return d

    def write(self, s):
        self.data = self.data[:self.pos] + s + self.data[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def getvalue(self):
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class IoModule(object):
    def __init__(self):
        self.__name__ = "io"
        self.open = simos.model_open
        self.StringIO = StringIOModel

    def __getattr__(self, name):
        return getattr(_io, name)


class KeywordModel(object):
    """the keyword module: asking whether a text is one of its words"""
    def __init__(self):
        import keyword
        self.kwlist, self.softkwlist = list(keyword.kwlist), list(keyword.softkwlist)

    def iskeyword(self, s):
        return self.among(s, self.kwlist)

    def issoftkeyword(self, s):
        return self.among(s, self.softkwlist)

    def among(self, s, words):
        return any(len(w) == len(s) and bool(eq(s, w)) for w in words)


class FnmatchModel(object):
    """fnmatch for symbolic names and patterns"""
    def __init__(self):
        self.__name__ = "fnmatch"

    def _m(self, name, pat):
        from .values import els_of, SYMSET, test, el_eq, disj, conj, el_in, unsupported
        import fnmatch
        if type(name) not in SYMSET and type(pat) not in SYMSET:
            return fnmatch.fnmatchcase(name, pat)
        n, p = els_of(name), els_of(pat)
        items = []
        i = 0
        while i < len(p):
            c = p[i]
            i += 1
            if test(el_eq(c, 42)):
                items.append(("*",))
            elif test(el_eq(c, 63)):
                items.append(("?",))
            elif test(el_eq(c, 91)):
                j = i
                neg = False
                if j < len(p) and test(el_eq(p[j], 33)):
                    neg = True
                    j += 1
                k = j
                if k < len(p) and test(el_eq(p[k], 93)):
                    k += 1
                while k < len(p) and not test(el_eq(p[k], 93)):
                    k += 1
                if k >= len(p):
                    items.append(("c", c))
                else:
                    items.append(("set", neg, p[j:k]))
                    i = k + 1
            else:
                items.append(("c", c))

        def member(e, body):
            cs = []
            a = 0
            while a < len(body):
                if a + 2 < len(body) and test(el_eq(body[a + 1], 45)):
                    lo, hi = body[a], body[a + 2]
                    if isinstance(e, int) and isinstance(lo, int) and isinstance(hi, int):
                        cs.append(lo <= e <= hi)
                    else:
                        import z3
                        cs.append(z3.And(e >= lo, e <= hi))
                    a += 3
                else:
                    cs.append(el_eq(e, body[a]))
                    a += 1
            return test(disj(cs))

        def run(a, b):
            while a < len(items):
                it = items[a]
                if it[0] == "*":
                    for c in range(b, len(n) + 1):
                        if run(a + 1, c):
                            return True
                    return False
                if b >= len(n):
                    return False
                if it[0] == "c":
                    if not test(el_eq(n[b], it[1])):
                        return False
                elif it[0] == "set":
                    if member(n[b], it[2]) == it[1]:
                        return False
                a += 1
                b += 1
            return b == len(n)
        return run(0, 0)

    def fnmatchcase(self, name, pat):
        return self._m(name, pat)
    fnmatch = fnmatchcase

    def filter(self, names, pat):
        return [x for x in names if self._m(x, pat)]

    def translate(self, pat):
        import fnmatch
        if not isinstance(pat, str):
            eng._raise(Unsupported("fnmatch.translate of a symbolic pattern"))
        return fnmatch.translate(pat)


class LogRecord(object):
    def __init__(self, name, level, levelname, msg, args, exc_info=None):
        self.name, self.levelno, self.levelname, self.msg, self.args = name, level, levelname, msg, args
        self.exc_info = exc_info
        self.process = eng.w.kernel.me.pid
        self.created = self.msecs = self.relativeCreated = 0
        self.pathname = self.filename = self.module = self.funcName = self.processName = self.threadName = "x"
        self.lineno = self.thread = 0
        self.asctime = "now"

    def getMessage(self):
        msg = self.msg
        if not (isinstance(msg, str) or getattr(type(msg), "realtype", None) is str):
            msg = str(msg)
        if self.args:
            msg = msg % self.args
        return msg


class LoggingModel(object):
    """levels, propagation to the root and handlers as in logging"""
    BASIC_FORMAT = "%(levelname)s:%(name)s:%(message)s"
    CRITICAL, FATAL, ERROR, WARNING, WARN, INFO, DEBUG, NOTSET = 50, 50, 40, 30, 30, 20, 10, 0
    NAMES = {50: "CRITICAL", 40: "ERROR", 30: "WARNING", 20: "INFO", 10: "DEBUG"}

    class Formatter(object):
        def __init__(self, fmt=None, *a, **kw):
            self.fmt = fmt or "%(message)s"

        def format(self, record):
            parts = self.fmt.split("%(message)s")
            out = parts[0] % record.__dict__
            for x in parts[1:]:
                out = out + record.getMessage() + x % record.__dict__
            return out

    class Handler(object):
        def __init__(self, stream=None, *a, **kw):
            self.formatter = None
            self.level = 0
            self.stream = stream

        def setFormatter(self, f):
            self.formatter = f

        def setLevel(self, f):
            self.level = f

        def format(self, record):
            return (self.formatter or LoggingModel.Formatter()).format(record)

        def emit(self, record):
            eng._raise(Unsupported("a logging handler that writes by itself"))

        def handle(self, record):
            self.emit(record)

        def flush(self):
            pass

        def handleError(self, record):
            # prints to sys.stderr, if that is there
            eng.w.data["log_errors"] = eng.w.data.get("log_errors", 0) + 1
            k = eng.w.kernel
            try:
                k.sys_write(2, b"--- Logging error ---\n")
            except OSError:
                pass

    class StreamHandler(Handler):
        pass

    class NullHandler(Handler):
        def emit(self, record):
            pass

    def __init__(self):
        self.__name__ = "logging"
        self.loggers = {}
        model = self

        class Logger(object):
            def __init__(self, name, parent):
                self.name, self.parent = name, parent
                self.level = 30 if parent is None else 0
                self.handlers = []
                self.disabled = False
                self.propagate = True

            def setLevel(self, level):
                self.level = getattr(model, level) if isinstance(level, str) else level

            def addHandler(self, h):
                if h not in self.handlers:
                    self.handlers.append(h)

            def removeHandler(self, h):
                if h in self.handlers:
                    self.handlers.remove(h)

            def getEffectiveLevel(self):
                l = self
                while l is not None:
                    if l.level:
                        return l.level
                    l = l.parent
                return 0

            def isEnabledFor(self, level):
                return not self.disabled and level >= self.getEffectiveLevel()

            def log(self, level, msg, *args, **kw):
                if not self.isEnabledFor(level):
                    return
                r = LogRecord(self.name, level, model.NAMES.get(level, "Level %s" % level), msg, args, kw.get("exc_info"))
                eng.w.data.setdefault("log", []).append(r)
                l = self
                while l is not None:
                    for h in list(l.handlers):
                        if level >= h.level:
                            h.handle(r)
                    l = l.parent if l.propagate else None

            def debug(self, *a, **kw):
                self.log(10, *a, **kw)

            def info(self, *a, **kw):
                self.log(20, *a, **kw)

            def warning(self, *a, **kw):
                self.log(30, *a, **kw)
            warn = warning

            def error(self, *a, **kw):
                self.log(40, *a, **kw)

            def exception(self, *a, **kw):
                self.log(40, *a, **kw)

            def critical(self, *a, **kw):
                self.log(50, *a, **kw)
        self.Logger = Logger
        self.root = Logger("root", None)

    def getLogger(self, name=None):
        if name is None or name == "root":
            return self.root
        if name not in self.loggers:
            parent = self.getLogger(name.rpartition(".")[0] or None)
            self.loggers[name] = self.Logger(name, parent)
        return self.loggers[name]

    def basicConfig(self, *a, **kw):
        pass

    def __getattr__(self, name):
        for level, n in self.NAMES.items():
            if name == n.lower():
                return getattr(self.root, name)
        if name.startswith("__"):
            raise AttributeError(name)
        eng._raise(Unsupported("logging.%s is not modelled" % name))


class StdStream(object):
    def __init__(self, fd):
        self.fd = fd
        self.encoding = "utf-8"
        self.buffer = self

    def fileno(self):
        return self.fd

    def write(self, s):
        if isinstance(s, str) or getattr(type(s), "realtype", None) is str:
            data = s.encode("utf-8", "backslashreplace") if isinstance(s, str) else b"?"
        else:
            data = s
        k = eng.w.kernel
        k.fault("stdio")
        k.do_write(k.need(self.fd)[1], data)
        return len(s)

    def flush(self):
        eng.w.kernel.fault("stdio")

    def isatty(self):
        return False


class SysModule(object):
    def __init__(self):
        d = self.__dict__
        d["__name__"] = "sys"
        d["stdin"] = StdStream(0)
        d["stdout"] = StdStream(1)
        d["stderr"] = StdStream(2)
        d["__stdout__"], d["__stderr__"], d["__stdin__"] = d["stdout"], d["stderr"], d["stdin"]
        d["argv"] = ["pieshell"]
        d["meta_path"] = []
        d["path"] = []

    def __getattr__(self, name):
        if name in ("ps1", "ps2"):
            raise AttributeError(name)
        return getattr(sys, name)

    def exit(self, code=None):
        raise SystemExit(code)

    @property
    def modules(self):
        return eng.w.data["modules"]

    def __dir__(self):
        return dir(sys)


class AtexitModule(object):
    def __init__(self):
        self.__name__ = "atexit"

    def register(self, f, *a, **kw):
        eng.w.data.setdefault("atexit", []).append(f)
        return f

    def unregister(self, f):
        pass


import code as _code
import codeop
import warnings


class Compile39(object):
    """codeop of Python 3.9: later ones need no line after a block"""
    def __init__(self):
        self.compiler = codeop.Compile()
        self.compiler.flags = codeop.PyCF_DONT_IMPLY_DEDENT

    def __call__(self, source, filename="<input>", symbol="single"):
        for line in source.split("\n"):
            line = line.strip()
            if line and line[0] != "#":
                break
        else:
            if symbol != "eval":
                source = "pass"
        codes, errors = [], []
        for end in ("", "\n", "\n\n"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore" if not end else "error")
                try:
                    codes.append(self.compiler(source + end, filename, symbol))
                    errors.append(None)
                except SyntaxError as e:
                    codes.append(None)
                    errors.append(e)
        if codes[0]:
            return codes[0]
        if not codes[1] and repr(errors[1]) == repr(errors[2]):
            raise errors[1]


class Console(_code.InteractiveConsole):
    """executes as the real one does; what it reports is recorded, what it displays is displayed in the world"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.compile = Compile39()

    def write(self, data):
        eng.w.data.setdefault("console", []).append(data)

    def runcode(self, c):
        def displayhook(value):
            if value is not None:
                eng.w.data.setdefault("displayed", []).append(value)
                base_repr(value)
        saved, sys.displayhook = sys.displayhook, displayhook
        try:
            exec(c, self.locals)
        except SystemExit:
            raise
        except BaseException as x:
            if eng.signal is not None:
                raise
            eng.w.data.setdefault("console_errors", []).append(x)
        finally:
            sys.displayhook = saved

    def showsyntaxerror(self, filename=None, *a, **kw):
        eng.w.data.setdefault("console_errors", []).append(sys.exc_info()[1])

    def interact(self, banner=None, exitmsg=None):
        eng.w.data.setdefault("interact", []).append(self.locals)


class CodeModule(object):
    InteractiveConsole = InteractiveInterpreter = Console

    def __init__(self):
        self.__name__ = "code"

    def interact(self, banner=None, readfunc=None, local=None, exitmsg=None, **kw):
        eng.w.data.setdefault("interact", []).append(local)

    def __getattr__(self, name):
        return getattr(_code, name)


class TracebackModule(object):
    """nothing is printed (texts of exceptions may be symbolic)"""
    def __init__(self):
        self.__name__ = "traceback"

    def print_exc(self, *a, **kw):
        eng.w.data["tracebacks"] = eng.w.data.get("tracebacks", 0) + 1
    print_exception = print_stack = print_exc

    def __getattr__(self, name):
        import traceback
        return getattr(traceback, name)


class PsutilModel(object):
    """only what is needed to attach details to a started process"""
    class Error(Exception):
        pass

    class NoSuchProcess(Error):
        pass

    class AccessDenied(Error):
        pass

    class Process(object):
        def __init__(self, pid=None):
            k = eng.w.kernel
            self.pid = pid
            p = k.procs.get(pid)
            if pid not in (1, 1000) and (p is None or p.state == "reaped"):
                raise PsutilModel.NoSuchProcess(pid)

    def __init__(self):
        self.__name__ = "psutil"

    def users(self):
        return []


class BuiltinsModule(types.ModuleType):
    """the module `builtins` as pieshell sees it; assignments stay in the world"""
    def __init__(self):
        types.ModuleType.__init__(self, "builtins")
        self.__dict__["open"] = simos.model_open
        self.__dict__["repr"] = base_repr

    def __getattr__(self, name):
        return getattr(_builtins, name)

    def __dir__(self):
        return dir(_builtins)


def base_repr(x):
    if eng.mode == "sym":
        from . import ops
        return ops.repr_of(x)
    return _real_repr(x)


_real_repr = _builtins.repr


def world_repr(x):
    """the builtin name `repr` inside loaded modules: whatever builtins.repr currently is"""
    b = eng.w.data.get("builtins")
    f = b.__dict__.get("repr", base_repr) if b is not None else base_repr
    if f is _real_repr:
        f = base_repr
    return f(x)


def make_fallbacks():
    version = "0.0"
    try:
        with _io.open(REPO + "/setup.py") as f:
            m = _re.search(r"VERSION\s*=\s*[\"']([^\"']+)", f.read())
        if m:
            version = m.group(1)
    except OSError:
        pass
    return "version = %r\n" % version


def entry_points():
    """the registered builtins, from setup.py"""
    out = []
    try:
        with _io.open(REPO + "/setup.py") as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Dict):
                for k, v in zip(node.keys, node.values):
                    if isinstance(k, ast.Constant) and k.value == "pieshell.builtin" and isinstance(v, ast.List):
                        for e in v.elts:
                            name, target = [s.strip() for s in e.value.split("=", 1)]
                            out.append((name, target))
    except OSError:
        pass
    return out


class EntryPoint(object):
    def __init__(self, name, target):
        self.name = name
        self.value = target
        self.group = "pieshell.builtin"

    def load(self):
        mod, attr = self.value.split(":")
        obj = eng.w.data["loader"].import_module(mod)
        for a in attr.split("."):
            obj = getattr(obj, a)
        return obj


class EntryPoints(dict):
    def select(self, group=None, **kw):
        return self.get(group, [])

    def get(self, k, d=()):
        return self[k] if k in self else d


class Resource(object):
    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d, self.data = (self.data, b"") if n is None or n < 0 else (self.data[:n], self.data[n:])
        return d

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class WorldLoader(object):
    def __init__(self, environ=None, signalfd=True, psutil=False, real=()):
        self.modules = {}
        self.environ = simos.Environ(environ or {"HOME": "/home/u", "PATH": "/bin"})
        self.osm = simos.OsModule(self.environ)
        self.use_signalfd = signalfd
        self.use_psutil = psutil
        m = self.modules
        m["os"] = m["posix"] = self.osm
        m["fcntl"] = simos.FcntlModule()
        m["select"] = simos.SelectModule()
        m["tempfile"] = simos.TempfileModule()
        m["resource"] = simos.ResourceModule()
        m["signal"] = simos.SignalModule()
        if signalfd:
            m["signalfd"] = simos.SignalfdModule()
        else:
            m["signalfd"] = None
        m["psutil"] = PsutilModel() if psutil else None
        m["slugify"] = Stub("slugify")
        m["slugify"].slugify = slugify_model
        m["pkg_resources"] = Stub("pkg_resources")
        m["pkg_resources"].resource_stream = self.resource
        im = Stub("importlib.metadata")
        im.entry_points = lambda **kw: (EntryPoints({"pieshell.builtin": [EntryPoint(*x) for x in entry_points()]})
                                        if not kw else [EntryPoint(*x) for x in entry_points()])
        top = Stub("importlib")
        top.metadata = im
        top.import_module = lambda name, package=None: self.import_module(name)
        m["importlib"] = top
        m["importlib.metadata"] = im
        m["readline"] = Stub("readline")
        for n in ("set_completer", "parse_and_bind", "read_history_file", "write_history_file"):
            setattr(m["readline"], n, lambda *a, _n=n: eng.w.data.setdefault("readline", []).append((_n,) + a))
        m["jedi"] = m["ptpython"] = m["jedi.utils"] = None
        m["logging"] = LoggingModel()
        m["sys"] = SysModule()
        m["atexit"] = AtexitModule()
        m["builtins"] = BuiltinsModule()
        m["io"] = IoModule()
        m["traceback"] = TracebackModule()
        m["code"] = CodeModule()
        from . import pickling
        m["copyreg"] = pickling.CopyregModule()
        m["pickle"] = pickling.PickleModule(self)
        m["pwd"] = Stub("pwd")

        class User(object):
            def __init__(self, name, home):
                self.pw_name = name
                self.pw_dir = home

        def getpwnam(name):
            for known, home in eng.w.data.get("users", {}).items():
                if len(name) == len(known) and bool(eq(name, known)):
                    return User(name, home)
            raise KeyError("no such user")

        def nouser(*a):
            raise KeyError("no such user")
        m["pwd"].getpwnam = getpwnam
        m["pwd"].getpwuid = nouser
        if eng.mode == "sym":
            from . import rx
            m["re"] = rx.module
            m["fnmatch"] = FnmatchModel()
            m["keyword"] = KeywordModel()
        for n in real:
            m.pop(n, None)
        eng.w.data["modules"] = m
        eng.w.data["builtins"] = m["builtins"]
        eng.w.data["loader"] = self
        self.osm.path = self.import_module("posixpath")
        m["os.path"] = self.osm.path

    def resource(self, pkg, path):
        """the file in the package, or what the scenario put in its place"""
        data = eng.w.data.get("resources", {}).get((pkg, path))
        if data is None:
            if path.endswith(".md"):
                data = b"README"
            else:
                with _io.open(_os.path.join(REPO, *(pkg.split(".") + path.split("/"))), "rb") as f:
                    data = f.read()
        return Resource(data)

    # ---------------------------------------------------------------- importing
    def find(self, name):
        if name in STDLIB_MODULES:
            return _os.path.join(stdlib_dir(), name + ".py"), False
        base = _os.path.join(REPO, *name.split("."))
        if _os.path.isdir(base) and _os.path.exists(base + "/__init__.py"):
            return base + "/__init__.py", True
        if _os.path.exists(base + ".py") or name == "pieshell.version":
            return base + ".py", False
        return None, False

    def mine(self, name):
        return name in STDLIB_MODULES or name == "pieshell" or name.startswith("pieshell.")

    def import_module(self, name):
        m = self.modules
        if name in m:
            if m[name] is None:
                raise ImportError("No module named %r" % name, name=name)
            return m[name]
        if not self.mine(name):
            return importlib.import_module(name)
        if "." in name:
            parent = self.import_module(name.rpartition(".")[0])
            if name in m:
                return m[name]
        path, ispkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        mod = types.ModuleType(name)
        g = mod.__dict__
        g["__file__"] = path
        g["__package__"] = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            g["__path__"] = [_os.path.dirname(path)]
        g["open"] = simos.model_open
        g["repr"] = world_repr
        g["print"] = lambda *a, **kw: None
        if eng.mode == "sym":
            from . import ops
            g["__sx__"] = ops.hooks
        m[name] = mod
        code = code_for(path, name, make_fallbacks() if name == "pieshell.version" else None)
        try:
            exec(code, g)
        except BaseException:
            m.pop(name, None)
            raise
        if "." in name:
            parent = m[name.rpartition(".")[0]]
            setattr(parent, name.rpartition(".")[2], mod)
        return mod

    def do_import(self, name, globals, locals, fromlist, level):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        if name == "os.path":
            mod = self.modules.get("os.path") or self.import_module("posixpath")
            return mod if fromlist else self.osm
        root = name.split(".")[0]
        if not self.mine(name) and name not in self.modules and root not in self.modules:
            return _real_import(name, {"__name__": "sx_plain"}, None, fromlist, 0)
        if not self.mine(name) and name not in self.modules:
            # submodule of a modelled package
            if self.modules[root] is None:
                raise ImportError("No module named %r" % name, name=name)
            return _real_import(name, {"__name__": "sx_plain"}, None, fromlist, 0)
        mod = self.import_module(name)
        if not fromlist:
            return self.import_module(root)
        if isinstance(mod, types.ModuleType) and hasattr(mod, "__path__"):
            for f in fromlist:
                if f != "*" and not hasattr(mod, f):
                    try:
                        self.import_module(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            # a submodule that is still being loaded, as IMPORT_FROM finds it in sys.modules
            part = {f: self.modules[name + "." + f] for f in fromlist
                    if f != "*" and not hasattr(mod, f) and name + "." + f in self.modules}
            if part:
                for f in fromlist:
                    if hasattr(mod, f):
                        part[f] = getattr(mod, f)
                return types.SimpleNamespace(**part)
        return mod


_real_import = _builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if globals is not None and eng.w is not None:
        if type(globals) is not dict and type(globals).__module__ == "pieshell.environ":
            # executed by a console of the world
            return eng.w.data["loader"].do_import(name, {"__name__": "__console__", "__package__": ""}, locals, fromlist, level)
        n = globals.get("__name__")
        if isinstance(n, str) and (n == "pieshell" or n.startswith("pieshell.") or n in STDLIB_MODULES):
            f = globals.get("__file__", "")
            if "repr" in globals and globals.get("repr") is world_repr:
                return eng.w.data["loader"].do_import(name, globals, locals, fromlist, level)
    return _real_import(name, globals, locals, fromlist, level)


def install():
    _builtins.__import__ = _import
    simloop.install()
    warnings.simplefilter("ignore")
    _logging.disable(_logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
