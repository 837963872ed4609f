"""What the checks are written against: scenarios, the world a scenario runs in, small programs."""
import errno
import asyncio
import os as _os
import time

from .engine import (eng, EngineSignal, Hang, Unsupported, ViolationFound, and_, or_, not_, implies, ite, eq, is_sym)
from . import simos, simloop, load

SCENARIOS = {}


class Scenario(object):
    def __init__(self, prop, name, fn, bounds, covers, tier, finding, budget, args):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.covers = tuple(covers)
        self.tier = tier
        self.finding = finding
        self.budget = budget
        self.args = args

    def harness(self, e):
        simloop.reset_thread()
        t = T(e)
        try:
            self.fn(t, *self.args)
        except EngineSignal:
            raise
        except Exception as x:
            where = raised_by(x)
            if where is None or e.w.target or e.signal is not None:
                raise
            # not within attempt() or call(): nothing the scenario expects to fail
            e.fail("%s raises %s: %s" % (where, type(x).__name__, show(x)))
        t.done()


def raised_by(x):
    """the function of the code under test that was left by an exception; None if it may be another's (an attribute the harness expects
    to be there, or the engine's)"""
    if isinstance(x, (MemoryError, AssertionError)) or type(x).__name__ in ("EngineError", "Unsupported"):
        return None
    root = _os.path.join(load.REPO, "pieshell") + _os.sep
    tb, last, entry = x.__traceback__, None, None
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(root):
            last = code.co_name
            entry = entry or last
        tb = tb.tb_next
    return None if last in (None, "__getattr__", "__getattribute__") else entry


def scenario(prop, name=None, bounds="", covers=(), tier="quick", finding=None, budget=None, args=()):
    """Registers fn(t, *args).  `covers` are labels that some feasible path has to reach."""
    def deco(fn):
        n = name or fn.__name__
        key = (prop, n)
        assert key not in SCENARIOS, key
        SCENARIOS[key] = Scenario(prop, n, fn, bounds or (fn.__doc__ or "").strip(), covers, tier, finding, budget,
                                  args)
        return fn
    return deco


class Outcome(object):
    def __init__(self, kind, value=None):
        self.kind = kind            # ok, exc, hang
        self.value = value

    @property
    def ok(self):
        return self.kind == "ok"

    @property
    def hung(self):
        return self.kind == "hang"

    def __repr__(self):
        return "%s(%s)" % (self.kind, type(self.value).__name__)


class T(object):
    """One run of a scenario in one world."""

    def __init__(self, e):
        self.e = e
        self.k = None
        self.ps = None
        self.loader = None

    # ---------------------------------------------------------------- inputs (see Engine)
    def int(self, *a, **kw):
        return eng.int(*a, **kw)

    def bool(self, name):
        return eng.bool(name)

    def str(self, *a, **kw):
        return eng.str(*a, **kw)

    def bytes(self, *a, **kw):
        return eng.bytes(*a, **kw)

    def choose(self, name, n):
        return eng.choose(name, n)

    def pick(self, name, seq):
        return eng.pick(name, seq)

    def flag(self, name):
        """a concrete boolean on each path"""
        return eng.choose(name, 2) == 1

    def assume(self, c):
        eng.assume(c)

    def cover(self, label):
        eng.cover(label)

    def note(self, k, v):
        eng.note(k, v)

    # ---------------------------------------------------------------- the world
    def kernel(self, **kw):
        self.k = eng.w.kernel = simos.Kernel(**kw)
        return self.k

    def boot(self, environ=None, exports=None, cwd="/w", signalfd=True, psutil=False, interactive=False, env=True,
             real=(), modules={}, **kw):
        """a fresh interpreter that has imported pieshell"""
        if self.k is None:
            self.kernel(**kw)
        self.loader = load.WorldLoader(environ, signalfd=signalfd, psutil=psutil, real=real)
        self.loader.modules.update(modules)
        try:
            self.ps = self.loader.import_module("pieshell")
        except OSError as e:
            if e.errno != errno.EBADF:                  # others can come from files the model does not have
                raise
            self.fail("the shell cannot be started: %s" % e)
        self.redir = self.loader.import_module("pieshell.redir")
        self.environ = self.loader.import_module("pieshell.environ")
        self.pipeline = self.loader.import_module("pieshell.pipeline")
        self.running = self.loader.import_module("pieshell.pipeline.running")
        if env:
            kw = {}
            if exports is not None:
                kw["exports"] = exports
            elif environ is None:
                kw["exports"] = {"HOME": "/home/u", "PATH": "/bin"}
            self.env = self.environ.Environment(cwd=cwd, interactive=interactive, **kw)
        return self

    def mod(self, name):
        return self.loader.import_module("pieshell." + name)

    def prog(self, name, gen):
        self.k.programs[name] = gen

    # ---------------------------------------------------------------- calls into the code under test
    def attempt(self, f, *a, **kw):
        """Calls f; the outcome says whether it returned, raised or waits for ever."""
        try:
            r = Outcome("ok", f(*a, **kw))
        except Hang as h:
            eng.signal = None
            r = Outcome("hang", h)
        except EngineSignal:
            raise
        except BaseException as x:
            if isinstance(x, (MemoryError, AssertionError)) and _engine_frame(x):
                raise
            if eng.signal is not None and not isinstance(eng.signal, Hang):
                raise eng.signal
            r = Outcome("exc", x)
            if isinstance(eng.signal, Hang):
                r = Outcome("hang", eng.signal)
                eng.signal = None
        else:
            if isinstance(eng.signal, Hang):
                r = Outcome("hang", eng.signal)
                eng.signal = None
            elif eng.signal is not None:
                raise eng.signal
        self.check_escape(r)
        return r

    def check_escape(self, r=None):
        k = eng.w.kernel
        if k is not None and k.cur != k.root_pid:
            if r is not None:
                eng.w.data["escape_info"] = repr(r)
            k.on_escape()

    def call(self, f, what="the call", *a, **kw):
        """f has to return normally"""
        r = self.attempt(f, *a, **kw)
        if r.hung:
            eng.fail("%s never ends (%s)" % (what, r.value))
        if not r.ok:
            import traceback
            tb = "".join(traceback.format_exception(type(r.value), r.value, r.value.__traceback__)[-3:])
            eng.w.data["tb"] = tb
            eng.fail("%s raises %s: %s" % (what, type(r.value).__name__, show(r.value)))
        return r.value

    def raises(self, f, exc, what="the call"):
        r = self.attempt(f)
        if r.hung:
            eng.fail("%s never ends" % what)
        if r.ok:
            eng.fail("%s raises no error" % what)
        if not isinstance(r.value, exc):
            eng.fail("%s raises %s: %s" % (what, type(r.value).__name__, show(r.value)))
        return r.value

    def prove(self, c, msg):
        eng.prove(c, msg)

    def fail(self, msg):
        eng.fail(msg)

    @property
    def loop(self):
        return asyncio.get_event_loop_policy().get_event_loop()

    def run(self, coro, what="the wait"):
        return self.call(lambda: self.loop.run_until_complete(coro), what)

    def spin(self, n=1):
        """n iterations of the event loop without waiting"""
        def go():
            for _ in range(n):
                self.loop.call_soon(self.loop.stop)
                self.loop.run_forever()
        return self.call(go, "the event loop")

    def settle(self, rounds=60):
        """everything that can happen without further input happens"""
        k = self.k
        idle = 0
        for _ in range(rounds):
            before = (k.steps, len(k.wait_log))
            k.run_all()
            self.spin(1)
            if (k.steps, len(k.wait_log)) == before and not self.loop._ready:
                idle += 1
                if idle > 3:
                    return
            else:
                idle = 0

    def display(self, x, what="displaying"):
        """as the prompt does"""
        return load.base_repr(x)

    def repr(self, x):
        """the builtin function repr, as code in this interpreter sees it"""
        return load.world_repr(x)

    def loop_errors(self):
        return self.loop.errors

    # ---------------------------------------------------------------- looking at the modelled system
    def started(self, name=None):
        """processes that executed a program, in order of creation"""
        ps = [p for p in sorted(self.k.procs.values(), key=lambda p: p.pid) if p.execd]
        if name is not None:
            ps = [p for p in ps if p.name == name]
        return ps

    def one(self, name):
        ps = self.started(name)
        if len(ps) != 1:
            eng.fail("program %s was started %d times" % (name, len(ps)))
        return ps[0]

    def children(self):
        return [p for p in sorted(self.k.procs.values(), key=lambda p: p.pid) if p.pid != self.k.root_pid]

    def done(self):
        self.check_escape()


def _engine_frame(x):
    tb = x.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last is not None and "/sx/" in last.tb_frame.f_code.co_filename


def code(c):
    """the code point of a character"""
    if type(c) is str:
        return ord(c)
    from .ops import _ord
    return _ord(c)


def attr(obj, name):
    """getattr with a name that may be symbolic"""
    if type(name) is str:
        return getattr(obj, name)
    from .ops import _getattr
    return _getattr(obj, name)


def has_attr(obj, name):
    try:
        attr(obj, name)
    except AttributeError:
        eng.guard()
        return False
    return True


def byte(x):
    """bytes with the one number x"""
    if type(x) is int:
        return bytes([x])
    from .values import mk_bytes, ex
    return mk_bytes([ex(x)])


def show(x):
    try:
        return str(x)[:300]
    except BaseException:
        return "?"


# ---------------------------------------------------------------------------------------- programs

def emit(data, code=0, fd=1):
    def prog(k, p):
        yield ("write", fd, data)
        return code
    return prog


def emits(chunks, code=0):
    """chunks: data for stdout, or (fd, data)"""
    def prog(k, p):
        for c in chunks:
            if isinstance(c, tuple):
                yield ("write", c[0], c[1])
            else:
                yield ("write", 1, c)
        return code
    return prog


def exits(code):
    def prog(k, p):
        return code
        yield
    return prog


def killed(sig, core=False):
    return exits(("signal", sig, core))


def cat(k, p):
    while True:
        d = yield ("read", 0, 65536)
        if isinstance(d, OSError):
            return 1
        if len(d) == 0:
            return 0
        e = yield ("write", 1, d)
        if isinstance(e, OSError):
            return 1


def sink(k, p):
    while True:
        d = yield ("read", 0, 65536)
        if isinstance(d, OSError):
            return 1
        if len(d) == 0:
            return 0


def forever(k, p):
    yield ("never",)


def endless(k, p):
    """writes until it gets a broken pipe"""
    while True:
        yield ("write", 1, b"y\n" * 2048)
