"""The real asyncio event loop machinery on a selector that asks the kernel model."""
import asyncio
import asyncio.selector_events
import errno as E
import selectors
import threading

from .engine import eng, Unsupported, EngineSignal
from .simos import oserr


class SimSelector(selectors.BaseSelector):
    """behaves like EpollSelector: registrations belong to the open file description"""

    def __init__(self, pid=None):
        k = eng.w.kernel
        self.pid = k.cur
        self.keys = {}      # fd -> SelectorKey
        self.ep = []        # [fd, events, id of the open file description]: the epoll set

    def _find(self, fd):
        k = eng.w.kernel
        e = k.me.fds.find(fd)
        if e is None:
            k.closed_uses.append((k.cur, fd))
            raise oserr(E.EBADF)
        return e[1]

    def _drop_dead(self):
        k = eng.w.kernel
        self.ep = [r for r in self.ep if k.holders(k.ofds[r[2]])]

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else int(fileobj.fileno())
        if fd < 0:
            raise ValueError("Invalid file descriptor: {}".format(fd))
        if fd in self.keys:
            raise KeyError("{!r} (FD {}) is already registered".format(fileobj, fd))
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.keys[fd] = key
        try:
            o = self._find(fd)
            if o.kind == "node" and o.obj.kind in ("file", "null", "dir"):
                raise oserr(E.EPERM)
            self._drop_dead()
            for r in self.ep:
                if r[0] == fd and r[2] == o.id:
                    raise oserr(E.EEXIST)
            self.ep.append([fd, events, o.id])
        except BaseException:
            del self.keys[fd]
            raise
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else int(fileobj.fileno())
        if fd not in self.keys:
            raise KeyError("{!r} is not registered".format(fileobj))
        key = self.keys.pop(fd)
        k = eng.w.kernel
        e = k.me.fds.find(fd)
        if e is not None:
            self.ep = [r for r in self.ep if not (r[0] == fd and r[2] == e[1].id)]
        return key

    def modify(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else int(fileobj.fileno())
        if fd not in self.keys:
            raise KeyError("{!r} is not registered".format(fileobj))
        key = self.keys[fd]
        if events != key.events:
            try:
                o = self._find(fd)
                for r in self.ep:
                    if r[0] == fd and r[2] == o.id:
                        r[1] = events
                        break
                else:
                    raise oserr(E.ENOENT)
            except OSError:
                self.unregister(fileobj)
                raise
        key = key._replace(events=events, data=data)
        self.keys[fd] = key
        return key

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else int(fileobj.fileno())
        try:
            return self.keys[fd]
        except KeyError:
            raise KeyError("{!r} is not registered".format(fileobj)) from None

    def get_map(self):
        return self.keys

    def close(self):
        self.keys = {}
        self.ep = []

    def select(self, timeout=None):
        if eng.signal is not None:
            raise eng.signal
        self._drop_dead()
        k = eng.w.kernel
        ready = k.poll([(r[0], r[1], k.ofds[r[2]]) for r in self.ep], timeout)
        out = []
        for fd, ev in ready:
            if isinstance(fd, tuple):
                signo = fd[1]
                p = k.rootp
                p.pending = [x for x in p.pending if x != signo]
                h = k.sighandlers.get(signo)
                if h is not None:
                    out.append(("signal", h))
                continue
            key = self.keys.get(fd)
            if key:
                ev &= key.events
                if ev:
                    out.append((key, ev))
        return out


class SimLoop(asyncio.selector_events.BaseSelectorEventLoop):
    def __init__(self):
        super().__init__(SimSelector())
        self.slow_callback_duration = 1e9
        self.errors = []
        self.set_exception_handler(self._record)

    def _record(self, loop, context):
        self.errors.append((context.get("message"), context.get("exception")))

    def _make_self_pipe(self):
        self._internal_fds = 0
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        rest = []
        for key, mask in event_list:
            if key == "signal":
                self._add_callback_signalsafe_(mask)
            else:
                rest.append((key, mask))
        super()._process_events(rest)

    def _add_callback_signalsafe_(self, handle):
        cb, args = handle
        self.call_soon(cb, *args)

    def add_signal_handler(self, sig, callback, *args):
        eng.w.kernel.sighandlers[int(sig)] = (callback, args)

    def remove_signal_handler(self, sig):
        return eng.w.kernel.sighandlers.pop(int(sig), None) is not None

    def time(self):
        return eng.w.kernel.time

    def run_in_executor(self, executor, func, *args):
        eng._raise(Unsupported("run_in_executor"))

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)


class Policy(asyncio.DefaultEventLoopPolicy):
    """get_event_loop() behaves as in the runtime in use: creates one in the main thread"""

    def __init__(self):
        super().__init__()
        self._tl = threading.local()

    def new_event_loop(self):
        if eng.w is None:
            eng._raise(Unsupported("event loop outside of a run"))
        return SimLoop()

    def get_event_loop(self):
        loop = getattr(self._tl, "loop", None)
        if loop is None:
            loop = self._tl.loop = SimLoop()
        return loop

    def set_event_loop(self, loop):
        self._tl.loop = loop

    def get_child_watcher(self):
        eng._raise(Unsupported("asyncio child watchers"))


def install():
    asyncio.set_event_loop_policy(Policy())


def reset_thread():
    """forget the loop of this thread (start of a world)"""
    pol = asyncio.get_event_loop_policy()
    pol._tl.loop = None
    asyncio._set_running_loop(None)
