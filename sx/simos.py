"""A model of the operating system the code under test runs on: processes, descriptor tables, open file
descriptions, pipes, a small file tree, signals and wait statuses.  It follows POSIX/Linux and the documented
behaviour of the functions of Python's `os` module.  Values (descriptor numbers, bytes, names, statuses) may be
symbolic; everything here also runs on plain values (replay).

All state lives in the Kernel object: when a forked child world ends, the parent world adopts the child's kernel.
"""
import asyncio as _asyncio
import errno as E
import os as _os
import select as _select
import signal as _signal
import stat as _stat

from .engine import eng, Hang, Unsupported, WorldEnd, and_, or_, not_, ite, eq

PIPE_CAP = 65536
PIPE_BUF = 4096
SIGCHLD, SIGTSTP, SIGCONT, SIGSTOP, SIGKILL, SIGTERM, SIGPIPE, SIGINT = (
    int(_signal.SIGCHLD), int(_signal.SIGTSTP), int(_signal.SIGCONT), int(_signal.SIGSTOP), int(_signal.SIGKILL),
    int(_signal.SIGTERM), int(_signal.SIGPIPE), int(_signal.SIGINT))
STOPPERS = (int(_signal.SIGSTOP), int(_signal.SIGTSTP), int(_signal.SIGTTIN), int(_signal.SIGTTOU))


def oserr(code, *path):
    return OSError(code, _os.strerror(code), *path)


def same(a, b):
    """branching equality"""
    r = eq(a, b)
    return r if r is True or r is False else bool(r)


class Pipe(object):
    def __init__(self, id):
        self.id = id
        self.buf = b""
        self.total = b""


class Node(object):
    """inode"""
    count = 0

    def __init__(self, kind, data=b"", name=None):
        self.kind = kind            # dir, file, null, tty, fifo
        self.data = data
        self.entries = []           # dir: [(name, node)]
        self.name = name
        self.perm_exec = False
        self.unreadable = False
        self.target = None          # symlink target
        self.parent = None
        Node.count += 1
        self.ino = Node.count


class OFD(object):
    def __init__(self, id, kind, obj, flags=0):
        self.id = id
        self.kind = kind            # pr, pw, node, ext, sigfd
        self.obj = obj
        self.flags = flags
        self.pos = 0
        self.label = None
        self.path = None
        self.mode = None

    def __repr__(self):
        return "<OFD %s %s %s>" % (self.id, self.kind, self.label or "")


class FdTable(object):
    """fd -> (OFD, cloexec); descriptor numbers may be symbolic"""
    def __init__(self, entries=()):
        self.ent = [list(e) for e in entries]

    def find(self, fd):
        for e in self.ent:
            if e[0] is fd:
                return e
        for e in self.ent:
            if same(e[0], fd):
                return e
        return None

    def copy(self):
        return FdTable(self.ent)

    def remove(self, e):
        self.ent = [x for x in self.ent if x is not e]

    def as_dict(self):
        return {e[0]: e[1] for e in self.ent}


class Proc(object):
    def __init__(self, pid, ppid):
        self.pid = pid
        self.ppid = ppid
        self.fds = FdTable()
        self.cwd = "/w"
        self.state = "run"          # run, stop, zombie, reaped
        self.status = None          # wait status word when zombie
        self.note_stop = None       # pending stop notification (status word)
        self.note_cont = False
        self.pending = []           # pending signals (root)
        self.siginfo = {}
        self.prog = None            # what it runs: prog(kernel, proc) is a generator of operations
        self.gen = None             # created on demand, by replaying `sends`
        self.sends = []
        self.op = None
        self.send = None
        self.argv = None
        self.env = None
        self.name = None
        self.exec_fds = None        # descriptor table at exec time: {fd: OFD}
        self.got = {}               # bytes read per descriptor (for oracles)
        self.execd = False
        self.sigmask = []
        self.ended_how = None
        self.user = {}

    def __repr__(self):
        return "<Proc %s %s %s>" % (self.pid, self.name, self.state)


class Kernel(object):
    def __init__(self, maxfd=24, stdfds=(0, 1, 2)):
        self.maxfd = maxfd
        self.procs = {}
        self.next_pid = 1001
        self.next_ofd = 1
        self.next_pipe = 1
        self.next_tmp = 0
        self.pipes = {}
        self.ofds = {}
        self.programs = {}
        self.kill_log = []
        self.wait_log = []
        self.trace = []
        self.escaped = []
        self.faults = None
        self.epipes = []                # writes to a pipe without a reader: (process, pipe)
        self.sched_budget = 0
        self.sched_used = 0
        self.chunk_budget = 0
        self.policy = "lazy"
        self.external = []          # external events: functions (kernel) -> None, each usable once
        self.blocked_calls = []
        self.closed_uses = []
        self.poison = False         # whatever the caller closes gets a new meaning at once
        self.close_log = []
        self.opened = []
        self.time = 0.0
        self.short_writes = 0
        self.steps = 0
        self.loop_pending = {}
        self.progress = 0           # counts whatever changes the state of the system
        self.idle = [0, 0]          # progress at the last poll, polls since without any
        self.sighandlers = {}
        self.waitpid_choice = False
        self.ready_order_choice = False
        self.root = Node("dir")
        self.root.parent = self.root
        for d in ("/w", "/tmp", "/dev", "/home", "/home/u", "/bin"):
            self.mkdir_p(d)
        self.add_node("/dev/null", Node("null"))
        p = Proc(1000, 1)
        self.procs[1000] = p
        self.cur = 1000
        self.root_pid = 1000
        for fd in stdfds:
            o = self.new_ofd("ext", None)
            o.label = "ext%d" % fd
            p.fds.ent.append([fd, o, False])

    # ---------------------------------------------------------------- helpers
    @property
    def me(self):
        return self.procs[self.cur]

    @property
    def rootp(self):
        return self.procs[self.root_pid]

    def new_ofd(self, kind, obj, flags=0):
        o = OFD(self.next_ofd, kind, obj, flags)
        self.next_ofd += 1
        self.ofds[o.id] = o
        return o

    def lowest(self, start=0):
        n = start
        while n < self.maxfd:
            if self.me.fds.find(n) is None:
                return n
            n += 1
        raise oserr(E.EMFILE)

    def need(self, fd):
        if isinstance(fd, bool) or not (isinstance(fd, int) or getattr(type(fd), "realtype", None) is int):
            raise TypeError("an integer is required (got type %s)" % type(fd).__name__)
        e = self.me.fds.find(fd)
        if e is None:
            self.closed_uses.append((self.cur, fd))
            raise oserr(E.EBADF)
        if e[1].kind == "poison" and self.cur == self.root_pid:
            eng.fail("a descriptor number is used after it has been closed")
        return e

    def install(self, ofd, cloexec=True, start=0):
        fd = self.lowest(start)
        self.me.fds.ent.append([fd, ofd, cloexec])
        return fd

    def holders(self, ofd):
        out = []
        for p in self.procs.values():
            if p.state in ("run", "stop"):
                for e in p.fds.ent:
                    if e[1] is ofd:
                        out.append((p.pid, e[0]))
        return out

    def pipe_end_open(self, pipe, kind):
        for p in self.procs.values():
            if p.state in ("run", "stop"):
                for e in p.fds.ent:
                    if e[1].kind == kind and e[1].obj is pipe:
                        return True
        return False

    # ---------------------------------------------------------------- file tree
    def mkdir_p(self, path):
        node = self.root
        for c in [c for c in path.split("/") if c]:
            nxt = self._entry(node, c)
            if nxt is None:
                nxt = Node("dir")
                nxt.parent = node
                nxt.name = c
                node.entries.append((c, nxt))
            node = nxt
        return node

    def add_node(self, path, node):
        d, _, base = path.rpartition("/")
        parent = self.mkdir_p(d)
        parent.entries = [(n, x) for n, x in parent.entries if not same(n, base)]
        parent.entries.append((base, node))
        node.parent = parent
        node.name = base
        return node

    def add_file(self, path, data=b""):
        return self.add_node(path, Node("file", data))

    def add_dir(self, path):
        return self.add_node(path, Node("dir"))

    def add_entry(self, dirpath, name, node):
        d = self.mkdir_p(dirpath) if isinstance(dirpath, str) else dirpath
        d.entries.append((name, node))
        node.parent = d
        node.name = name
        return node

    def _entry(self, node, name):
        for n, x in node.entries:
            if len(n) == len(name) and same(n, name):
                return x
        return None

    def path_of(self, path):
        if isinstance(path, _os.PathLike):
            path = path.__fspath__()
        if isinstance(path, bytes) or getattr(type(path), "realtype", None) is bytes:
            path = path.decode("utf-8", "surrogateescape")
        if not (isinstance(path, str) or getattr(type(path), "realtype", None) is str):
            raise TypeError("path should be string, bytes or os.PathLike, not %s" % type(path).__name__)
        if "\0" in path if isinstance(path, str) else bool(path.contains("\0")):
            raise ValueError("embedded null byte")
        return path

    def new_entry(self, path):
        """the directory and name of something to be made, which is not there yet"""
        d, name = self.lookup(path, parent=True)
        if same(name, "") or same(name, ".") or same(name, "..") or self._entry(d, name) is not None:
            raise oserr(E.EEXIST, path)
        return d, name

    def lookup(self, path, follow=True, parent=False, base=None, depth=0):
        """node, or (parent node, last component) with parent=True; raises OSError"""
        path = self.path_of(path)
        if len(path) == 0:
            raise oserr(E.ENOENT, path)
        if same(path[0:1], "/"):
            node = self.root
        else:
            node = base if base is not None else self.cwd_node()
        if depth > 40:
            raise oserr(E.ELOOP, path)
        comps = [c for c in path.split("/")]
        comps = [c for c in comps if len(c) != 0]
        if parent:
            if not comps:
                return node, ""
            last = comps[-1]
            comps = comps[:-1]
        for i, c in enumerate(comps):
            if node.kind != "dir":
                raise oserr(E.ENOTDIR, path)
            if len(c) > 255:
                raise oserr(E.ENAMETOOLONG, path)
            if same(c, "."):
                continue
            if same(c, ".."):
                node = node.parent or node
                continue
            nxt = self._entry(node, c)
            if nxt is None:
                raise oserr(E.ENOENT, path)
            if nxt.kind == "link" and (follow or i < len(comps) - 1):
                nxt = self.lookup(nxt.target, base=node, depth=depth + 1)
            node = nxt
        if not parent and len(path) > 1 and node.kind != "dir" and same(path[len(path) - 1:], "/"):
            raise oserr(E.ENOTDIR, path)
        if parent:
            if node.kind != "dir":
                raise oserr(E.ENOTDIR, path)
            return node, last
        return node

    def cwd_node(self):
        n = self.me.cwd
        if isinstance(n, Node):
            return n
        return self.lookup(n)

    # ---------------------------------------------------------------- faults
    def fault(self, call):
        f = self.faults
        if f is not None:
            f(self, call)

    # ---------------------------------------------------------------- descriptors
    def sys_open(self, path, flags, mode=0o777, cloexec=True):
        self.fault("open")
        p = self.path_of(path)
        node = None
        if isinstance(p, str) and p.startswith("/dev/fd/") and p[8:].isdigit():
            e = self.need(int(p[8:]))
            return self.install(e[1], cloexec)
        try:
            node = self.lookup(p, follow=not (flags & _os.O_CREAT and flags & _os.O_EXCL))
        except FileNotFoundError:
            if not flags & _os.O_CREAT:
                raise
        if node is None:
            d, name = self.lookup(p, parent=True)
            if same(p[len(p) - 1:], "/") or len(name) == 0 or same(name, ".") or same(name, ".."):
                raise oserr(E.EISDIR, p)
            link = self._entry(d, name)
            hops = 0
            while link is not None:
                # a link to something that is not there: that is made
                if flags & _os.O_EXCL:
                    raise oserr(E.EEXIST, p)
                hops += 1
                if link.kind != "link" or hops > 40:
                    raise oserr(E.ELOOP, p)
                d, name = self.lookup(link.target, parent=True, base=d)
                link = self._entry(d, name)
            node = Node("file")
            node.parent = d
            node.name = name
            node.created_mode = mode
            d.entries.append((name, node))
        elif flags & _os.O_CREAT and flags & _os.O_EXCL:
            raise oserr(E.EEXIST, p)
        if node.kind == "dir" and flags & (_os.O_WRONLY | _os.O_RDWR | _os.O_CREAT):
            raise oserr(E.EISDIR, p)
        if flags & getattr(_os, "O_DIRECTORY", 0) and node.kind != "dir":
            raise oserr(E.ENOTDIR, p)
        if node.unreadable:
            raise oserr(E.EACCES, p)
        if flags & _os.O_TRUNC and node.kind == "file":
            node.data = b""
        o = self.new_ofd("node", node, flags)
        o.path = p
        o.mode = mode
        o.label = p
        fd = self.install(o, cloexec)
        self.opened.append((self.cur, p, flags, mode))
        return fd

    def sys_close(self, fd):
        e = self.me.fds.find(fd)
        if isinstance(fd, bool) or not (isinstance(fd, int) or getattr(type(fd), "realtype", None) is int):
            raise TypeError("an integer is required (got type %s)" % type(fd).__name__)
        if e is None:
            self.close_log.append((self.cur, fd, None))
            self.closed_uses.append((self.cur, fd))
            raise oserr(E.EBADF)
        if e[1].kind == "poison" and self.cur == self.root_pid:
            eng.fail("a descriptor number is closed although it belongs to something else by now")
        self.progress += 1
        self.close_log.append((self.cur, fd, e[1].id))
        self.me.fds.remove(e)
        if self.poison and self.cur == self.root_pid:
            # the number is in use for something else right away
            o = self.new_ofd("poison", None)
            self.me.fds.ent.append([fd, o, True])

    def sys_dup(self, fd, cloexec=True, start=0):
        self.fault("dup")
        e = self.need(fd)
        return self.install(e[1], cloexec, start)

    def sys_dup2(self, fd, fd2, inheritable=True):
        self.fault("dup2")
        if not inheritable and fd == fd2:
            raise oserr(E.EINVAL)
        e = self.need(fd)
        if isinstance(fd2, bool) or not (isinstance(fd2, int) or getattr(type(fd2), "realtype", None) is int):
            raise TypeError("an integer is required")
        bad = or_(fd2 < 0, fd2 >= self.maxfd)
        if bad:
            raise oserr(E.EBADF)
        e2 = self.me.fds.find(fd2)
        if e2 is e:
            e[2] = not inheritable
            return fd2
        if e2 is not None:
            self.me.fds.remove(e2)
        self.me.fds.ent.append([fd2, e[1], not inheritable])
        return fd2

    def sys_pipe(self, cloexec=True):
        self.fault("pipe")
        p = Pipe(self.next_pipe)
        self.next_pipe += 1
        self.pipes[p.id] = p
        r = self.new_ofd("pr", p, _os.O_RDONLY)
        w = self.new_ofd("pw", p, _os.O_WRONLY)
        r.label = "pipe%d:r" % p.id
        w.label = "pipe%d:w" % p.id
        rfd = self.install(r, cloexec)
        try:
            wfd = self.install(w, cloexec)
        except OSError:
            self.me.fds.remove(self.me.fds.find(rfd))
            raise
        return rfd, wfd

    def readable(self, o):
        if o.kind == "pr":
            return len(o.obj.buf) > 0 or not self.pipe_end_open(o.obj, "pw")
        if o.kind == "sigfd":
            return any(s in o.obj for s in self.me.pending)
        if o.kind == "pw":
            return False
        if o.kind == "ext":
            return len(o.obj.data) > o.pos if o.obj is not None else True       # end of input
        return True

    def writable(self, o):
        if o.kind == "pw":
            return PIPE_CAP - len(o.obj.buf) >= PIPE_BUF or not self.pipe_end_open(o.obj, "pr")
        if o.kind in ("pr", "sigfd"):
            return False
        return True

    def block(self, cond, what):
        """the current (caller) process blocks in a system call until cond()"""
        first = True
        while not cond():
            if first and self.cur == self.root_pid:
                self.blocked_calls.append(what)
                first = False
            if self.cur != self.root_pid:
                eng._raise(Unsupported("a forked process blocks in %s before it is done" % what))
            if not self.step_any():
                eng._raise(Hang("blocked for ever in %s" % what))

    def sys_read(self, fd, n):
        self.fault("read")
        e = self.need(fd)
        data = self.do_read(e[1], n, chunk=self.cur == self.root_pid)
        if len(data):
            self.progress += 1
        return data

    def do_read(self, o, n, chunk=False):
        if o.flags & _os.O_WRONLY and o.kind == "node":
            raise oserr(E.EBADF)
        if o.kind == "pw":
            raise oserr(E.EBADF)
        if o.kind == "sigfd":
            eng._raise(Unsupported("read of a signalfd as bytes"))
        if o.kind == "pr":
            if not self.readable(o):
                if o.flags & _os.O_NONBLOCK:
                    raise oserr(E.EAGAIN)
                self.block(lambda: self.readable(o), "read")
            p = o.obj
            avail = len(p.buf)
            k = min(int(n), avail)
            if chunk and k > 1 and self.chunk_budget > 0:
                self.chunk_budget -= 1
                # any non-empty prefix may be what the system hands out
                k = 1 + eng.choose("chunk", k)
            data, p.buf = p.buf[:k], p.buf[k:]
            return data
        if o.kind == "ext":
            if o.obj is None:
                return b""
            data = o.obj.data[o.pos:o.pos + n]
            o.pos += len(data)
            return data
        node = o.obj
        if node.kind == "dir":
            raise oserr(E.EISDIR)
        if node.kind == "null":
            return b""
        data = node.data[o.pos:o.pos + n]
        o.pos += len(data)
        return data

    def sys_write(self, fd, data):
        self.fault("write")
        if isinstance(data, str) or getattr(type(data), "realtype", None) is str:
            raise TypeError("a bytes-like object is required, not 'str'")
        if not (isinstance(data, (bytes, bytearray, memoryview)) or getattr(type(data), "realtype", None) is bytes):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        e = self.need(fd)
        n = self.do_write(e[1], data, self.cur == self.root_pid)
        self.progress += 1
        return n

    def do_write(self, o, data, root=False):
        if o.kind in ("pr", "sigfd"):
            raise oserr(E.EBADF)
        n = len(data)
        if o.kind == "pw":
            p = o.obj
            if not self.pipe_end_open(p, "pr"):
                self.epipes.append((self.cur, p.id))
                raise oserr(E.EPIPE)
            if n == 0:
                return 0
            space = PIPE_CAP - len(p.buf)
            k = n
            if o.flags & _os.O_NONBLOCK:
                if space == 0 or (n <= PIPE_BUF and space < n):
                    raise oserr(E.EAGAIN)
                k = min(n, space)
            if root and k > 1 and self.short_writes > 0:
                self.short_writes -= 1
                lim = min(k, 8)
                c = eng.choose("accepted", lim)
                k = k if c == 0 else c
            if k > PIPE_CAP - len(p.buf):
                # blocks until everything is written
                done = 0
                while done < k:
                    space = PIPE_CAP - len(p.buf)
                    if space == 0 or (k <= PIPE_BUF and space < k):
                        self.block(lambda: PIPE_CAP - len(p.buf) >= min(k - done, PIPE_BUF)
                                   or not self.pipe_end_open(p, "pr"), "write")
                        if not self.pipe_end_open(p, "pr"):
                            if done:
                                return done
                            raise oserr(E.EPIPE)
                        space = PIPE_CAP - len(p.buf)
                    m = min(space, k - done)
                    p.buf = p.buf + data[done:done + m]
                    p.total = p.total + data[done:done + m]
                    done += m
                return k
            p.buf = p.buf + data[:k]
            p.total = p.total + data[:k]
            return k
        if o.kind == "ext":
            if getattr(o, "broken", None) is not None:
                raise oserr(o.broken)
            k = n
            if root and k > 1 and self.short_writes > 0:
                self.short_writes -= 1
                c = eng.choose("accepted", min(k, 8))
                k = k if c == 0 else c
            self.ext_out(o, data[:k])
            return k
        if not o.flags & (_os.O_WRONLY | _os.O_RDWR):
            raise oserr(E.EBADF)
        node = o.obj
        if node.kind == "null":
            return n
        k = n
        if root and k > 1 and self.short_writes > 0:
            self.short_writes -= 1
            c = eng.choose("accepted", min(k, 8))
            k = k if c == 0 else c
        if o.flags & _os.O_APPEND:
            o.pos = len(node.data)
        if o.pos > len(node.data):
            node.data = node.data + b"\0" * (o.pos - len(node.data))
        node.data = node.data[:o.pos] + data[:k] + node.data[o.pos + k:]
        o.pos += k
        return k

    def ext_out(self, o, data):
        if not hasattr(o, "out"):
            o.out = b""
        o.out = o.out + data

    # ---------------------------------------------------------------- processes
    def sys_fork(self):
        self.fault("fork")
        self.progress += 1
        pid = self.next_pid
        self.next_pid += 1
        idx, kern = eng.fork_process()
        # every adoption works on its own copy: the recorded outcome stays as the child left it
        if idx == 0:
            parent = self.me
            c = Proc(pid, parent.pid)
            c.fds = parent.fds.copy()
            c.cwd = parent.cwd
            c.sigmask = list(parent.sigmask)
            self.procs[pid] = c
            self.cur = pid
            eng.w.data["on_return"] = self.on_escape
            _asyncio._set_running_loop(None)      # asyncio notices by itself that the process id is another one
            return 0
        keep = {n: getattr(self, n) for n in ("cur", "sighandlers", "faults")}      # what belongs to this world
        kern = clone(kern)
        self.__dict__.clear()
        self.__dict__.update(kern.__dict__)
        self.__dict__.update(keep)
        return pid

    def on_escape(self):
        """the forked child came back into the caller's code"""
        self.escaped.append(self.cur)
        self.exit_current(("escaped",))

    def exit_current(self, status):
        p = self.me
        if status == ("escaped",):
            status = 0
        self.finish(p, status)
        eng.end_world(self)

    def sys__exit(self, code):
        if not (isinstance(code, int) or getattr(type(code), "realtype", None) is int):
            raise TypeError("an integer is required (got type %s)" % type(code).__name__)
        self.me.ended_how = "_exit"
        self.me.exit_code = code & 255
        self.exit_current((code & 255) * 256)

    def finish(self, p, status):
        p.state = "zombie"
        p.status = status
        p.prog = p.gen = None
        p.fds = FdTable()
        p.note_stop = None
        p.note_cont = False
        self.notify_parent(p)
        for c in list(self.procs.values()):
            if c.ppid == p.pid and c.state == "zombie":
                c.state = "reaped"
            if c.ppid == p.pid:
                c.ppid = 1

    def notify_parent(self, p):
        parent = self.procs.get(p.ppid)
        if parent is not None and parent.state in ("run", "stop"):
            self.raise_signal(parent, SIGCHLD, p)

    def raise_signal(self, proc, signo, child=None):
        if signo not in proc.pending:
            proc.pending.append(signo)
            info = proc.siginfo[signo] = {"ssi_signo": signo, "ssi_pid": child.pid if child is not None else 0}
            if child is not None:
                # what the first event says; those after it are merged into it
                if child.state == "zombie":
                    s = child.status
                    low = s % 128
                    info["ssi_code"] = ite(low == 0, 1, ite((s // 128) % 2 == 1, 3, 2))
                    info["ssi_status"] = ite(low == 0, (s // 256) % 256, low)
                elif child.state == "stop":
                    info["ssi_code"] = 5
                    info["ssi_status"] = _signal.SIGSTOP if child.note_stop is None else (child.note_stop // 256) % 256
                else:
                    info["ssi_code"] = 6
                    info["ssi_status"] = int(_signal.SIGCONT)

    def sys_exec(self, file, args, env):
        self.fault("exec")
        if not isinstance(args, (list, tuple)):
            raise TypeError("execve: argv must be a tuple or list")
        if not args:
            raise ValueError("execve: argv must not be empty")
        argv = []
        for a in args:
            a = a.__fspath__() if isinstance(a, _os.PathLike) else a
            if isinstance(a, bytes) or getattr(type(a), "realtype", None) is bytes:
                a = a.decode("utf-8", "surrogateescape")
            elif not (isinstance(a, str) or getattr(type(a), "realtype", None) is str):
                raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(a).__name__)
            if bool(_contains(a, "\0")):
                raise ValueError("embedded null byte")
            argv.append(a)
        envd = []
        for k in env.keys():
            v = env[k]
            for x in (k, v):
                if not (isinstance(x, (str, bytes)) or getattr(type(x), "realtype", None) in (str, bytes)):
                    raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(x).__name__)
            envd.append((k, v))
        prog = self.find_program(file, env)
        p = self.me
        p.argv = argv
        p.env = envd
        p.execd = True
        p.name = argv[0]
        p.fds.ent = [e for e in p.fds.ent if not e[2]]
        p.exec_fds = [(e[0], e[1]) for e in p.fds.ent]
        p.exec_cwd = self.cwd_path(p)
        p.prog = prog
        p.gen = None
        p.sends = []
        p.send = None
        p.op = None
        p.ended_how = "exec"
        eng.end_world(self)

    def cwd_path(self, p):
        c = p.cwd
        if not isinstance(c, Node):
            return c
        out = ""
        while c.parent is not None and c.parent is not c:
            out = "/" + c.name + out
            c = c.parent
        return out or "/"

    def find_program(self, file, env):
        if not (isinstance(file, (str, bytes)) or getattr(type(file), "realtype", None) in (str, bytes)):
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(file).__name__)
        if isinstance(file, bytes):
            file = file.decode()
        for name, prog in self.programs.items():
            if len(name) == len(file) and same(name, file):
                if isinstance(prog, int):
                    raise oserr(prog, file)
                return prog
        if "*" in self.programs:
            return self.programs["*"]
        raise oserr(E.ENOENT, file)

    def sys_kill(self, pid, sig):
        self.fault("kill")
        self.progress += 1
        if not (isinstance(pid, int)):
            raise TypeError("an integer is required")
        sig = int(sig)
        p = self.procs.get(pid)
        what = None if p is None else "foreign" if p.user.get("foreign") else p.state
        self.kill_log.append((self.cur, pid, sig, what))
        if p is None or p.state == "reaped":
            raise oserr(E.ESRCH)
        self.signal_proc(p, sig)

    def signal_proc(self, p, sig):
        if p.state == "zombie" or sig == 0:
            return
        if p.pid == self.root_pid:
            self.raise_signal(p, sig)
            return
        if sig == SIGCONT:
            if p.state == "stop":
                p.state = "run"
                p.note_stop = None
                p.note_cont = True
                self.notify_parent(p)
                if "killsig" in p.user:
                    self.finish(p, p.user.pop("killsig"))
        elif sig in STOPPERS:
            if p.state == "run":
                p.state = "stop"
                p.note_stop = (sig << 8) | 0x7f
                p.note_cont = False
                self.notify_parent(p)
        elif sig in (SIGCHLD, int(_signal.SIGWINCH), int(_signal.SIGURG)):
            pass
        else:
            if p.state == "stop" and sig != SIGKILL:
                p.user["killsig"] = sig
            else:
                self.finish(p, sig)

    def sys_waitpid(self, pid, options):
        self.fault("waitpid")
        while True:
            cands = []
            children = False
            for p in sorted(self.procs.values(), key=lambda x: x.pid):
                if p.ppid != self.cur or p.state == "reaped":
                    continue
                if pid not in (-1, 0) and p.pid != pid:
                    continue
                children = True
                if p.state == "zombie":
                    cands.append((p, "exit"))
                elif p.note_stop is not None and options & _os.WUNTRACED:
                    cands.append((p, "stop"))
                elif p.note_cont and options & _os.WCONTINUED:
                    cands.append((p, "cont"))
            if not children:
                raise oserr(E.ECHILD)
            if cands:
                i = 0
                if len(cands) > 1 and self.waitpid_choice:
                    i = eng.choose("reap", len(cands))
                p, what = cands[i]
                if what == "exit":
                    p.state = "reaped"
                    status = p.status
                elif what == "stop":
                    status = p.note_stop
                    p.note_stop = None
                else:
                    status = 0xffff
                    p.note_cont = False
                self.progress += 1
                self.wait_log.append((p.pid, status))
                return p.pid, status
            if options & _os.WNOHANG:
                return 0, 0
            self.block(lambda: any(q.ppid == self.cur and (q.state == "zombie") for q in self.procs.values()), "waitpid")

    # ---------------------------------------------------------------- scheduling of started programs
    def can_step(self, p):
        if p.prog is None or p.state != "run":
            return False
        if p.op is None:
            self.fetch(p)
            if p.prog is None or p.state != "run":
                return True
        op = p.op
        if op[0] == "read":
            e = p.fds.find(op[1])
            return e is None or e[1].kind != "pr" or self.readable(e[1])
        if op[0] == "write":
            e = p.fds.find(op[1])
            if e is None or e[1].kind != "pw":
                return True
            return PIPE_CAP - len(e[1].obj.buf) > 0 or not self.pipe_end_open(e[1].obj, "pr")
        if op[0] == "never":
            return False
        return True

    def fetch(self, p):
        try:
            if p.gen is None:
                p.gen = p.prog(self, p)
                for v in p.sends:
                    p.gen.send(v)
            p.sends.append(p.send)
            p.op = p.gen.send(p.send)
        except StopIteration as e:
            v = e.value
            p.gen = None
            self.end_proc(p, 0 if v is None else v)
        p.send = None

    def end_proc(self, p, v):
        """v: exit code (int) or ("signal", n, core)"""
        if isinstance(v, tuple):
            st = v[1] + (0x80 if len(v) > 2 and v[2] else 0)
        else:
            st = (v & 255) * 256
        self.finish(p, st)

    def step(self, p):
        self.steps += 1
        self.progress += 1
        if self.steps > 5000:
            eng._raise(Unsupported("too many process steps"))
        if p.prog is None or p.state != "run":
            return                      # it ended while it was looked at
        if p.op is None:
            self.fetch(p)
            if p.prog is None or p.state != "run":
                return
            if not self.can_step(p):
                return
        op, kind = p.op, p.op[0]
        saved = self.cur
        self.cur = p.pid
        fl, self.faults = self.faults, None
        try:
            if kind == "read":
                try:
                    e = self.need(op[1])
                    data = self.do_read(e[1], op[2])
                    p.got[op[1]] = p.got.get(op[1], b"") + data
                    p.send = data
                except OSError as ex:
                    p.send = ex
                p.op = None
            elif kind == "write":
                try:
                    e = self.need(op[1])
                    o = e[1]
                    if o.kind == "pw" and self.pipe_end_open(o.obj, "pr"):
                        space = PIPE_CAP - len(o.obj.buf)
                        m = min(space, len(op[2]))
                        self.do_write(o, op[2][:m])
                        if m < len(op[2]):
                            p.op = ("write", op[1], op[2][m:])
                            return
                        p.send = None
                    else:
                        self.do_write(o, op[2])
                        p.send = None
                except BrokenPipeError:
                    if p.user.get("ignore_sigpipe"):
                        p.send = oserr(E.EPIPE)
                    else:
                        self.finish(p, SIGPIPE)
                        return
                except OSError as ex:
                    p.send = ex
                p.op = None
            elif kind == "open":
                try:
                    p.send = self.sys_open(op[1], op[2] if len(op) > 2 else _os.O_RDONLY)
                except OSError as ex:
                    p.send = ex
                p.op = None
            elif kind == "close":
                try:
                    self.sys_close(op[1])
                except OSError as ex:
                    p.send = ex
                p.op = None
            elif kind == "raise":       # a signal to itself, e.g. stop
                p.op = None
                self.signal_proc(p, op[1])
            elif kind == "call":
                p.send = op[1](self, p)
                p.op = None
            elif kind == "yield":
                p.op = None
            else:
                raise AssertionError(kind)
        finally:
            self.cur = saved
            self.faults = fl

    def runnable(self):
        return [p for p in sorted(self.procs.values(), key=lambda x: x.pid) if self.can_step(p)]

    def step_any(self):
        """some process makes a step (a symbolic choice within the schedule budget); False if none can"""
        r = [p for p in self.runnable() if p.pid != self.cur]
        if not r:
            if self.external:
                self.fire(0)
                return True
            return False
        i = 0
        if len(r) > 1 and self.sched_used < self.sched_budget:
            self.sched_used += 1
            i = eng.choose("step", len(r))
        self.step(r[i])
        return True

    def fire(self, i):
        self.progress += 1
        f = self.external[i]
        self.external = self.external[:i] + self.external[i + 1:]
        f(self)

    def run_all(self):
        """all started programs run until none can continue"""
        while True:
            r = [p for p in self.runnable() if p.pid != self.cur]
            if not r:
                return
            for p in r:
                if self.can_step(p):
                    self.step(p)

    # ---------------------------------------------------------------- poll
    def poll(self, regs, timeout):
        """regs: list of (fd, events, ofd); returns [(fd, events)].  1 = read, 2 = write."""
        if self.idle[0] == self.progress:
            self.idle[1] += 1
        else:
            self.idle = [self.progress, 0]
        if self.idle[1] > 5:
            # the caller spins: the others are not kept from running by that
            others = [p for p in self.runnable() if p.pid != self.cur]
            if others:
                self.step(others[0])
            elif self.external and self.cur == self.root_pid:
                self.fire(0)
            elif self.idle[1] > 300:
                eng._raise(Hang("waits for ever: spins, and nothing can happen any more"))
        while True:
            ready = []
            for fd, ev, o in regs:
                if not self.holders(o):
                    continue
                got = 0
                if ev & 1 and self.readable(o):
                    got |= 1
                if ev & 2 and self.writable(o):
                    got |= 2
                if o.kind == "pr" and not self.pipe_end_open(o.obj, "pw"):
                    got |= ev & 3           # EPOLLHUP wakes both
                if o.kind == "pw" and not self.pipe_end_open(o.obj, "pr"):
                    got |= ev & 3           # EPOLLERR
                if got:
                    ready.append((fd, got))
            sigs = [s for s in self.me.pending if s in self.sighandlers]
            for s in sigs:
                ready.append((("signal", s), 0))
            runnable = [p for p in self.runnable() if p.pid != self.cur]
            opts = []
            if self.sched_used < self.sched_budget and self.cur == self.root_pid:
                if ready or timeout == 0:
                    opts.append(None)
                opts += [("p", p) for p in runnable]
                opts += [("x", i) for i in range(len(self.external))]
                if len(opts) > 1:
                    self.sched_used += 1
                    c = eng.choose("sched", len(opts))
                else:
                    c = 0
                if opts:
                    o = opts[c]
                    if o is None:
                        return self.order(ready)
                    if o[0] == "p":
                        self.step(o[1])
                    else:
                        self.fire(o[1])
                    continue
            else:
                if self.policy == "eager" and runnable:
                    self.step(runnable[0])
                    continue
                if ready or timeout == 0:
                    return self.order(ready)
                if runnable:
                    self.step(runnable[0])
                    continue
                if self.external:
                    self.fire(0)
                    continue
            if timeout is not None and timeout > 0:
                self.time += timeout
                return []
            if self.cur != self.root_pid:
                eng._raise(Unsupported("a forked process waits for its parent"))
            eng._raise(Hang("waits for ever: nothing can happen any more"))

    def order(self, ready):
        if len(ready) > 1 and self.ready_order_choice and self.sched_used < self.sched_budget:
            self.sched_used += 1
            i = eng.choose("first", len(ready))
            ready = ready[i:] + ready[:i]
        return ready


def clone(x, memo=None):
    """Copy of the kernel state.  Symbolic values, functions and constants are shared; generators are re-created
    by replay (see Kernel.fetch)."""
    if memo is None:
        memo = {}
    t = type(x)
    if t in (Kernel, Proc, FdTable, OFD, Pipe, Node):
        y = memo.get(id(x))
        if y is None:
            y = memo[id(x)] = t.__new__(t)
            for k, v in x.__dict__.items():
                y.__dict__[k] = None if k == "gen" else clone(v, memo)
        return y
    if t is list:
        y = memo.get(id(x))
        if y is None:
            y = memo[id(x)] = []
            y.extend([clone(v, memo) for v in x])
        return y
    if t is dict:
        y = memo.get(id(x))
        if y is None:
            y = memo[id(x)] = {}
            for k, v in x.items():
                y[k] = clone(v, memo)
        return y
    if t is tuple:
        return tuple([clone(v, memo) for v in x])
    return x


def _contains(s, sub):
    if isinstance(s, str):
        return sub in s
    return s.contains(sub)


# ---------------------------------------------------------------------------------------- model modules

def K():
    if eng.signal is not None:
        raise eng.signal        # clean-up code running while the engine leaves this world: nothing happens
    return eng.w.kernel


class Environ(object):
    """os.environ: a mapping of str to str"""
    def __init__(self, items):
        self.d = []
        for k, v in dict(items).items():
            self.d.append([k, v])

    def _chk(self, x):
        if not (isinstance(x, str) or getattr(type(x), "realtype", None) is str):
            raise TypeError("str expected, not %s" % type(x).__name__)

    def _find(self, key):
        self._chk(key)
        for e in self.d:
            if len(e[0]) == len(key) and same(e[0], key):
                return e
        return None

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        return e[1]

    def __setitem__(self, key, value):
        self._chk(key)
        self._chk(value)
        e = self._find(key)
        if e is not None:
            e[1] = value
        else:
            self.d.append([key, value])

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self.d = [x for x in self.d if x is not e]

    def __contains__(self, key):
        try:
            return self._find(key) is not None
        except TypeError:
            return False

    def __iter__(self):
        return iter([e[0] for e in self.d])

    def keys(self):
        return [e[0] for e in self.d]

    def values(self):
        return [e[1] for e in self.d]

    def items(self):
        return [(e[0], e[1]) for e in self.d]

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e[1]

    def pop(self, key, *default):
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        self.d = [x for x in self.d if x is not e]
        return e[1]

    def setdefault(self, key, value=None):
        e = self._find(key)
        if e is None:
            self[key] = value
            return value
        return e[1]

    def update(self, *a, **kw):
        for src in a:
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.d = []

    def copy(self):
        if eng.mode == "sym":
            from . import ops
            return ops.mkdict(self.items())
        return dict(self.items())

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __eq__(self, o):
        return eq(self.copy(), o.copy() if isinstance(o, Environ) else o)

    def __repr__(self):
        return "environ(...)"


class StatResult(object):
    def __init__(self, node):
        kind = {"dir": _stat.S_IFDIR, "file": _stat.S_IFREG, "null": _stat.S_IFCHR, "tty": _stat.S_IFCHR,
                "fifo": _stat.S_IFIFO, "link": _stat.S_IFLNK}[node.kind]
        self.st_mode = kind | 0o755
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_size = len(node.data)
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_mtime = self.st_atime = self.st_ctime = 0


class DirEntry(object):
    def __init__(self, dirpath, name, node):
        self.name = name
        self.node = node
        self.path = dirpath + "/" + name if len(dirpath) else name

    def is_dir(self, follow_symlinks=True):
        return self.node.kind == "dir"

    def is_file(self, follow_symlinks=True):
        return self.node.kind == "file"

    def is_symlink(self):
        return False

    def __fspath__(self):
        return self.path


class ScanDir(object):
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class OsModule(object):
    """stands in for the module `os`"""
    def __init__(self, environ):
        self.__name__ = "os"
        self.name = "posix"
        self.sep = "/"
        self.altsep = None
        self.extsep = "."
        self.pathsep = ":"
        self.linesep = "\n"
        self.curdir = "."
        self.pardir = ".."
        self.defpath = "/bin:/usr/bin"
        self.devnull = "/dev/null"
        self.error = OSError
        self.PathLike = _os.PathLike
        self.environ = environ
        self.supports_bytes_environ = True
        self.path = None        # set by the loader

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(_os, name)
        if callable(v) and not isinstance(v, type):
            if name.startswith(("W", "S_")) and name[1:2].isupper():
                return v
            if name in ("strerror", "fspath", "fsencode", "fsdecode", "major", "minor", "urandom", "cpu_count"):
                return v

            def missing(*a, **kw):
                eng._raise(Unsupported("os.%s is not modelled" % name))
            return missing
        return v

    def __dir__(self):
        return dir(_os)

    # status words, exactly as wait(2) defines them
    def WIFEXITED(self, s):
        return s % 128 == 0

    def WEXITSTATUS(self, s):
        return (s // 256) % 256

    def WIFSIGNALED(self, s):
        return and_(s % 128 != 0, s % 128 != 127)

    def WTERMSIG(self, s):
        return s % 128

    def WCOREDUMP(self, s):
        return (s // 128) % 2 == 1

    def WIFSTOPPED(self, s):
        return s % 256 == 127

    def WSTOPSIG(self, s):
        return (s // 256) % 256

    def WIFCONTINUED(self, s):
        return s == 0xffff

    def waitstatus_to_exitcode(self, s):
        if s % 128 == 0:
            return (s // 256) % 256
        if s % 128 != 127:
            return -(s % 128)
        raise ValueError("Process stopped or invalid wait status")

    def fspath(self, p):
        if isinstance(p, (str, bytes)) or getattr(type(p), "realtype", None) in (str, bytes):
            return p
        f = getattr(type(p), "__fspath__", None)
        if f is None:
            raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)
        return f(p)

    def fsencode(self, p):
        p = self.fspath(p)
        if isinstance(p, str) or getattr(type(p), "realtype", None) is str:
            return p.encode("utf-8", "surrogateescape")
        return p

    def fsdecode(self, p):
        p = self.fspath(p)
        if isinstance(p, bytes) or getattr(type(p), "realtype", None) is bytes:
            return p.decode("utf-8", "surrogateescape")
        return p

    def getcwd(self):
        return K().cwd_path(K().me)

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def chdir(self, path):
        k = K()
        k.fault("chdir")
        node = k.lookup(path)
        if node.kind != "dir":
            raise oserr(E.ENOTDIR, path)
        k.me.cwd = node
        k.trace.append(("chdir", k.cur, path))

    def fchdir(self, fd):
        e = K().need(fd)
        if e[1].kind != "node" or e[1].obj.kind != "dir":
            raise oserr(E.ENOTDIR)
        K().me.cwd = e[1].obj

    def open(self, path, flags, mode=0o777, dir_fd=None):
        return K().sys_open(path, flags, mode)

    def close(self, fd):
        return K().sys_close(fd)

    def closerange(self, lo, hi):
        k = K()
        for e in list(k.me.fds.ent):
            if bool(and_(e[0] >= lo, e[0] < hi)):
                k.sys_close(e[0])

    def read(self, fd, n):
        return K().sys_read(fd, n)

    def write(self, fd, data):
        return K().sys_write(fd, data)

    def writev(self, fd, bufs):
        data = b""
        for b in bufs:
            data = data + b
        return K().sys_write(fd, data)

    def dup(self, fd):
        return K().sys_dup(fd)

    def dup2(self, fd, fd2, inheritable=True):
        return K().sys_dup2(fd, fd2, inheritable)

    def pipe(self):
        return K().sys_pipe()

    def pipe2(self, flags):
        k = K()
        r, w = k.sys_pipe(bool(flags & _os.O_CLOEXEC))
        if flags & _os.O_NONBLOCK:
            k.need(r)[1].flags |= _os.O_NONBLOCK
            k.need(w)[1].flags |= _os.O_NONBLOCK
        return r, w

    def fork(self):
        return K().sys_fork()

    def getpid(self):
        return K().cur

    def getppid(self):
        return K().me.ppid

    def getpgid(self, pid):
        return 1000

    def getpgrp(self):
        return 1000

    def getsid(self, pid):
        return 1000

    def getuid(self):
        return 0
    geteuid = getgid = getegid = getuid

    def getlogin(self):
        return "u"

    def execvpe(self, file, args, env):
        K().sys_exec(file, args, env)

    def execve(self, file, args, env):
        K().sys_exec(file, args, env)

    def execvp(self, file, args):
        K().sys_exec(file, args, self.environ)
    execv = execvp

    def execlp(self, file, *args):
        K().sys_exec(file, args, self.environ)

    def _exit(self, code):
        if not is_symint(code):
            if not isinstance(code, int):
                raise TypeError("expected integer, got %s object" % type(code).__name__)
            if not -(1 << 31) <= code < 1 << 31:
                raise OverflowError("expected a 32-bit integer")
        K().sys__exit(code)

    def abort(self):
        K().exit_current(6)

    def kill(self, pid, sig):
        K().sys_kill(pid, sig)

    def killpg(self, pgid, sig):
        # every process of these checks is in the group of the interpreter
        k = K()
        if pgid not in (0, 1000):
            raise oserr(E.ESRCH)
        for p in list(k.procs.values()):
            if p.state != "reaped" and not p.user.get("foreign"):
                k.sys_kill(p.pid, sig)

    def waitpid(self, pid, options):
        return K().sys_waitpid(pid, options)

    def wait(self):
        return K().sys_waitpid(-1, 0)

    def unlink(self, path, dir_fd=None):
        k = K()
        k.fault("unlink")
        node = k.lookup(path, follow=False)
        if node.kind == "dir":
            raise oserr(E.EISDIR, path)
        d = node.parent
        d.entries = [(n, x) for n, x in d.entries if x is not node]
    remove = unlink

    def rmdir(self, path):
        k = K()
        d, name = k.lookup(path, parent=True)
        node = k.lookup(path, follow=False)
        if node.kind != "dir":
            raise oserr(E.ENOTDIR, path)
        if same(name, "."):
            raise oserr(E.EINVAL, path)
        if node.entries or same(name, ".."):
            raise oserr(E.ENOTEMPTY, path)
        node.parent.entries = [(n, x) for n, x in node.parent.entries if x is not node]

    def mkdir(self, path, mode=0o777):
        k = K()
        k.fault("mkdir")
        d, name = k.new_entry(path)
        n = Node("dir")
        n.parent = d
        n.name = name
        d.entries.append((name, n))

    def makedirs(self, path, mode=0o777, exist_ok=False):
        # as in the library
        head, tail = self.path.split(path)
        if not tail:
            head, tail = self.path.split(head)
        if head and tail and not self.path.exists(head):
            try:
                self.makedirs(head, exist_ok=exist_ok)
            except FileExistsError:
                pass
            if tail == ".":
                return
        try:
            self.mkdir(path, mode)
        except OSError:
            if not exist_ok or not self.path.isdir(path):
                raise

    def rename(self, a, b):
        k = K()
        da, na = k.lookup(a, parent=True)
        d, name = k.lookup(b, parent=True)
        if any(same(x, y) for x in (na, name) for y in ("", ".", "..")):
            raise oserr(E.EBUSY, a)
        node = k.lookup(a, follow=False)
        old = k._entry(d, name)
        if old is node:
            return
        p = d
        while p is not k.root:
            if p is node:
                raise oserr(E.EINVAL, a)
            p = p.parent
        if old is not None:
            if node.kind == "dir" and old.kind != "dir":
                raise oserr(E.ENOTDIR, a)
            if old.kind == "dir":
                p = da
                while p is not k.root and p is not old:
                    p = p.parent
                if p is old:
                    raise oserr(E.ENOTEMPTY, a)
                if node.kind != "dir":
                    raise oserr(E.EISDIR, a)
                if old.entries:
                    raise oserr(E.ENOTEMPTY, a)
        node.parent.entries = [(n, x) for n, x in node.parent.entries if x is not node]
        d.entries = [(n, x) for n, x in d.entries if not same(n, name)] + [(name, node)]
        node.parent, node.name = d, name
    replace = rename

    def stat(self, path, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(path)
        return StatResult(K().lookup(path, follow=follow_symlinks))

    def lstat(self, path, dir_fd=None):
        return StatResult(K().lookup(path, follow=False))

    def fstat(self, fd):
        e = K().need(fd)
        if e[1].kind == "node":
            return StatResult(e[1].obj)
        return StatResult(Node("fifo" if e[1].kind in ("pr", "pw") else "tty"))

    def access(self, path, mode):
        try:
            K().lookup(path)
        except OSError:
            return False
        return True

    def listdir(self, path="."):
        k = K()
        k.fault("listdir")
        node = k.lookup(path)
        if node.kind != "dir":
            raise oserr(E.ENOTDIR, path)
        if node.unreadable:
            raise oserr(E.EACCES, path)
        return [n for n, x in node.entries]

    def scandir(self, path="."):
        k = K()
        node = k.lookup(path)
        if node.kind != "dir":
            raise oserr(E.ENOTDIR, path)
        if node.unreadable:
            raise oserr(E.EACCES, path)
        return ScanDir([DirEntry(path, n, x) for n, x in node.entries])

    def readlink(self, path, dir_fd=None):
        node = K().lookup(path, follow=False)
        if node.kind != "link":
            raise oserr(E.EINVAL, path)
        return node.target

    def symlink(self, target, path, target_is_directory=False, dir_fd=None):
        k = K()
        if len(target) == 0:
            raise oserr(E.ENOENT, path)
        node = Node("link")
        node.target = target
        d, name = k.new_entry(path)
        k.add_entry(d, name, node)

    def isatty(self, fd):
        K().need(fd)
        return False

    def ttyname(self, fd):
        raise oserr(E.ENOTTY)

    def sysconf(self, name):
        if name in ("SC_OPEN_MAX",):
            return K().maxfd
        return _os.sysconf(name)

    def set_inheritable(self, fd, v):
        K().need(fd)[2] = not v

    def get_inheritable(self, fd):
        return not K().need(fd)[2]

    def set_blocking(self, fd, v):
        o = K().need(fd)[1]
        o.flags = o.flags & ~_os.O_NONBLOCK if v else o.flags | _os.O_NONBLOCK

    def get_blocking(self, fd):
        return not K().need(fd)[1].flags & _os.O_NONBLOCK

    def lseek(self, fd, pos, how):
        o = K().need(fd)[1]
        if o.kind in ("pr", "pw"):
            raise oserr(E.ESPIPE)
        o.pos = pos if how == 0 else o.pos + pos if how == 1 else len(o.obj.data) + pos
        return o.pos

    def ftruncate(self, fd, n):
        o = K().need(fd)[1]
        o.obj.data = o.obj.data[:n]

    def fsync(self, fd):
        K().need(fd)

    def umask(self, m):
        return 0o22

    def fdopen(self, fd, mode="r", *a, **kw):
        return model_open(fd, mode, *a, **kw)

    def putenv(self, k, v):
        pass

    def unsetenv(self, k):
        pass

    def get_terminal_size(self, *a):
        raise oserr(E.ENOTTY)

    def cpu_count(self):
        return 1


class ModelFile(object):
    def __init__(self, fd, mode, encoding, errors, newline, closefd, name):
        self.fd = fd
        self.mode = mode
        self.binary = "b" in mode
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self.newline = newline
        self.closefd = closefd
        self.closed = False
        self.name = name
        self.rest = None

    def fileno(self):
        return self.fd

    def _raw(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        out = b""
        while True:
            d = K().sys_read(self.fd, 8192)
            if len(d) == 0:
                return out
            out = out + d

    def read(self, n=-1):
        if self.rest is None:
            d = self._raw()
            if not self.binary:
                d = d.decode(self.encoding, self.errors)
                if self.newline is None:
                    d = d.replace("\r\n", "\n").replace("\r", "\n")
            self.rest = d
        if n is None or n < 0:
            d, self.rest = self.rest, self.rest[0:0]
        else:
            d, self.rest = self.rest[:n], self.rest[n:]
        return d

    def readlines(self, *a):
        return list(self)

    def readline(self, *a):
        if self.rest is None:
            self.rest = self.read()
        nl = b"\n" if self.binary else "\n"
        i = self.rest.find(nl)
        i = len(self.rest) if i < 0 else i + 1
        d, self.rest = self.rest[:i], self.rest[i:]
        return d

    def __iter__(self):
        return self

    def __next__(self):
        d = self.readline()
        if len(d) == 0:
            raise StopIteration
        return d

    def write(self, data):
        n = len(data)
        if not self.binary:
            if not (isinstance(data, str) or getattr(type(data), "realtype", None) is str):
                raise TypeError("write() argument must be str, not %s" % type(data).__name__)
            data = data.encode(self.encoding, self.errors)
        if K().faults is not None and len(data) > 1:
            # a disk can be full in the middle
            half = len(data) // 2
            self._write(data[:half])
            data = data[half:]
        self._write(data)
        return n

    def _write(self, data):
        while len(data):
            k = K().sys_write(self.fd, data)
            data = data[k:]

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def seek(self, pos, how=0):
        self.rest = None
        e = K().need(self.fd)
        e[1].pos = pos if how == 0 else len(e[1].obj.data) + pos

    def tell(self):
        return K().need(self.fd)[1].pos

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return True

    def close(self):
        if not self.closed:
            self.closed = True
            if self.closefd:
                K().sys_close(self.fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def model_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        fd = file
    else:
        base = mode.replace("b", "").replace("t", "")
        flags = {"r": _os.O_RDONLY, "w": _os.O_WRONLY | _os.O_CREAT | _os.O_TRUNC,
                 "a": _os.O_WRONLY | _os.O_CREAT | _os.O_APPEND, "x": _os.O_WRONLY | _os.O_CREAT | _os.O_EXCL,
                 "r+": _os.O_RDWR, "w+": _os.O_RDWR | _os.O_CREAT | _os.O_TRUNC}[base]
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = K().sys_open(file, flags, 0o666)
        node = K().need(fd)[1]
        if node.kind == "node" and node.obj.kind == "dir":
            K().sys_close(fd)
            raise oserr(E.EISDIR, file)
    return ModelFile(fd, mode, encoding, errors, newline, closefd, file)


class TempfileModule(object):
    def __init__(self):
        self.__name__ = "tempfile"
        self.tempdir = None

    def gettempdir(self):
        return "/tmp"

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        k = K()
        path = "%s/%s%d%s" % (dir or "/tmp", prefix or "tmp", k.next_tmp, suffix or "")
        k.next_tmp += 1
        fd = k.sys_open(path, _os.O_RDWR | _os.O_CREAT | _os.O_EXCL | _os.O_CLOEXEC, 0o600)
        return fd, path

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        k = K()
        path = "%s/%s%d%s" % (dir or "/tmp", prefix or "tmp", k.next_tmp, suffix or "")
        k.next_tmp += 1
        k.mkdir_p(path)
        return path

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **kw):
            eng._raise(Unsupported("tempfile.%s is not modelled" % name))
        return missing


class PollObject(object):
    def __init__(self):
        self.regs = []

    def register(self, fd, events=_select.POLLIN | _select.POLLPRI | _select.POLLOUT):
        fd = fd if isinstance(fd, int) or is_symint(fd) else fd.fileno()
        self.unregister(fd, True)
        self.regs.append((fd, events))

    modify = register

    def unregister(self, fd, quiet=False):
        rest = [r for r in self.regs if not same_int(r[0], fd)]
        if len(rest) == len(self.regs) and not quiet:
            raise KeyError(fd)
        self.regs = rest

    def poll(self, timeout=None):
        if timeout != 0:
            eng._raise(Unsupported("poll() that waits"))
        k = K()
        out = []
        for fd, ev in self.regs:
            e = k.me.fds.find(fd)
            if e is None:
                out.append((fd, _select.POLLNVAL))
                continue
            o, got = e[1], 0
            if k.readable(o):
                got |= ev & _select.POLLIN
            if k.writable(o):
                got |= ev & _select.POLLOUT
            if o.kind == "pr" and not k.pipe_end_open(o.obj, "pw"):
                got = (got if len(o.obj.buf) else 0) | _select.POLLHUP
            if o.kind == "pw" and not k.pipe_end_open(o.obj, "pr"):
                got |= _select.POLLERR
            if got:
                out.append((fd, got))
        return out


def is_symint(x):
    return getattr(type(x), "realtype", None) is int


def same_int(a, b):
    c = a == b
    return c if isinstance(c, bool) else bool(c)


class SelectModule(object):
    """the select module: what is ready right now"""

    def __init__(self):
        self.__name__ = "select"

    def __getattr__(self, name):
        v = getattr(_select, name)
        if callable(v) and name not in ("error",):
            def missing(*a, **kw):
                eng._raise(Unsupported("select.%s" % name))
            return missing
        return v

    def __dir__(self):
        return dir(_select)

    def poll(self):
        return PollObject()

    def select(self, r, w, x, timeout=None):
        p = PollObject()
        for fd in r:
            p.register(fd, _select.POLLIN)
        got = dict(p.poll(timeout))
        p2 = PollObject()
        for fd in w:
            p2.register(fd, _select.POLLOUT)
        got2 = dict(p2.poll(timeout))
        return [fd for fd in r if fd in got], [fd for fd in w if fd in got2], []


class FcntlModule(object):
    F_DUPFD = 0
    F_GETFD = 1
    F_SETFD = 2
    F_GETFL = 3
    F_SETFL = 4
    F_DUPFD_CLOEXEC = 1030
    F_SETPIPE_SZ = 1031
    F_GETPIPE_SZ = 1032
    FD_CLOEXEC = 1
    LOCK_EX, LOCK_SH, LOCK_UN, LOCK_NB = 2, 1, 8, 4

    def __init__(self):
        self.__name__ = "fcntl"

    def fcntl(self, fd, cmd, arg=0):
        k = K()
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        e = k.need(fd)
        if cmd == self.F_GETFD:
            return 1 if e[2] else 0
        if cmd == self.F_SETFD:
            e[2] = bool(arg & 1)
            return 0
        if cmd == self.F_GETFL:
            return e[1].flags
        if cmd == self.F_SETFL:
            e[1].flags = (e[1].flags & 3) | (arg & ~3)
            return 0
        if cmd == self.F_DUPFD:
            return k.sys_dup(fd, False, arg)
        if cmd == self.F_DUPFD_CLOEXEC:
            return k.sys_dup(fd, True, arg)
        if cmd == self.F_GETPIPE_SZ:
            return PIPE_CAP
        eng._raise(Unsupported("fcntl command %s" % cmd))

    def ioctl(self, *a):
        raise oserr(E.ENOTTY)

    def flock(self, *a):
        pass
    lockf = flock


class ResourceModule(object):
    RLIMIT_NOFILE = 7
    RLIM_INFINITY = -1

    def __init__(self):
        self.__name__ = "resource"

    def getrlimit(self, what):
        return (K().maxfd, K().maxfd)

    def setrlimit(self, what, v):
        pass


class SignalfdModule(object):
    SFD_CLOEXEC = 0o2000000
    SFD_NONBLOCK = 0o4000
    SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK = 0, 1, 2

    def __init__(self):
        self.__name__ = "signalfd"

    def signalfd(self, fd, mask, flags=0):
        k = K()
        mask = [int(s) for s in mask]
        if fd != -1:
            k.need(fd)[1].obj = mask
            return fd
        o = k.new_ofd("sigfd", mask, _os.O_NONBLOCK if flags & self.SFD_NONBLOCK else 0)
        o.label = "signalfd"
        return k.install(o, bool(flags & self.SFD_CLOEXEC))

    def sigprocmask(self, how, mask):
        k = K()
        m = k.me.sigmask
        mask = [int(s) for s in mask]
        if how == 0:
            k.me.sigmask = m + [s for s in mask if s not in m]
        elif how == 1:
            k.me.sigmask = [s for s in m if s not in mask]
        else:
            k.me.sigmask = mask
        return m

    def read_siginfo(self, fd):
        k = K()
        e = k.need(fd)
        if e[1].kind != "sigfd":
            raise oserr(E.EINVAL)
        p = k.me
        for s in sorted(p.pending):
            if s in e[1].obj:
                p.pending = [x for x in p.pending if x != s]
                return SigInfo(p.siginfo.pop(s, {"ssi_signo": s}))
        if e[1].flags & _os.O_NONBLOCK:
            raise oserr(E.EAGAIN)
        eng._raise(Hang("blocked in read of a signalfd"))


class SigInfo(object):
    def __init__(self, d):
        for n in ("signo", "errno", "code", "pid", "uid", "fd", "tid", "band", "overrun", "trapno", "status", "int",
                  "ptr", "utime", "stime", "addr"):
            setattr(self, "ssi_" + n, d.get("ssi_" + n, 0))


class SignalModule(object):
    """constants of the real module, no real handlers"""
    def __init__(self):
        self.__name__ = "signal"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(_signal, name)
        if name in ("signal", "set_wakeup_fd", "pthread_sigmask", "siginterrupt", "alarm", "setitimer",
                    "default_int_handler", "getsignal", "pause", "sigwait"):
            def stub(*a, **kw):
                return None
            return stub
        return v

    def __dir__(self):
        return [n for n in dir(_signal) if not n.startswith("__")]
