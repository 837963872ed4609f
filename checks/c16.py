"""C16  Names in the interactive scope read back what was assigned."""
from sx.api import *

ASSUMPTIONS = ["env, exports and names that begin with an underscore have a meaning of their own",
               "names of attributes of environments denote these attributes",
               "values assigned to variables of the calling process are text",
               "a name that was a Python variable when it was exported by way of the dictionary may read back either"]
PROC = {"HOME": "/home/u", "PATH": "/bin", "LANG": "C"}
NAMES = ["A", "ls", "len", "x_y"]


class Scope(object):
    def __init__(self, t, kind="other"):
        t.boot(environ=dict(PROC), env=False)
        self.t = t
        t.k.mkdir_p("/w")
        t.k.add_file("/bin/tool", b"")
        self.proc = dict(PROC)
        if kind == "default":
            self.env = t.ps.env
            self.exports = self.proc
        else:
            self.env = t.environ.Environment(cwd="/w", exports={"A": "first", "PATH": "/bin"})
            self.exports = {"A": "first", "PATH": "/bin"}
        self.sc = t.environ.EnvScope(env=self.env)
        if t.flag("assigned_env"):
            self.sc["env"] = self.env
        self.vars = {}
        self.vague = set()

    def assign(self, name, v, how):
        t = self.t
        if how == "statement":
            self.sc["_v"] = v
            r = t.attempt(lambda: exec("%s = _v" % name, self.sc))
        else:
            r = t.attempt(lambda: self.sc.__setitem__(name, v))
        t.prove(r.ok, "an assignment raises an error")
        if name in self.exports:
            self.exports[name] = v
            self.vars.pop(name, None)
            self.vague.discard(name)
        else:
            self.vars[name] = v

    def export(self, name, v, how):
        if how == "statement":
            self.sc["_v"] = v
            r = self.t.attempt(lambda: exec("exports[%r] = _v" % name, self.sc))
        else:
            r = self.t.attempt(lambda: self.env._exports.__setitem__(name, v))
        self.t.prove(r.ok, "exporting raises an error")
        self.exports[name] = v
        if name in self.vars:
            self.vague.add(name)

    def unexport(self, name, how):
        if how == "statement":
            r = self.t.attempt(lambda: exec("del exports[%r]" % name, self.sc))
        else:
            r = self.t.attempt(lambda: self.env._exports.__delitem__(name))
        self.t.prove(r.ok, "taking back an export raises an error")
        del self.exports[name]
        self.vague.discard(name)

    def read(self, name, how):
        t = self.t
        if how == "statement":
            return t.call(lambda: eval(name, self.sc), "reading a name")
        return t.call(lambda: self.sc[name], "reading a name")

    def check(self, name, how):
        t = self.t
        got = self.read(name, how)
        if name in self.vague:
            t.prove(or_(same(got, self.vars[name]), same(got, self.exports[name])), "a name reads back something else")
            t.cover("both")
        elif name in self.vars:
            t.prove(same(got, self.vars[name]), "a Python variable reads back something else")
            t.cover("variable")
        elif name in self.exports:
            t.prove(same(got, self.exports[name]), "an exported variable reads back something else")
            t.cover("exported")
        elif name == "len":
            t.prove(got is len or callable(got) and not hasattr(got, "run"), "a Python builtin reads back something else")
            t.cover("builtin")
        else:
            t.prove(isinstance(got, t.mod("pipeline.base").Pipeline), "a free name does not denote a command")
            if any(isinstance(v, Thing) for v in self.exports.values()):
                return                       # not a valid set of variables for a program
            t.prog(name, exits(0))
            n = len(t.started())
            t.call(lambda: got("arg").run(), "starting the command")
            ps = t.started()
            t.prove(len(ps) == n + 1 and list(ps[-1].argv) == [name, "arg"], "a free name denotes another command")
            t.cover("command")

    def check_exports(self):
        t = self.t
        got = self.env._exports
        t.prove(len(list(got.keys())) == len(self.exports), "something else is exported, too")
        for n, v in self.exports.items():
            t.prove(n in got and same(got[n], v), "an exported variable has another value")
        if self.exports is not self.proc:
            env = t.loader.environ
            t.prove(sorted(env.keys()) == sorted(self.proc), "the process's own variables change")
            for n, v in self.proc.items():
                t.prove(eq(env[n], v), "the process's own variables change")


def same(a, b):
    if isinstance(b, str) or getattr(type(b), "realtype", None) is str:
        if not (isinstance(a, str) or getattr(type(a), "realtype", None) is str) or len(a) != len(b):
            return False
        return eq(a, b)
    return a is b


class Thing(object):
    pass


def history(t, n, names, kinds, hows):
    """Any history of assignments, exports and un-exports."""
    s = Scope(t, t.pick("kind", kinds))
    how = t.pick("how", hows)
    for i in range(n):
        op = t.pick("op%d" % i, ["assign", "export", "unexport", "read"])
        name = t.pick("name%d" % i, names)
        if op == "assign":
            if (name not in s.exports or s.exports is not s.proc) and t.flag("object%d" % i):
                s.assign(name, Thing(), how)
            else:
                s.assign(name, t.str("v%d" % i, t.choose("len%d" % i, 2), exclude="\0", escapes=True), how)
        elif op == "export":
            s.export(name, t.str("v%d" % i, t.choose("len%d" % i, 2), exclude="\0", escapes=True), how)
        elif op == "unexport":
            if name not in s.exports:
                t.assume(False)
            s.unexport(name, how)
        else:
            s.check(name, how)
        s.check_exports()
    for name in names:
        s.check(name, how)
    s.check_exports()


ALL = ["variable", "exported", "command", "both"]
scenario("C16", "history", args=(2, ["A", "ls", "len"], ["other", "default"], ["item", "statement"]), covers=ALL + ["builtin"],
         bounds="any 2 assignments, exports, un-exports and reads of 3 names, values of any 0-1 character or an object")(history)
scenario("C16", "one_name", args=(4, ["A"], ["other"], ["item"]), covers=ALL,
         bounds="any 4 assignments, exports, un-exports and reads of a name")(history)
scenario("C16", "free_name", args=(3, ["ls"], ["default"], ["item"]), covers=ALL,
         bounds="any 3 assignments, exports, un-exports and reads of a name")(history)
scenario("C16", "builtin_name", args=(3, ["len"], ["other"], ["item"]), covers=["variable", "exported", "both", "builtin"],
         bounds="any 3 assignments, exports, un-exports and reads of the name of a Python builtin")(history)
scenario("C16", "history_deep", args=(3, ["A", "ls", "len"], ["other"], ["item", "statement"]), covers=ALL + ["builtin"], tier="thorough",
         bounds="any 3 assignments, exports, un-exports and reads of 3 names")(history)
scenario("C16", "one_name_deep", args=(5, ["A"], ["other", "default"], ["item"]), covers=ALL, tier="thorough",
         bounds="any 5 assignments, exports, un-exports and reads of a name")(history)


def anyname(t, names):
    """Any name."""
    s = Scope(t)
    name = t.pick("name", names)
    v = t.str("v", t.choose("len", 2), exclude="\0", escapes=True)
    ops = t.pick("ops", ["assign", "export", "none", "assign both", "export assign"])
    for op in ops.split():
        if op == "assign":
            t.call(lambda: s.sc.__setitem__(name, v), "an assignment")
        elif op == "export":
            t.call(lambda: s.env._exports.__setitem__(name, v), "exporting")
    exported = "export" in ops
    import builtins
    if ops == "none" and not hasattr(builtins, name):
        got = t.call(lambda: s.sc[name], "reading a name")
        t.prove(isinstance(got, t.mod("pipeline.base").Pipeline), "a free name does not denote a command")
        t.prog("*", exits(0))
        t.call(lambda: got("arg").run(), "starting the command")
        ps = t.started()
        t.prove(len(ps) == 1 and len(ps[0].argv) == 2, "a free name denotes another command")
        t.prove(and_(eq(ps[0].argv[0], name), eq(ps[0].argv[1], "arg")), "a free name denotes another command")
        t.cover("command")
    elif ops != "none":
        t.prove(same(t.call(lambda: s.sc[name], "reading a name"), v), "a name reads back something else")
        t.cover("assigned")
    got = s.env._exports
    t.prove(len(list(got.keys())) == 2 + exported, "something else is exported, too")
    if exported:
        t.prove(same(got[name], v), "an exported variable has another value")
    t.prove(eq(got["A"], "first"), "another variable changes")
    for what, f in (("keys()", lambda: list(s.sc.keys())), ("iteration", lambda: list(type(s.sc).__iter__(s.sc)))):
        listed = t.call(f, "listing the names")
        for n in ["A", "env", "cd", "tool"] + ([name] if ops != "none" else []):
            t.prove(n in listed, "%s is not among the names listed by %s" % (n, what))


WORDS = ["a", "B", "x1", "a_b", "é", "git", "PATHS", "AA", "print", "environ", "pieshell", "last", "self", "name", "value", "args", "x" * 40]
scenario("C16", "anyname", args=(WORDS,), covers=["command", "assigned"], bounds="%d names" % len(WORDS))(anyname)


BUILTINS = """ArithmeticError AssertionError AttributeError BaseException BlockingIOError BrokenPipeError BufferError BytesWarning
          ChildProcessError ConnectionAbortedError ConnectionError ConnectionRefusedError ConnectionResetError DeprecationWarning
          EOFError Ellipsis EnvironmentError Exception False FileExistsError FileNotFoundError FloatingPointError FutureWarning
          GeneratorExit IOError ImportError ImportWarning IndentationError IndexError InterruptedError IsADirectoryError KeyError
          KeyboardInterrupt LookupError MemoryError ModuleNotFoundError NameError None NotADirectoryError NotImplemented
          NotImplementedError OSError OverflowError PendingDeprecationWarning PermissionError ProcessLookupError RecursionError
          ReferenceError ResourceWarning RuntimeError RuntimeWarning StopAsyncIteration StopIteration SyntaxError SyntaxWarning
          SystemError SystemExit TabError TimeoutError True TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError
          UnicodeError UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning ZeroDivisionError abs all any ascii bin
          bool breakpoint bytearray bytes callable chr classmethod compile complex delattr dict dir divmod enumerate eval exec
          filter float format frozenset getattr globals hasattr hash help hex id input int isinstance issubclass iter len list
          locals map max memoryview min next object oct open ord pow print property range repr reversed round set setattr slice
          sorted staticmethod str sum super tuple type vars zip""".split()


def builtin(t, names):
    """Any builtin of Python: itself, until the name is assigned or exported."""
    s = Scope(t, t.pick("kind", ["other", "default"]))
    import builtins
    name = t.pick("name", names)
    how = t.pick("how", ["item", "statement"])
    t.prove(t.call(lambda: name in s.sc, "asking for a name") in (True, False), "asking for a name gives something else")
    got = s.read(name, how)
    own = getattr(builtins, name)
    if isinstance(own, type) and issubclass(own, BaseException) or not callable(own):
        t.prove(got is own, "a Python builtin reads back something else")
    else:
        t.prove(callable(got) and not isinstance(got, t.mod("pipeline.base").Pipeline), "a Python builtin reads back something else")
    t.cover("builtin")
    if name in ("None", "True", "False"):
        return
    s.assign(name, "mine", how)
    s.check(name, how)
    t.prove(getattr(builtins, name) is own, "assigning a name changes the builtin itself")


scenario("C16", "builtins", args=(BUILTINS,), covers=["builtin", "variable"], bounds="all %d public builtins of Python" % len(BUILTINS))(builtin)


def several(t, n):
    """Several environments, one after the other, in one scope: names are looked up in the one that is in use."""
    t.boot(environ=dict(PROC), env=False)
    t.k.mkdir_p("/w")
    es = [t.environ.Environment(cwd="/w", exports={"A": "a%d" % i} if i == 0 else {"B": "b%d" % i}) for i in range(2)]
    ex = [{"A": "a0"}, {"B": "b1"}]
    sc = t.environ.EnvScope(env=es[0])
    cur = 0
    pv = {}
    for i in range(n):
        op = t.pick("op%d" % i, ["switch", "assign", "temporary"])
        if op == "switch":
            cur = t.choose("to%d" % i, 2)
            sc["env"] = es[cur]
            t.prove(sc["env"] is es[cur], "env is not the environment assigned")
        elif op == "assign":
            name = t.pick("name%d" % i, ["A", "B", "C"])
            v = t.str("v%d" % i, 1)
            sc[name] = v
            if name in ex[cur]:
                ex[cur][name] = v
                pv.pop(name, None)
            else:
                pv[name] = v
        else:
            if es[cur]._scope is None:
                t.assume(False)
            other = 1 - cur

            def block():
                with es[cur].temporary_env(es[other]):
                    if "A" not in pv and other == 0:
                        t.prove(same(sc["A"], ex[0]["A"]), "a temporary environment is not in use")
                    if t.flag("raises%d" % i):
                        raise ValueError("block")
            r = t.attempt(block)
            t.prove(r.ok or isinstance(r.value, ValueError), "a temporary environment raises an error")
            t.prove(sc["env"] is es[cur], "a temporary environment stays")
        for name in ("A", "B", "C"):
            if name in pv:
                if name not in ex[cur]:
                    t.prove(same(sc[name], pv[name]), "a Python variable reads back something else")
            elif name in ex[cur]:
                t.prove(same(sc[name], ex[cur][name]), "an exported variable reads back something else")
            else:
                t.prove(isinstance(sc[name], t.mod("pipeline.base").Pipeline), "a free name does not denote a command")
        for e, x in zip(es, ex):
            t.prove(sorted(e._exports) == sorted(x), "something else is exported, too")
            for name, v in x.items():
                t.prove(same(e._exports[name], v), "an exported variable has another value")
    t.cover("ends")


scenario("C16", "several", args=(3,), covers=["ends"], bounds="any 3 switches of the environment and assignments of 3 names")(several)
scenario("C16", "several_deep", args=(4,), covers=["ends"], tier="thorough",
         bounds="any 4 switches of the environment and assignments of 3 names")(several)


def function(t, names):
    """In a function made with pyshfunction: exported variables, then those of its module, builtins, commands."""
    t.boot(environ=dict(PROC), env=False)
    t.k.mkdir_p("/w")
    ev, mv, nv = t.str("exported", 1), t.str("module", 1), t.str("new", 1)
    exports, module, own = {"PATH": "/bin"}, {"__builtins__": {}}, {}
    name = t.pick("name", names)
    if t.flag("is_exported"):
        exports[name] = ev
    e = t.environ.Environment(cwd="/w", exports=dict(exports))
    how = t.pick("how", ["scope", "function"])
    if how == "scope":
        sc = t.environ.EnvScope(env=e, _parent_scope=module)
    else:
        exec("def f():\n    pass\n", module)
        sc = t.call(lambda: e.pyshfunction(module["f"]), "making a function").__globals__
    if t.flag("in_module"):
        module[name] = mv
    read = lambda: t.call(lambda: sc[name], "reading a name")
    expect = exports.get(name, module.get(name))
    for step in range(2):
        if expect is not None:
            t.prove(same(read(), expect), "a name reads back something else in a function")
            t.cover("variable")
        elif name == "len":
            t.prove(not hasattr(read(), "run"), "a Python builtin reads back something else in a function")
        else:
            t.prove(isinstance(read(), t.mod("pipeline.base").Pipeline), "a free name does not denote a command in a function")
            t.cover("command")
        if step == 0:
            if not t.flag("assign"):
                break
            t.call(lambda: sc.__setitem__(name, nv), "an assignment")
            expect = nv
            if name in exports:
                t.prove(same(e._exports[name], nv), "an exported variable keeps its old value")
    t.prove(sorted(e._exports) == sorted(exports), "something else is exported, too")
    t.prove((name in module) == (module.get(name) is not None), "a function changes its module")


scenario("C16", "function", args=(["A", "ls", "len"],), covers=["variable", "command"],
         bounds="3 names, exported or not, in the module or not, assigned or not")(function)
