"""copyreg and pickle at the level of objects: what is saved for each object is decided by the reduce functions as in
Python 3.9 (protocol 4), the byte stream is a token.  Every interpreter of the world resolves the names of classes and
functions in its own modules."""
import copyreg as _copyreg
import pickle as _pickle
import sys
import types

from .engine import eng, Unsupported

ATOMS = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))
HEAPTYPE = 1 << 9


class CopyregModule(object):
    def __init__(self):
        self.__name__ = "copyreg"
        self.dispatch_table = {}

    def pickle(self, ob_type, pickle_function, constructor_ob=None):
        if not callable(pickle_function):
            raise TypeError("reduction functions must be callable")
        self.dispatch_table[ob_type] = pickle_function

    def constructor(self, f):
        if not callable(f):
            raise TypeError("constructors must be callable")

    def __getattr__(self, name):
        return getattr(_copyreg, name)


def _is_atom(x):
    return type(x) in ATOMS or getattr(type(x), "realtype", None) in (str, bytes, int)


class PickleModule(object):
    HIGHEST_PROTOCOL, DEFAULT_PROTOCOL = 5, 4
    PickleError, PicklingError, UnpicklingError = _pickle.PickleError, _pickle.PicklingError, _pickle.UnpicklingError

    def __init__(self, loader):
        self.__name__ = "pickle"
        self.loader = loader

    # ---------------------------------------------------------------- writing
    def dumps(self, obj, protocol=None, **kw):
        table = eng.w.data.setdefault("pickles", [])
        table.append(self.save(obj, {}, []))
        # (bytes for which base64 needs all its letters and padding)
        return b"\x80\x04SX%02d\xfb\xef\xbe\xff." % (len(table) - 1)

    def save(self, x, memo, keep, depth=0):
        if depth > 200:
            raise RecursionError("maximum recursion depth exceeded while pickling an object")
        if _is_atom(x):
            return ("atom", x)
        if id(x) in memo:
            return ("ref", memo[id(x)])
        t = type(x)
        keep.append(x)

        def sub(y):
            return self.save(y, memo, keep, depth + 1)

        def number():
            memo[id(x)] = len(memo)
            return memo[id(x)]
        if t is tuple:
            items = [sub(y) for y in x]
            if id(x) in memo:
                return ("ref", memo[id(x)])
            return ("tuple", number(), items)
        if t is list:
            n = number()
            return ("list", n, [sub(y) for y in x])
        if t is dict:
            n = number()
            return ("dict", n, [(sub(k), sub(v)) for k, v in dict.items(x)])
        if t in (set, frozenset, bytearray):
            return (t.__name__, number(), [sub(y) for y in x])
        if x is type(None) or x is type(NotImplemented) or x is type(Ellipsis):
            return ("typeof", number(), {type(None): None, type(NotImplemented): NotImplemented}.get(x, Ellipsis))
        named = [k for k, m in self.loader.modules.items() if m is x]
        if not named and t is types.ModuleType and sys.modules.get(x.__name__) is x:
            named = [x.__name__]
        if named:
            # PyPy: modules by name, those that cannot be imported with what they contain
            return ("module", number(), named[0])
        if t is types.ModuleType:
            n = number()
            return ("newmodule", n, x.__name__, sub(dict(x.__dict__)))
        if t is types.FunctionType or t is type or t is types.BuiltinFunctionType and not isinstance(x.__self__, object):
            return self.save_global(x, number())
        copyreg = self.loader.modules["copyreg"]
        reduce = copyreg.dispatch_table.get(t)
        if reduce is not None:
            rv = reduce(x)
        elif issubclass(t, type):
            return self.save_global(x, number())
        else:
            rv = self.reduce(x)
        if isinstance(rv, str):
            return self.save_global(x, number(), rv)
        if not isinstance(rv, tuple):
            raise _pickle.PicklingError("reduce must return string or tuple")
        func, args, state, listitems, dictitems = (tuple(rv) + (None,) * 5)[:5]
        if not isinstance(args, tuple):
            raise _pickle.PicklingError("args from save_reduce() must be a tuple")
        if not callable(func):
            raise _pickle.PicklingError("func from save_reduce() must be callable")
        newobj = getattr(func, "__name__", "") == "__newobj__"
        sfunc = None if newobj else sub(func)
        sargs = [sub(y) for y in args]
        if id(x) in memo:
            return ("ref", memo[id(x)])
        n = number()
        li = None if listitems is None else [sub(y) for y in listitems]
        di = None if dictitems is None else [(sub(k), sub(v)) for k, v in dictitems]
        st = None if state is None else sub(state)
        return ("obj", n, sfunc, sargs, li, di, st)

    def save_global(self, x, n, name=None):
        name = name or getattr(x, "__qualname__", None) or x.__name__
        modname = getattr(x, "__module__", None)
        if modname is None:
            modname = "builtins"
        if "<locals>" in name or "<lambda>" in name:
            raise AttributeError("Can't pickle local object %r" % name)
        try:
            y = self.resolve(modname, name)
        except (ImportError, KeyError, AttributeError):
            raise _pickle.PicklingError("Can't pickle %s: attribute lookup failed" % name)
        if y is not x:
            raise _pickle.PicklingError("Can't pickle %s: it's not the same object as %s.%s" % (name, modname, name))
        return ("global", n, modname, name)

    def resolve(self, modname, name):
        if modname.split(".")[0] in ("sx", "checks", "__main__"):
            raise AttributeError(name)
        if modname == "builtins":
            import builtins
            m = builtins
        else:
            m = self.loader.import_module(modname)
        for a in name.split("."):
            m = getattr(m, a)
        return m

    def reduce(self, x):
        t = type(x)
        if t.__reduce_ex__ is not object.__reduce_ex__:
            return x.__reduce_ex__(4)
        if t.__reduce__ is not object.__reduce__:
            return x.__reduce__()
        if not t.__flags__ & HEAPTYPE or t.__module__.split(".")[0] in ("_asyncio", "asyncio", "sx", "checks", "_thread", "_io"):
            raise TypeError("cannot pickle '%s' object" % t.__name__)
        args = ()
        if hasattr(t, "__getnewargs__"):
            args = t.__getnewargs__(x)
        # looked up on the object, object.__getstate__ came with Python 3.11
        state = None
        has = False
        f = _MISSING
        for c in t.__mro__:
            if c is not object and "__getstate__" in c.__dict__:
                f = x.__getstate__
                break
        else:
            if "__getstate__" in getattr(x, "__dict__", {}):
                f = x.__dict__["__getstate__"]
            else:
                g = getattr(t, "__getattr__", None)
                if g is not None:
                    try:
                        f = g(x, "__getstate__")
                    except AttributeError:
                        eng.guard() if hasattr(eng, "guard") else None
                    if f is getattr(object, "__getstate__", 0):
                        f = _MISSING
                    elif getattr(f, "__self__", None) is not None and getattr(f, "__objclass__", None) is None \
                            and getattr(type(f), "__name__", "") == "builtin_function_or_method" and f.__name__ == "__getstate__":
                        f = _MISSING    # of a delegate, not there in Python 3.9
        if f is not _MISSING:
            state = f()
            has = True
        if not has:
            state = getattr(x, "__dict__", None) or None
            slots = {}
            for c in t.__mro__:
                for s in (getattr(c, "__slots__", ()) if "__slots__" in c.__dict__ else ()):
                    if s not in ("__dict__", "__weakref__") and hasattr(x, s):
                        slots[s] = getattr(x, s)
            if slots:
                state = (state, slots)
        li = iter(x) if isinstance(x, list) else None
        di = iter(dict.items(x)) if isinstance(x, dict) else None
        return _copyreg.__newobj__, (t,) + tuple(args), state, li, di

    # ---------------------------------------------------------------- reading
    def loads(self, data, **kw):
        table = eng.w.data.get("pickles", [])
        if not (isinstance(data, bytes) and len(data) == 11 and data[:4] == b"\x80\x04SX" and data[6:] == b"\xfb\xef\xbe\xff."):
            raise _pickle.UnpicklingError("invalid load key")
        return self.load_(table[int(data[4:6])], {})

    def load_(self, r, memo):
        kind = r[0]

        def sub(y):
            return self.load_(y, memo)
        if kind == "atom":
            return r[1]
        if kind == "ref":
            return memo[r[1]]
        n = r[1]
        if kind == "tuple":
            x = memo[n] = tuple([sub(y) for y in r[2]])
        elif kind == "list":
            x = memo[n] = []
            x.extend(sub(y) for y in r[2])
        elif kind == "dict":
            x = memo[n] = {}
            for k, v in r[2]:
                k = sub(k)
                x[k] = sub(v)
        elif kind in ("set", "frozenset", "bytearray"):
            x = memo[n] = {"set": set, "frozenset": frozenset, "bytearray": bytearray}[kind]([sub(y) for y in r[2]])
        elif kind == "typeof":
            x = memo[n] = type(r[2])
        elif kind == "module":
            x = memo[n] = self.loader.import_module(r[2])
        elif kind == "newmodule":
            x = memo[n] = types.ModuleType(r[2])
            x.__dict__.update(sub(r[3]))
        elif kind == "global":
            x = memo[n] = self.resolve(r[2], r[3])
        else:
            _, n, sfunc, sargs, li, di, st = r
            if sfunc is None:
                args = [sub(y) for y in sargs]
                x = args[0].__new__(*args)
            else:
                f = sub(sfunc)
                x = f(*[sub(y) for y in sargs])
            memo[n] = x
            if li is not None:
                for y in li:
                    x.append(sub(y))
            if di is not None:
                for k, v in di:
                    k = sub(k)
                    x[k] = sub(v)
            if st is not None:
                state = sub(st)
                setstate = getattr(x, "__setstate__", None)
                if setstate is not None:
                    setstate(state)
                else:
                    slots = None
                    if isinstance(state, tuple) and len(state) == 2:
                        state, slots = state
                    if state:
                        for k, v in state.items():
                            x.__dict__[k] = v
                    if slots:
                        for k, v in slots.items():
                            setattr(x, k, v)
        return x

    def __getattr__(self, name):
        raise Unsupported("pickle.%s is not modelled" % name)


_MISSING = object()
