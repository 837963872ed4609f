"""Run-time hooks of instrumented code (symbolic mode only)."""
import builtins
import collections
import functools
import io
import operator
import sys
import types
import z3

from .engine import eng, EngineSignal
from . import values
from .values import (SYM, SYMSET, SymBool, SymInt, SymStr, SymBytes, SymSeq, mk_str, mk_bytes, mkint, mkbool,
                     els_of, el_eq, conj, disj, and_, or_, not_ as vnot, test, unsupported, contains_sym,
                     has_symkey, deep_eq, KeyStr, KeyInt, KeyBytes)

SymStr_T = {SymStr, KeyStr}
SymInt_T = {SymInt, KeyInt}
SymBytes_T = {SymBytes, KeyBytes}
SymBool_T = {SymBool}

_dict_get = dict.__getitem__
_MISSING = object()


def enter(name):
    eng.functions.add(name)


guard = eng.guard
slice = builtins.slice


# ------------------------------------------------------------------ comparison / membership

def is_(a, b):
    if isinstance(a, SymBool):
        return a if b else vnot(a)
    return a is b


def is_not(a, b):
    return vnot(is_(a, b))


def not_(a):
    if type(a) in SymBool_T:
        return vnot(a)
    return not a


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta in SYMSET or tb in SYMSET:
        return a == b
    if ta in _CONT and tb in _CONT and (contains_sym(a) or contains_sym(b)):
        return deep_eq(a, b)
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in SYMSET or tb in SYMSET:
        return a != b
    if ta in _CONT and tb in _CONT and (contains_sym(a) or contains_sym(b)):
        return vnot(deep_eq(a, b))
    return a != b


_CONT = {list, tuple, dict}


def in_(a, b):
    tb = type(b)
    if tb in SYMSET:
        return b.contains(a)
    ta = type(a)
    if ta in SYMSET:
        if tb is str or tb is bytes:
            return (SymStr if tb is str else SymBytes)(els_of(b)).contains(a)
        if isinstance(b, dict) and type(b).__contains__ is dict.__contains__:
            return or_(*[eq(k, a) for k in dict.keys(b)])
        if tb in (list, tuple, set, frozenset, collections.deque, type({}.keys()), type({}.values()), range):
            return or_(*[eq(k, a) for k in b])
        f = getattr(tb, "__contains__", None)
        if f is not None and isinstance(f, types.FunctionType):
            return f(b, a)
        if f is None:
            return or_(*[eq(k, a) for k in b])
        unsupported("membership of a symbolic value in %s" % tb)
    if isinstance(b, dict) and type(b).__contains__ is dict.__contains__ and symkeys(b):
        return or_(*[eq(k, a) for k in dict.keys(b)])
    if tb in (list, tuple, set, frozenset) and contains_sym(b, 1):
        return or_(*[eq(k, a) for k in b])
    return a in b


def not_in(a, b):
    return vnot(in_(a, b))


# ------------------------------------------------------------------ dictionaries

def symkeys(d):
    return eng.w.data.get("symkeys") and has_symkey(d)


def dfind(d, key):
    """the stored key equal to `key` (branches), or _MISSING"""
    for k in dict.keys(d):
        if type(k) in SYMSET or type(key) in SYMSET:
            if test_eq(k, key):
                return k
        elif type(k) in _CONT or type(key) in _CONT:
            if test_eq(k, key):
                return k
        elif k == key:
            return k
    return _MISSING


def test_eq(a, b):
    r = deep_eq(a, b)
    return test(r) if type(r) is not bool else r


def dload(d, key):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.__getitem__(d, key)
    k = dfind(d, key)
    if k is _MISSING:
        miss = getattr(type(d), "__missing__", None)
        if miss is not None:
            return miss(d, key)
        raise KeyError(key)
    return dict.__getitem__(d, k)


def dstore(d, key, value):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.__setitem__(d, key, value)
    k = dfind(d, key)
    if k is _MISSING:
        if type(key) in SYMSET:
            eng.w.data["symkeys"] = True
            key = fresh_key(key)
        k = key
    dict.__setitem__(d, k, value)


def fresh_key(key):
    """A symbolic key object: all symbolic keys share one hash; identity decides inside the C dictionary."""
    c = _KEYCLASS[type(key)]
    n = object.__new__(c)
    for s in ("els", "e"):
        if hasattr(key, s):
            setattr(n, s, getattr(key, s))
    return n


def ddel(d, key):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.__delitem__(d, key)
    k = dfind(d, key)
    if k is _MISSING:
        raise KeyError(key)
    dict.__delitem__(d, k)


def dget(d, key, default=None):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.get(d, key, default)
    k = dfind(d, key)
    return default if k is _MISSING else dict.__getitem__(d, k)


def dpop(d, key, *default):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.pop(d, key, *default)
    k = dfind(d, key)
    if k is _MISSING:
        if default:
            return default[0]
        raise KeyError(key)
    return dict.pop(d, k)


def dsetdefault(d, key, default=None):
    if type(key) not in SYMSET and not symkeys(d):
        return dict.setdefault(d, key, default)
    k = dfind(d, key)
    if k is _MISSING:
        dstore(d, key, default)
        return default
    return dict.__getitem__(d, k)


def dupdate(d, *a, **kw):
    for src in a:
        if hasattr(src, "keys"):
            for k in src.keys():
                dstore(d, k, get(src, k))
        else:
            for k, v in src:
                dstore(d, k, v)
    for k, v in kw.items():
        dstore(d, k, v)


def dcontains(d, key):
    return or_(*[eq(k, key) for k in dict.keys(d)]) if (type(key) in SYMSET or symkeys(d)) else dict.__contains__(d, key)


def mkdict(pairs=(), **kw):
    if type(pairs) is dict:
        return builtins.dict(pairs, **kw)
    if isinstance(pairs, builtins.dict) and type(pairs).keys is not builtins.dict.keys:
        pairs = [(k, get(pairs, k)) for k in pairs.keys()]
    d = {}
    if hasattr(pairs, "keys"):
        dupdate(d, pairs)
    else:
        for k, v in pairs:
            dstore(d, k, v)
    for k, v in kw.items():
        dstore(d, k, v)
    return d


def mkset(items=()):
    items = list(items)
    if contains_sym(items, 2):
        out = []
        for x in items:
            if not any(test_eq(x, y) for y in out):
                out.append(x)
        return SymSet(out)
    return builtins.set(items) if items else LazySet()


dict_ = mkdict
set_ = mkset


class SymSet(object):
    """A set with symbolic members (insertion ordered)."""
    def __init__(self, items):
        self.items = items

    def __contains__(self, x):
        return builtins.bool(or_(*[deep_eq(x, y) for y in self.items]))

    def contains(self, x):
        return or_(*[deep_eq(x, y) for y in self.items])

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def discard(self, x):
        self.items = [y for y in self.items if not test_eq(x, y)]

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def update(self, xs):
        for x in xs:
            self.add(x)

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)


class LazySet(builtins.set):
    """An empty set that is going to be filled, maybe with symbolic members (then they are in .sym)"""
    sym = None

    def add(self, x):
        if self.sym is not None:
            self.sym.add(x)
        elif contains_sym([x], 2):
            self.sym = SymSet(list(builtins.set.__iter__(self)))
            self.sym.add(x)
        else:
            builtins.set.add(self, x)

    def update(self, *xss):
        for xs in xss:
            for x in xs:
                self.add(x)

    def __contains__(self, x):
        if self.sym is None and not contains_sym([x], 2):
            return builtins.set.__contains__(self, x)
        return builtins.bool(self.contains(x))

    def contains(self, x):
        return or_(*[deep_eq(x, y) for y in self])

    def discard(self, x):
        if self.sym is None and contains_sym([x], 2):
            self.sym = SymSet(list(builtins.set.__iter__(self)))
        return builtins.set.discard(self, x) if self.sym is None else self.sym.discard(x)

    def remove(self, x):
        if self.sym is None and contains_sym([x], 2):
            self.sym = SymSet(list(builtins.set.__iter__(self)))
        return builtins.set.remove(self, x) if self.sym is None else self.sym.remove(x)

    def __iter__(self):
        return builtins.set.__iter__(self) if self.sym is None else iter(self.sym)

    def __len__(self):
        return builtins.set.__len__(self) if self.sym is None else len(self.sym)

    def __repr__(self):
        return repr_of(builtins.set(self)) if self.sym is None else "{...}"


def _lazy(name):
    real = getattr(builtins.set, name)

    def op(self, *a):
        if self.sym is not None or contains_sym(list(a), 3) or any(isinstance(x, LazySet) and x.sym is not None for x in a):
            unsupported("set operation %s with symbolic members" % name)
        return real(self, *a)
    return op


for _n in ("pop", "clear", "copy", "union", "intersection", "difference", "symmetric_difference", "intersection_update", "difference_update",
           "symmetric_difference_update", "issubset", "issuperset", "isdisjoint", "__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__",
           "__rsub__", "__rxor__", "__ior__", "__iand__", "__isub__", "__ixor__", "__eq__", "__ne__", "__le__", "__lt__", "__ge__", "__gt__"):
    setattr(LazySet, _n, _lazy(_n))
LazySet.__hash__ = None


class SubProxy(object):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return dload(self.d, k)

    def __setitem__(self, k, v):
        dstore(self.d, k, v)

    def __delitem__(self, k):
        ddel(self.d, k)


def sub(a):
    if isinstance(a, builtins.dict) and type(a).__setitem__ is builtins.dict.__setitem__:
        return SubProxy(a)
    return a


def get(a, i):
    ta = type(a)
    if isinstance(a, builtins.dict) and ta.__getitem__ is _dict_get:
        return dload(a, i)
    if type(i) in SymInt_T and ta in (list, tuple, str, bytes):
        # choose the element without branching where the elements are integers
        return a[eng.concretize(i)]
    return a[i]


# ------------------------------------------------------------------ formatting

def to_str(x):
    t = type(x)
    if t in SymStr_T:
        return x
    if t in SymInt_T:
        return str_of_int(x)
    if t in SymBool_T:
        return "True" if x else "False"
    if t in SymBytes_T:
        unsupported("str() of symbolic bytes")
    if t in _BASIC:
        if t in _CONT and contains_sym(x):
            return repr_of(x)
        return str(x)
    if issubclass(t, BaseException):
        f = t.__str__
        if isinstance(f, types.FunctionType):
            return f(x)
        if contains_sym(x.args):
            return mod("%s", (x.args[0],)) if len(x.args) == 1 else "<exception>"
        return str(x)
    f = getattr(t, "__str__", None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if not isinstance(r, (str, SymStr)):
            raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
        return r
    if f is object.__str__ or f is type.__str__:
        return repr_of(x)
    return str(x)


_BASIC = {int, str, bytes, float, bool, list, tuple, dict, type(None), set}


def str_of_int(x):
    """Decimal digits; branches on sign and number of digits only."""
    if test(x.e < 0):
        return "-" + str_of_int2(z3.simplify(-x.e))
    return str_of_int2(x.e)


def str_of_int2(e):
    n = 1
    while not test(e < 10 ** n):
        n += 1
        if n > 20:
            unsupported("very large integers")
    els = []
    for k in range(n - 1, -1, -1):
        els.append(z3.simplify(48 + (e / (10 ** k)) % 10))
    return mk_str([x.as_long() if z3.is_int_value(x) else x for x in els])


def repr_of(x):
    t = type(x)
    if t in SymStr_T:
        if eng.w.data.get("escapes"):
            x = repr_escapes(x)
        if eng.w.data.get("quoting"):
            return repr_quoted(x)
        return "'" + x + "'"       # placeholder: quoting is not modelled; only used in messages
    if t in SymInt_T:
        return str_of_int(x)
    if t in SymBool_T:
        return to_str(x)
    if t in SymBytes_T:
        return "b'...'"
    if t in (list, tuple) and contains_sym(x):
        return mk_join(", ", [call_repr(y) for y in x], "[" if t is list else "(", "]" if t is list else ")")
    if t is dict and contains_sym(x):
        return mk_join(", ", [call_repr(k) + ": " + call_repr(v) for k, v in x.items()], "{", "}")
    f = getattr(t, "__repr__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.repr(x)


def repr_quoted(x):
    """repr of printable ASCII text, exactly"""
    out, single, double = [], False, False
    for e in x.els:
        if not test(values.el_range(e, 32, 126)):
            unsupported("repr of other than printable ASCII text")
        if test(values.el_range(e, 39, 39)):
            single = True
            out.append(39)
        elif test(values.el_range(e, 34, 34)):
            double = True
            out.append(34)
        elif test(values.el_range(e, 92, 92)):
            out += [92, 92]
        else:
            out.append(e)
    q = 34 if single and not double else 39
    res = [q]
    for i, e in enumerate(out):
        if q == 39 and type(e) is int and e == 39:
            res.append(92)
        res.append(e)
    return mk_str(res + [q])


def repr_escapes(x):
    """repr leaves no surrogates, so that its result can always be encoded"""
    out = []
    for e in x.els:
        if test(values.el_range(e, 0xD800, 0xDFFF)):
            out += els_of(mk_str([e]).encode("utf-8", "backslashreplace"))
        else:
            out.append(e)
    return mk_str(out)


def call_repr(x):
    return repr_of(x)


def mk_join(sep, parts, a="", b=""):
    out = a
    for i, p in enumerate(parts):
        if i:
            out = out + sep
        out = out + p
    return out + b


def mod(a, b):
    ta = type(a)
    if ta is not str and ta not in SymStr_T:
        if ta is bytes and (type(b) in SYMSET or contains_sym(b)):
            unsupported("bytes %")
        return a % b
    if ta is str and not _fmt_needs(b):
        return a % b
    return str_mod(a, b)


def _fmt_needs(b):
    t = type(b)
    if t in SYMSET:
        return True
    if t is tuple:
        return any(_fmt_obj(x) for x in b)
    if isinstance(b, builtins.dict) or hasattr(b, "keys"):
        return True
    return _fmt_obj(b)


def _fmt_obj(x):
    t = type(x)
    if t in SYMSET:
        return True
    if t in _CONT:
        return contains_sym(x)
    return t not in _BASIC


def str_mod(fmt, args):
    """printf-style formatting as Python does it, for the conversions %s %r %a %d %i %c %x and %%."""
    F = SymStr(els_of(fmt))
    els = F.els
    n = len(els)
    ismap = (hasattr(args, "keys") or hasattr(type(args), "__getitem__")) and not isinstance(
        args, (tuple, str, bytes, SymStr, SymBytes))
    out = []
    argidx = 0
    seq = args if isinstance(args, tuple) else None
    used = 0

    def nextarg():
        nonlocal used
        if seq is not None:
            if used >= len(seq):
                raise TypeError("not enough arguments for format string")
            used += 1
            return seq[used - 1]
        if used:
            raise TypeError("not enough arguments for format string")
        used += 1
        return args

    i = 0
    usedmap = False
    while i < n:
        if not test(el_eq(els[i], 37)):
            out.append(els[i])
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError("incomplete format")
        key = None
        if test(el_eq(els[i], 40)):
            i += 1
            depth = 1
            start = i
            while depth > 0 and i < n:
                if test(el_eq(els[i], 41)):
                    depth -= 1
                elif test(el_eq(els[i], 40)):
                    depth += 1
                i += 1
            if depth > 0:
                raise ValueError("incomplete format key")
            if not ismap:
                raise TypeError("format requires a mapping")
            key = mk_str(els[start:i - 1])
            usedmap = True
        # flags, width, precision, length modifier
        flags = False
        while i < n and test(values.el_in(els[i], [ord(c) for c in "#0- +"])):
            flags = True
            i += 1
        while i < n and test(values.el_in(els[i], [ord(c) for c in "0123456789.*hlL"])):
            flags = True
            i += 1
        if i >= n:
            raise ValueError("incomplete format")
        c = els[i]
        i += 1
        if test(el_eq(c, 37)):
            if flags:
                unsupported("flags on %%")
            out.append(37)
            continue
        if not test(values.el_in(c, [ord(x) for x in "srdiucxXoeEfFgGa"])):
            raise ValueError("unsupported format character")
        if key is not None:
            v = get(args, key)
        else:
            v = nextarg()
        if test(el_eq(c, 115)):
            s = to_str(v)
        elif test(values.el_in(c, [114, 97])):
            s = repr_of(v)
        elif test(values.el_in(c, [100, 105, 117])):
            if isinstance(v, SymInt):
                s = str_of_int(v)
            elif isinstance(v, (int, float)):
                s = "%d" % v
            else:
                raise TypeError("%d format: a number is required")
        elif not contains_sym(v):
            kind = [x for x in "cxXoeEfFgG" if test(el_eq(c, ord(x)))][0]
            if flags:
                unsupported("format flags")
            s = ("%" + kind) % v
        else:
            unsupported("format conversion of a symbolic value")
        if flags:
            unsupported("format flags")
        out.extend(els_of(s))
    if seq is not None and used < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    if seq is None and not used and not usedmap and not ismap:
        raise TypeError("not all arguments converted during string formatting")
    return mk_str(out)


def fmt(value, conv, spec):
    if conv == 115:
        value = to_str(value)
    elif conv in (114, 97):
        value = repr_of(value)
    if type(spec) in SYMSET:
        unsupported("symbolic format spec")
    if spec == "":
        t = type(value)
        if isinstance(value, SYM) or (t not in _BASIC and type(value).__format__ is object.__format__):
            return to_str(value)
        if t in _CONT:
            return to_str(value)
        return format(value)
    if isinstance(value, SYM):
        unsupported("format spec on a symbolic value")
    return format(value, spec)


def fjoin(*parts):
    return mk_join("", parts) if parts else ""


# ------------------------------------------------------------------ calls

def _isinstance(x, cls):
    if type(x) in SYMSET or isinstance(x, SYM):
        rt = x.realtype
        if type(cls) is tuple:
            return any(_isinstance(x, c) for c in cls)
        if cls in SYMSET:
            return type(x) is cls
        return issubclass(rt, cls)
    if isinstance(x, SymSet):
        return issubclass(builtins.set, cls)
    return isinstance(x, cls)


def _type(*a, **kw):
    if len(a) == 1 and not kw:
        x = a[0]
        if isinstance(x, SYM):
            return x.realtype
        return builtins.set if type(x) is LazySet else type(x)
    return type(*a, **kw)


def _str(*a, **kw):
    if not a:
        return ""
    if len(a) == 1 and not kw:
        return to_str(a[0])
    if type(a[0]) in SymBytes_T:
        return a[0].decode(*a[1:], **kw)
    return str(*a, **kw)


def _bytes(*a, **kw):
    if len(a) == 1 and not kw:
        x = a[0]
        t = type(x)
        if t in SymBytes_T:
            return x
        if t in SymStr_T:
            raise TypeError("string argument without an encoding")
        if t in SymInt_T:
            return bytes(int(x))
        f = getattr(t, "__bytes__", None)
        if isinstance(f, types.FunctionType):
            return f(x)
        if t in (list, tuple) and contains_sym(x):
            els = [values.ex(y) for y in x]
            for e in els:
                if not test(values.el_range(e, 0, 255)):
                    raise ValueError("bytes must be in range(0, 256)")
            return mk_bytes(els)
    elif a and type(a[0]) in SymStr_T:
        return a[0].encode(*a[1:], **kw)
    return bytes(*a, **kw)


def _int(*a, **kw):
    if a and type(a[0]) in SYMSET:
        x = a[0]
        if type(x) in SymInt_T:
            return x
        if type(x) in SymBool_T:
            return mkint(values.ex(x))
        base = a[1] if len(a) > 1 else kw.get("base", 10)
        if not isinstance(base, int) or not 2 <= base <= 10:
            unsupported("int() with a base")
        s = x.strip()
        els = els_of(s)
        neg = False
        if els and test(values.el_in(els[0], [43, 45])):
            neg = test(el_eq(els[0], 45))
            els = els[1:]
        if not els:
            raise ValueError("invalid literal for int()")
        v = 0
        for e in els:
            if not test(values.el_range(e, 48, 47 + base)):
                raise ValueError("invalid literal for int()")
            v = v * base + (e - 48)
        v = z3.simplify(v) if not isinstance(v, int) else v
        r = mkint(v)
        return -r if neg else r
    return int(*a, **kw)


def _bool(*a):
    if a and type(a[0]) in SymBool_T:
        return a[0]
    if a and type(a[0]) in SymInt_T:
        return a[0] != 0
    return bool(*a)


def _ord(x):
    if isinstance(x, SymSeq):
        if len(x.els) != 1:
            raise TypeError("ord() expected a character")
        return mkint(x.els[0])
    return ord(x)


def _chr(x):
    if isinstance(x, SymInt):
        return mk_str((x.e,))
    return chr(x)


def _minmax(real, less):
    def f(*a, **kw):
        items = a[0] if len(a) == 1 else a
        items = list(items)
        if kw.get("key") is None and any(type(x) in SymInt_T for x in items):
            best = items[0]
            for x in items[1:]:
                best = values.ite(less(x, best), x, best)
            return best
        if len(a) == 1:
            return real(items, **kw)
        return real(*items, **kw)
    return f


def _getattr(obj, name, *default):
    if type(name) not in SymStr_T:
        return getattr(obj, name, *default)
    names = static_names(obj)
    n = len(name)
    for c in sorted(names):
        if len(c) == n and test_eq(name, c):
            return getattr(obj, c, *default)
    cls = type(obj)
    f = getattr(cls, "__getattr__", None)
    if f is not None:
        try:
            return f(obj, name)
        except AttributeError:
            eng.guard()
            if default:
                return default[0]
            raise
    if default:
        return default[0]
    raise AttributeError(name)


def static_names(obj):
    names = set()
    for c in type(obj).__mro__:
        names.update(c.__dict__)
    d = getattr(obj, "__dict__", None)
    if d is not None:
        names.update(k for k in dict(d) if isinstance(k, str))
    if isinstance(obj, type):
        for c in type.mro(obj):
            names.update(c.__dict__)
    names.discard("__getattr__")
    return names


def _hasattr(obj, name):
    if name == "__getstate__" and obj is type:
        return False    # came with Python 3.11
    if type(name) in SymStr_T:
        if getattr(type(obj), "__getattr__", None) is None or isinstance(obj, types.ModuleType):
            names = static_names(obj)
            return or_(*[deep_eq(name, c) for c in names if len(c) == len(name)])
        try:
            _getattr(obj, name)
        except AttributeError:
            eng.guard()
            return False
        return True
    if isinstance(obj, SYM):
        return hasattr(obj.realtype, name)
    return hasattr(obj, name)


def _setattr(obj, name, value):
    if type(name) in SymStr_T:
        unsupported("setattr with a symbolic name")
    return setattr(obj, name, value)


def _len(x):
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def _range(*a):
    return range(*[int(x) if isinstance(x, SymInt) else x for x in a])


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _all(it):
    for x in it:
        if not x:
            return False
    return True


def _hash(x):
    if isinstance(x, SYM):
        unsupported("hash of a symbolic value")
    return hash(x)


def _print(*a, **kw):
    return None


def _repr(x):
    return repr_of(x)


def _format(x, spec=""):
    return fmt(x, -1, spec)


def _dict_new(*a, **kw):
    return mkdict(*a, **kw)


def _divmod(a, b):
    return (a // b, a % b)


OVERRIDES = {}


def override(f, g):
    OVERRIDES[id(f)] = (f, g)


override(isinstance, _isinstance)
override(type, _type)
override(str, _str)
override(bytes, _bytes)
override(int, _int)
override(bool, _bool)
override(ord, _ord)
override(chr, _chr)
override(min, _minmax(min, lambda a, b: a < b))
override(max, _minmax(max, lambda a, b: a > b))
override(getattr, _getattr)
override(hasattr, _hasattr)
override(setattr, _setattr)
override(len, _len)
override(range, _range)
override(sum, _sum)
override(any, _any)
override(all, _all)
override(hash, _hash)
override(print, _print)
override(repr, _repr)
override(format, _format)
override(divmod, _divmod)
override(dict, _dict_new)
override(builtins.set, mkset)
override(dict.__getitem__, dload)
override(dict.__setitem__, dstore)
override(dict.__delitem__, ddel)
override(dict.__contains__, dcontains)
override(dict.get, dget)
override(dict.pop, dpop)
override(dict.setdefault, dsetdefault)
override(dict.update, dupdate)
override(operator.mod, mod)
override(operator.contains, lambda a, b: in_(b, a))
override(str.join, lambda s, it: _join(s, it))
override(bytes.join, lambda s, it: _join(s, it))

# C callables that may see symbolic values: they only store or pass them on
SAFE_TYPES = (list, tuple, enumerate, zip, reversed, iter, map, filter, slice, collections.deque,
              types.SimpleNamespace, functools.partial, staticmethod, classmethod, property, collections.OrderedDict,
              types.MethodType, collections.defaultdict, super, object)
SAFE_BASES = (BaseException,) + tuple(c for c in SAFE_TYPES if isinstance(c, type) and c not in (object, super))
SAFE_FUNCS = {id(f) for f in (sys.audit, iter, next, id, callable, sorted, delattr, functools.reduce, issubclass,
                              object.__setattr__, object.__getattribute__, type.__setattr__, type.__new__,
                              object.__new__, type.__call__, object.__init__, aiter, anext, list.append)}
SAFE_METHOD_TYPES = (list, collections.deque, types.GeneratorType, types.CoroutineType, types.AsyncGeneratorType)
SAFE_MODULES = ("_asyncio", "asyncio", "_contextvars", "_thread", "_weakref", "_functools", "_collections", "itertools")

_builtin_method = (types.BuiltinMethodType, types.MethodWrapperType)
_descr = (types.MethodDescriptorType, types.WrapperDescriptorType)


def _join(s, it):
    items = list(it)
    for x in items:
        if type(x) in SYMSET:
            return (SymStr if isinstance(s, str) else SymBytes)(els_of(s)).join(items)
    return s.join(items)


def call(f, *a, **kw):
    ent = OVERRIDES.get(id(f))
    if ent is not None and ent[0] is f:
        return ent[1](*a, **kw)
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        return f(*a, **kw)
    if tf is types.BuiltinFunctionType:       # functions of C modules and bound methods of C objects
        s = f.__self__
        ts = type(s)
        if ts is str or ts is bytes:
            return _str_method(s, f, a, kw)
        if isinstance(s, builtins.dict):
            g = _DICT_METHODS.get(f.__name__)
            if g is not None:
                return g(s, *a, **kw)
            return f(*a, **kw)
        if ts is list and a and f.__name__ in ("remove", "index", "count"):
            return _list_method(s, f, a)
        if not _anysym(a, kw):
            return f(*a, **kw)
        if id(f) in SAFE_FUNCS or isinstance(s, SAFE_METHOD_TYPES):
            return f(*a, **kw)
        modname = getattr(f, "__module__", None) or getattr(s, "__name__", None) or type(s).__module__
        if isinstance(modname, str) and modname.split(".")[0] in SAFE_MODULES or type(s).__module__.split(".")[0] in SAFE_MODULES:
            return f(*a, **kw)
        if ts is builtins.set or ts is frozenset:
            unsupported("set method %s with a symbolic value" % f.__name__)
        unsupported("call of %s with a symbolic argument" % getattr(f, "__qualname__", f))
    if not _anysym(a, kw):
        return f(*a, **kw)
    if isinstance(f, type):
        if isinstance(getattr(type(f), "__call__", None), types.FunctionType):    # pieshell's pipelines are classes
            return f(*a, **kw)
        if issubclass(f, SAFE_BASES) or f is object or f is super:
            return f(*a, **kw)
        if isinstance(f.__dict__.get("__init__"), types.FunctionType) or isinstance(getattr(f, "__init__", None), types.FunctionType) \
                or isinstance(getattr(f, "__new__", None), types.FunctionType):
            return f(*a, **kw)
        if f is frozenset:
            return mkset(*a)
        unsupported("construction of %s with a symbolic argument" % f)
    if isinstance(f, _descr):
        if f.__objclass__ in (str, bytes):
            return _str_method(a[0], getattr(a[0], f.__name__), a[1:], kw)
        if f.__objclass__ in (list, type, object) or issubclass(f.__objclass__, BaseException):
            return f(*a, **kw)
        unsupported("call of %s with a symbolic argument" % f)
    if isinstance(f, types.MethodWrapperType):
        if isinstance(f.__self__, builtins.dict):
            g = _DICT_METHODS.get(f.__name__)
            if g is not None:
                return g(f.__self__, *a, **kw)
        return f(*a, **kw)
    return f(*a, **kw)      # instances with __call__, partials


def _anysym(a, kw):
    for x in a:
        if type(x) in SYMSET or (type(x) in _CONT and contains_sym(x)):
            return True
    for x in kw.values():
        if type(x) in SYMSET or (type(x) in _CONT and contains_sym(x)):
            return True
    return False


def _str_method(s, f, a, kw):
    name = f.__name__
    if name == "join":
        return _join(s, a[0])
    if name in ("startswith", "endswith") and a and type(a[0]) is tuple and contains_sym(a[0]):
        return or_(*[_str_method(s, f, (x,) + a[1:], kw) for x in a[0]])
    if not _anysym(a, kw):
        if name == "format" and any(_fmt_obj(x) for x in a + tuple(kw.values())):
            return _format_method(s, a, kw)
        return f(*a, **kw)
    if name == "format":
        return _format_method(s, a, kw)
    if isinstance(s, SYM):
        return f(*a, **kw)
    x = (SymStr if type(s) is str else SymBytes)(els_of(s))
    return getattr(x, name)(*a, **kw)


def _format_method(s, a, kw):
    import string
    out = ""
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            unsupported("str.format field %r" % field)
        out = out + fmt(v, ord(conv) if conv else -1, spec or "")
    return out


def _list_method(s, f, a):
    if not (_anysym(a, {}) or contains_sym(s, 1)):
        return f(*a)
    x = a[0]
    if f.__name__ == "count":
        return sum(1 for y in s if test_eq(x, y))
    for i, y in enumerate(s):
        if x is y or test_eq(x, y):
            if f.__name__ == "index":
                return i
            del s[i]
            return None
    raise ValueError("list.%s(x): x not in list" % f.__name__)


_DICT_METHODS = {"get": dget, "pop": dpop, "setdefault": dsetdefault, "update": dupdate, "__contains__": dcontains,
                 "__getitem__": dload, "__setitem__": dstore, "__delitem__": ddel}


_KEYCLASS = {SymStr: KeyStr, SymBytes: KeyBytes, SymInt: KeyInt, KeyStr: KeyStr, KeyBytes: KeyBytes, KeyInt: KeyInt}


class Hooks(object):
    """the object instrumented code sees as __sx__"""
    pass


hooks = Hooks()
for _n in ("enter", "guard", "slice", "is_", "is_not", "not_", "eq", "ne", "in_", "not_in", "sub", "get", "mod", "fmt",
           "fjoin", "call"):
    setattr(hooks, _n, globals()[_n])
hooks.dict = mkdict
hooks.set = mkset
