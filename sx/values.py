"""Symbolic values: SymBool, SymInt, SymStr, SymBytes (z3 terms; strings have a concrete length per path
and symbolic characters).  Operations return plain Python values whenever everything is concrete."""
import z3
from .engine import eng, Unsupported, EngineSignal

IntT = z3.ArithRef
_is_true = z3.is_true
_is_false = z3.is_false


def unsupported(what):
    eng._raise(Unsupported(what))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if _is_true(e):
        return True
    if _is_false(e):
        return False
    return SymBool(e)


def to_z3bool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, SymInt):
        return c.e != 0
    if isinstance(c, z3.BoolRef):
        return c
    return z3.BoolVal(bool(c))


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def ex(x):
    """z3 term or int of an int-like."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    return x


def and_(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        e = to_z3bool(c)
        if _is_false(e):
            return False
        if not _is_true(e):
            out.append(e)
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def or_(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        e = to_z3bool(c)
        if _is_true(e):
            return True
        if not _is_false(e):
            out.append(e)
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def not_(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, (SymBool, SymInt)):
        e = to_z3bool(c)
        if z3.is_not(e):
            return mkbool(e.arg(0))
        return mkbool(z3.Not(e))
    return not c


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(c, SymBool):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool):
            x, y = ex(a), ex(b)
            if isinstance(x, int):
                x = z3.IntVal(x)
            if isinstance(y, int):
                y = z3.IntVal(y)
            return mkint(z3.If(c.e, x, y))
    return a if c else b


def el_eq(a, b):
    """equality of two elements (ints or terms) as bool or z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return a == b


def el_in(e, codes):
    """membership of an element in a collection of ints"""
    if isinstance(e, int):
        return e in codes
    cs = sorted(set(codes))
    # compress to ranges
    out = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        if i == j:
            out.append(e == cs[i])
        else:
            out.append(z3.And(e >= cs[i], e <= cs[j]))
        i = j + 1
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def el_range(e, lo, hi):
    if isinstance(e, int):
        return lo <= e <= hi
    return z3.And(e >= lo, e <= hi)


def conj(cs):
    """conjunction of bools / z3 Bools -> bool or SymBool"""
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return mkbool(out[0] if len(out) == 1 else z3.And(*out))


def disj(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return mkbool(out[0] if len(out) == 1 else z3.Or(*out))


def test(c):
    """force a bool / z3 Bool / SymBool"""
    if isinstance(c, bool):
        return c
    if isinstance(c, SymBool):
        return bool(c)
    return eng.fork(c)


class SymBool(object):
    __slots__ = ("e",)
    realtype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng.fork(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == to_z3bool(o))
        if isinstance(o, (int, SymInt)):
            return SymInt(ex(self)) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        unsupported("hash of a symbolic value")

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return and_(self, o)
        return SymInt(ex(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return or_(self, o)
        return SymInt(ex(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        return not_(self == o)
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SymInt(ex(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return "<sym bool>"


def _arith(x):
    return isinstance(x, (int, SymInt, SymBool))


class SymInt(object):
    realtype = int
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        unsupported("hash of a symbolic value")

    def __bool__(self):
        return eng.fork(self.e != 0)

    def __index__(self):
        return eng.concretize(self)

    def __int__(self):
        return eng.concretize(self)

    def __repr__(self):
        return "<sym int>"

    def __eq__(self, o):
        if _arith(o):
            return mkbool(self.e == ex(o)) if not (isinstance(o, SymInt) and o.e.eq(self.e)) else True
        if isinstance(o, float):
            return self == int(o) if o == int(o) else False
        return NotImplemented if isinstance(o, SYM) else False

    def __ne__(self, o):
        return not_(self == o)

    def _cmp(self, o, f):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if not _arith(o):
            return NotImplemented
        return mkbool(f(self.e, ex(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        if not _arith(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        return mkint(z3.simplify(self.e + ex(o)))
    __radd__ = __add__

    def __sub__(self, o):
        if not _arith(o):
            return NotImplemented
        return mkint(z3.simplify(self.e - ex(o)))

    def __rsub__(self, o):
        if not _arith(o):
            return NotImplemented
        return mkint(z3.simplify(ex(o) - self.e))

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymStr, SymBytes)):
            return o * int(self)
        if not _arith(o):
            return NotImplemented
        return mkint(z3.simplify(self.e * ex(o)))
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return mkint(z3.simplify(-self.e - 1))

    def _posdiv(self, o):
        if not isinstance(o, int):
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return o

    def __floordiv__(self, o):
        o = self._posdiv(o)
        return mkint(z3.simplify(self.e / o)) if o > 0 else -((self) // (-o)) - (1 if self % (-o) != 0 else 0)

    def __mod__(self, o):
        o = self._posdiv(o)
        if o < 0:
            unsupported("modulo by a negative number")
        return mkint(z3.simplify(self.e % o))

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __rshift__(self, k):
        k = int(k)
        return mkint(z3.simplify(self.e / (1 << k)))

    def __lshift__(self, k):
        return mkint(z3.simplify(self.e * (1 << int(k))))

    def __rrshift__(self, o):
        return o >> int(self)

    def __rlshift__(self, o):
        return o << int(self)

    def _bits(self, o, f, name):
        o = ex(o)
        a = z3.Int2BV(self.e, 64)
        b = z3.BitVecVal(o, 64) if isinstance(o, int) else z3.Int2BV(o, 64)
        return mkint(z3.BV2Int(f(a, b), True))

    def __and__(self, o):
        if not _arith(o):
            return NotImplemented
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            # masks: sum of contiguous runs of ones, exact on mathematical integers
            out = None
            bit = 0
            m = o
            while m:
                while not m & 1:
                    m >>= 1
                    bit += 1
                n = 0
                while m & 1:
                    m >>= 1
                    n += 1
                term = ((self.e / (1 << bit)) % (1 << n)) * (1 << bit)
                out = term if out is None else out + term
                bit += n
            if out is None:
                return 0
            return mkint(z3.simplify(out))
        return self._bits(o, lambda a, b: a & b, "&")
    __rand__ = __and__

    def __or__(self, o):
        if not _arith(o):
            return NotImplemented
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if not _arith(o):
            return NotImplemented
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def bit_length(self):
        return int(self).bit_length()

    def __format__(self, spec):
        return format(int(self), spec)


# ------------------------------------------------------------------------------------------ sequences

def mk_str(els):
    for e in els:
        if not isinstance(e, int):
            return SymStr(tuple(els))
    return "".join(map(chr, els))


def mk_bytes(els):
    for e in els:
        if not isinstance(e, int):
            return SymBytes(tuple(els))
    return bytes(els)


def norm_el(e):
    return e


def els_of(x):
    if isinstance(x, SymSeq):
        return x.els
    if isinstance(x, str):
        return tuple(map(ord, x))
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    if isinstance(x, memoryview):
        return tuple(bytes(x))
    raise TypeError("expected a string, got %s" % type(x).__name__)


UNI_SPACE = [c for c in range(0x3001) if chr(c).isspace()]
BYTE_SPACE = [9, 10, 11, 12, 13, 32]
LINE_ENDS = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]


class SymSeq(object):
    __slots__ = ("els",)

    def __init__(self, els):
        self.els = els

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __hash__(self):
        unsupported("hash of a symbolic value")

    def _same(self, o):
        return isinstance(o, (self.symtype, self.realtype)) or (self.realtype is bytes and isinstance(o, bytearray))

    def __eq__(self, o):
        if not self._same(o):
            return False
        b = els_of(o)
        if len(b) != len(self.els):
            return False
        return conj([el_eq(x, y) for x, y in zip(self.els, b)])

    def __ne__(self, o):
        return not_(self == o)

    def _less(self, o, strict):
        a, b = self.els, els_of(o)
        for x, y in zip(a, b):
            if test(el_eq(x, y)):
                continue
            return mkbool(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._less(o, True) if self._same(o) else NotImplemented

    def __le__(self, o):
        return self._less(o, False) if self._same(o) else NotImplemented

    def __gt__(self, o):
        return not_(self._less(o, False)) if self._same(o) else NotImplemented

    def __ge__(self, o):
        return not_(self._less(o, True)) if self._same(o) else NotImplemented

    def __add__(self, o):
        if not self._same(o):
            return NotImplemented
        return self.mk(self.els + els_of(o))

    def __radd__(self, o):
        if not self._same(o):
            return NotImplemented
        return self.mk(els_of(o) + self.els)

    def __mul__(self, n):
        return self.mk(self.els * int(n))
    __rmul__ = __mul__

    def _sub_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.els):
            return False
        return conj([el_eq(self.els[i + k], sub[k]) for k in range(len(sub))])

    def _sub(self, sub):
        if isinstance(sub, (int, SymInt)) and self.realtype is bytes:
            return (ex(sub),)
        if not self._same(sub):
            raise TypeError("a %s-like object is required, not %r" % (self.realtype.__name__, type(sub).__name__))
        return els_of(sub)

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        sub = self._sub(sub)
        if not sub:
            return True
        return or_(*[self._sub_at(sub, i) for i in range(len(self.els) - len(sub) + 1)])

    def _bounds(self, start, end):
        n = len(self.els)
        start = 0 if start is None else int(start)
        end = n if end is None else int(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if test(self._sub_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if test(self._sub_at(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        sub_e = self._sub(sub)
        n = 0
        s, e = self._bounds(start, end)
        if not sub_e:
            return max(0, e - s + 1)
        i = s
        while i + len(sub_e) <= e:
            if test(self._sub_at(sub_e, i)):
                n += 1
                i += len(sub_e)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.startswith(q, start, end) for q in p])
        s, e = self._bounds(start, end)
        p = els_of(p) if self._same(p) else self._bad(p)
        if s > len(self.els) or s + len(p) > e:
            return False
        return self._sub_at(p, s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.endswith(q, start, end) for q in p])
        s, e = self._bounds(start, end)
        p = els_of(p) if self._same(p) else self._bad(p)
        if e - len(p) < s:
            return False
        return self._sub_at(p, e - len(p))

    def _bad(self, p):
        raise TypeError("first arg must be %s or a tuple of %s, not %s" % (
            self.realtype.__name__, self.realtype.__name__, type(p).__name__))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._wsplit(maxsplit)
        sep = self._sub(sep)
        if not sep:
            raise ValueError("empty separator")
        out = []
        rest = self.els
        while maxsplit != 0:
            i = self.mkraw(rest).find(self.mk(sep))
            if i < 0:
                break
            out.append(self.mk(rest[:i]))
            rest = rest[i + len(sep):]
            maxsplit -= 1
        out.append(self.mk(rest))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._wsplit(-1)
            unsupported("rsplit on whitespace with maxsplit")
        sep = self._sub(sep)
        if not sep:
            raise ValueError("empty separator")
        out = []
        rest = self.els
        while maxsplit != 0:
            i = self.mkraw(rest).rfind(self.mk(sep))
            if i < 0:
                break
            out.insert(0, self.mk(rest[i + len(sep):]))
            rest = rest[:i]
            maxsplit -= 1
        out.insert(0, self.mk(rest))
        return out

    def _wsplit(self, maxsplit):
        out = []
        i, n = 0, len(self.els)
        while i < n:
            while i < n and test(el_in(self.els[i], self.space)):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                rest = self.mk(self.els[i:])
                out.append(rest.rstrip())
                return out
            j = i
            while j < n and not test(el_in(self.els[j], self.space)):
                j += 1
            out.append(self.mk(self.els[i:j]))
            maxsplit -= 1
            i = j
        return out

    def splitlines(self, keepends=False):
        ends = LINE_ENDS if self.realtype is str else [10, 13]
        out = []
        i = start = 0
        n = len(self.els)
        while i < n:
            if test(el_in(self.els[i], ends)):
                j = i + 1
                if j < n and test(el_eq(self.els[i], 13)) and test(el_eq(self.els[j], 10)):
                    j += 1
                out.append(self.mk(self.els[start:j if keepends else i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(self.mk(self.els[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, self.empty, self.empty)
        k = len(self._sub(sep))
        return (self.mk(self.els[:i]), sep, self.mk(self.els[i + k:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.empty, self.empty, self)
        k = len(self._sub(sep))
        return (self.mk(self.els[:i]), sep, self.mk(self.els[i + k:]))

    def _stripset(self, chars):
        if chars is None:
            return list(self.space)
        return [e for e in els_of(chars)]

    def _in_set(self, e, cs):
        conc = [c for c in cs if isinstance(c, int)]
        sy = [c for c in cs if not isinstance(c, int)]
        return disj([el_in(e, conc)] + [el_eq(e, c) for c in sy])

    def lstrip(self, chars=None):
        cs = self._stripset(chars)
        i = 0
        while i < len(self.els) and test(self._in_set(self.els[i], cs)):
            i += 1
        return self.mk(self.els[i:])

    def rstrip(self, chars=None):
        cs = self._stripset(chars)
        n = len(self.els)
        while n > 0 and test(self._in_set(self.els[n - 1], cs)):
            n -= 1
        return self.mk(self.els[:n])

    def strip(self, chars=None):
        return self.mkraw(els_of(self.lstrip(chars))).rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return self.mk(self.els[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self.mk(self.els[:-len(p)])
        return self

    def replace(self, old, new, count=-1):
        old_e, new_e = self._sub(old), els_of(new)
        out = []
        i, n = 0, len(self.els)
        if not old_e:
            for k in range(n):
                if count != 0:
                    out.extend(new_e)
                    count -= 1
                out.append(self.els[k])
            if count != 0:
                out.extend(new_e)
            return self.mk(tuple(out))
        while i < n:
            if count != 0 and i + len(old_e) <= n and test(self._sub_at(old_e, i)):
                out.extend(new_e)
                i += len(old_e)
                count -= 1
            else:
                out.append(self.els[i])
                i += 1
        return self.mk(tuple(out))

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.els)
            first = False
            if not self._same(x):
                raise TypeError("sequence item: expected %s instance, %s found" % (self.realtype.__name__, type(x).__name__))
            out.extend(els_of(x))
        return self.mk(tuple(out))

    def _all(self, codes):
        if not self.els:
            return False
        return conj([el_in(e, codes) for e in self.els])

    def _ascii_only(self):
        for e in self.els:
            if not isinstance(e, int) and not test(el_range(e, 0, 127)):
                unsupported("character classification beyond ASCII")

    def isascii(self):
        return conj([el_range(e, 0, 127) for e in self.els])

    def isdigit(self):
        self._ascii_only()
        return self._all(range(48, 58))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        self._ascii_only()
        return self._all(list(range(65, 91)) + list(range(97, 123)))

    def isalnum(self):
        self._ascii_only()
        return self._all(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)))

    def isidentifier(self):
        self._ascii_only()
        if not self.els:
            return False
        al = list(range(65, 91)) + list(range(97, 123)) + [95]
        return conj([el_in(self.els[0], al)] + [el_in(e, al + list(range(48, 58))) for e in self.els[1:]])

    def isspace(self):
        return self._all(self.space)

    def isprintable(self):
        self._ascii_only()
        return conj([el_range(e, 32, 126) for e in self.els])

    def _case(self, lo, hi, d):
        self._ascii_only()
        out = []
        for e in self.els:
            if isinstance(e, int):
                out.append(e + d if lo <= e <= hi else e)
            else:
                out.append(z3.If(z3.And(e >= lo, e <= hi), e + d, e))
        return self.mk(tuple(out))

    def lower(self):
        return self._case(65, 90, 32)
    casefold = lower

    def upper(self):
        return self._case(97, 122, -32)

    def isupper(self):
        return and_(self == self.upper(), self != self.lower())

    def islower(self):
        return and_(self == self.lower(), self != self.upper())

    def ljust(self, w, fill=None):
        f = els_of(fill)[0] if fill is not None else 32
        return self.mk(self.els + (f,) * max(0, w - len(self.els)))

    def rjust(self, w, fill=None):
        f = els_of(fill)[0] if fill is not None else 32
        return self.mk((f,) * max(0, w - len(self.els)) + self.els)

    def zfill(self, w):
        return self.rjust(w, "0" if self.realtype is str else b"0")

    def expandtabs(self, *a):
        unsupported("expandtabs")

    def translate(self, table):
        out = []
        for e in self.els:
            if isinstance(e, int):
                r = table.get(e, e) if isinstance(table, dict) else table[e]
            else:
                if not isinstance(table, dict):
                    unsupported("translate")
                r = e
                for k, v in table.items():
                    if test(e == k):
                        r = v
                        break
            if r is None:
                continue
            if isinstance(r, (str, SymStr)):
                out.extend(els_of(r))
            else:
                out.append(r)
        return self.mk(tuple(out))


class SymStr(SymSeq):
    __slots__ = ()
    realtype = str
    symtype = None
    empty = ""
    space = UNI_SPACE
    mk = staticmethod(mk_str)

    @staticmethod
    def mkraw(els):
        return SymStr(tuple(els))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.els[i])
        return mk_str((self.els[int(i)],))

    def __iter__(self):
        for e in self.els:
            yield mk_str((e,))

    def __str__(self):
        return "<sym str %d>" % len(self.els)
    __repr__ = __str__

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        if enc in ("ascii", "latin-1", "iso-8859-1"):
            top = 127 if enc == "ascii" else 255
            for i, e in enumerate(self.els):
                if not test(el_range(e, 0, top)):
                    raise UnicodeEncodeError(enc, "?" * len(self.els), i, i + 1, "ordinal not in range")
                out.append(e)
            return mk_bytes(out)
        if enc not in ("utf-8", "utf8"):
            unsupported("encoding %s" % encoding)
        for i, e in enumerate(self.els):
            if isinstance(e, int):
                if 0xD800 <= e <= 0xDFFF:
                    if errors == "surrogateescape" and 0xDC80 <= e <= 0xDCFF:
                        out.append(e - 0xDC00)
                        continue
                    if errors in ("backslashreplace", "replace", "ignore", "surrogatepass", "xmlcharrefreplace", "namereplace"):
                        out.extend(chr(e).encode("utf-8", errors))
                        continue
                    raise UnicodeEncodeError("utf-8", "?" * len(self.els), i, i + 1, "surrogates not allowed")
                out.extend(chr(e).encode("utf-8"))
            elif test(e < 0x80):
                out.append(e)
            elif test(e < 0x800):
                out += [z3.simplify(0xC0 + e / 64), z3.simplify(0x80 + e % 64)]
            elif test(z3.And(e >= 0xD800, e <= 0xDFFF)):
                if errors == "surrogateescape" and test(el_range(e, 0xDC80, 0xDCFF)):
                    out.append(z3.simplify(e - 0xDC00))
                    continue
                if errors == "backslashreplace":
                    out += [ord("\\"), ord("u"), ord("d")] + [hexdigit(e / 256 % 16), hexdigit(e / 16 % 16), hexdigit(e % 16)]
                    continue
                if errors == "replace":
                    out.append(ord("?"))
                    continue
                if errors == "ignore":
                    continue
                if errors != "strict" and errors != "surrogateescape":
                    unsupported("encoding with errors=%s" % errors)
                raise UnicodeEncodeError("utf-8", "?" * len(self.els), i, i + 1, "surrogates not allowed")
            elif test(e < 0x10000):
                out += [z3.simplify(0xE0 + e / 4096), z3.simplify(0x80 + (e / 64) % 64), z3.simplify(0x80 + e % 64)]
            else:
                out += [z3.simplify(0xF0 + e / 262144), z3.simplify(0x80 + (e / 4096) % 64),
                        z3.simplify(0x80 + (e / 64) % 64), z3.simplify(0x80 + e % 64)]
        return mk_bytes(out)

    def format(self, *a, **k):
        unsupported("format with a symbolic template")

    def __format__(self, spec):
        if spec:
            unsupported("format spec on symbolic string")
        return "<sym str>"

    def __mod__(self, args):
        from . import ops
        return ops.mod(self, args)


def hexdigit(n):
    return z3.simplify(z3.If(n < 10, n + 48, n + 87))


class SymBytes(SymSeq):
    __slots__ = ()
    realtype = bytes
    symtype = None
    empty = b""
    space = BYTE_SPACE
    mk = staticmethod(mk_bytes)

    @staticmethod
    def mkraw(els):
        return SymBytes(tuple(els))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_bytes(self.els[i])
        return mkint(self.els[int(i)])

    def __iter__(self):
        for e in self.els:
            yield mkint(e)

    def __repr__(self):
        return "<sym bytes %d>" % len(self.els)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        els = self.els
        n = len(els)
        if enc in ("latin-1", "iso-8859-1"):
            return mk_str(els)
        if enc == "ascii":
            for i, e in enumerate(els):
                if not test(el_range(e, 0, 127)):
                    raise UnicodeDecodeError("ascii", b"?" * n, i, i + 1, "ordinal not in range(128)")
            return mk_str(els)
        i = 0
        if enc in ("utf-8-sig", "utf8-sig"):
            if n >= 3 and all(test(el_eq(els[j], b)) for j, b in enumerate((0xEF, 0xBB, 0xBF))):
                i = 3
        elif enc not in ("utf-8", "utf8"):
            unsupported("encoding %s" % encoding)
        out = []

        def cont(k, lo=0x80, hi=0xBF):
            return k < n and test(el_range(els[k], lo, hi))

        def bad(i, j):
            if errors == "strict":
                raise UnicodeDecodeError("utf-8", b"?" * n, i, j, "invalid data")
            for k in range(i, j):
                e = els[k]
                if errors == "surrogateescape":
                    out.append(e + 0xDC00)
                elif errors == "replace":
                    if k == i:
                        out.append(0xFFFD)
                elif errors == "ignore":
                    pass
                elif errors == "backslashreplace":
                    out.extend([92, 120])
                    for d in (e // 16, e % 16) if isinstance(e, int) else (e / 16, e % 16):
                        if isinstance(d, int):
                            out.append(ord("%x" % d))
                        else:
                            out.append(z3.If(d < 10, d + 48, d + 87))
                else:
                    unsupported("decode errors=%s" % errors)

        while i < n:
            e = els[i]
            if test(el_range(e, 0, 0x7F)):
                out.append(e)
                i += 1
            elif test(el_range(e, 0xC2, 0xDF)):
                if cont(i + 1):
                    out.append((e - 0xC0) * 64 + (els[i + 1] - 0x80))
                    i += 2
                else:
                    bad(i, i + 1)
                    i += 1
            elif test(el_range(e, 0xE0, 0xEF)):
                lo = 0xA0 if test(el_eq(e, 0xE0)) else 0x80
                hi = 0x9F if test(el_eq(e, 0xED)) else 0xBF
                if not cont(i + 1, lo, hi):
                    bad(i, i + 1)
                    i += 1
                elif not cont(i + 2):
                    bad(i, i + 2)
                    i += 2
                else:
                    out.append((e - 0xE0) * 4096 + (els[i + 1] - 0x80) * 64 + (els[i + 2] - 0x80))
                    i += 3
            elif test(el_range(e, 0xF0, 0xF4)):
                lo = 0x90 if test(el_eq(e, 0xF0)) else 0x80
                hi = 0x8F if test(el_eq(e, 0xF4)) else 0xBF
                if not cont(i + 1, lo, hi):
                    bad(i, i + 1)
                    i += 1
                elif not cont(i + 2):
                    bad(i, i + 2)
                    i += 2
                elif not cont(i + 3):
                    bad(i, i + 3)
                    i += 3
                else:
                    out.append((e - 0xF0) * 262144 + (els[i + 1] - 0x80) * 4096
                               + (els[i + 2] - 0x80) * 64 + (els[i + 3] - 0x80))
                    i += 4
            else:
                bad(i, i + 1)
                i += 1
        return mk_str([o if isinstance(o, int) else (o.as_long() if z3.is_int_value(z3.simplify(o)) else o) for o in out])

    def hex(self):
        unsupported("hex")

    def __mod__(self, args):
        unsupported("bytes %")


# symbolic keys inside dictionaries: every key object hashes by identity so that C-level copies keep entries apart
SymStr.symtype = SymStr
SymBytes.symtype = SymBytes


class KeyStr(SymStr):
    __slots__ = ()

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        if self is o:
            return True
        return SymStr.__eq__(self, o)


class KeyBytes(SymBytes):
    __slots__ = ()

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        if self is o:
            return True
        return SymBytes.__eq__(self, o)


class KeyInt(SymInt):
    __slots__ = ()

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        if self is o:
            return True
        return SymInt.__eq__(self, o)


SYM = (SymBool, SymInt, SymStr, SymBytes)
SYMSET = frozenset(SYM + (KeyStr, KeyBytes, KeyInt))


def deep_eq(a, b):
    """Equality as bool/SymBool, element-wise and without branching."""
    if isinstance(a, SYM) or isinstance(b, SYM):
        r = a == b if isinstance(a, SYM) else b == a
        return False if r is NotImplemented else r
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list):
        if len(a) != len(b):
            return False
        return and_(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if has_symkey(a) or has_symkey(b):
            if len(a) != len(b):
                return False
            return and_(*[or_(*[and_(deep_eq(k, k2), deep_eq(v, v2)) for k2, v2 in b.items()]) for k, v in a.items()])
        if set(a) != set(b):
            return False
        return and_(*[deep_eq(a[k], b[k]) for k in a])
    return a == b


def has_symkey(d):
    for k in dict.keys(d):
        if type(k) in SYMSET:
            return True
    return False


def contains_sym(x, depth=3):
    if type(x) in SYMSET:
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(contains_sym(y, depth - 1) for y in x) or any(contains_sym(y, depth - 1) for y in x.values())
    return False


def evaluate(x, model):
    """Concrete value of a (nested) symbolic value under a model (for witnesses)."""
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SymInt):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SymSeq):
        v = [e if isinstance(e, int) else model.eval(e, model_completion=True).as_long() for e in x.els]
        return "".join(map(chr, v)) if x.realtype is str else bytes(v)
    if isinstance(x, (list, tuple)):
        return type(x)(evaluate(y, model) for y in x)
    if isinstance(x, dict):
        return {evaluate(k, model): evaluate(v, model) for k, v in x.items()}
    return x
