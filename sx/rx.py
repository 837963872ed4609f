"""A regular expression matcher for symbolic subjects: walks the parse tree produced by the interpreter's own
regex parser, branching where a character test is undecided.  Concrete subjects go to the real `re`."""
import re as _re
try:
    import re._parser as sre_parse
    import re._constants as C
except ImportError:
    import sre_parse
    import sre_constants as C

from .values import (SYMSET, SymStr, SymBytes, els_of, el_eq, el_in, el_range, test, disj, not_, unsupported,
                     SymSeq)

_DIGIT = list(range(48, 58))
_SPACE = [9, 10, 11, 12, 13, 32]
_WORD = _DIGIT + list(range(65, 91)) + [95] + list(range(97, 123))


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if type(pattern) in SYMSET:
            unsupported("symbolic regular expression")
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = sre_parse.parse(self.pattern, self.flags & ~_re.DEBUG)
        return self._tree

    # ---------------------------------------------------------------- matching
    def _at(self, s, pos, end, full):
        m = _Run(s, end, self.flags)
        res = []

        def done(i, groups):
            if full and i != end:
                return False
            res.append((i, dict(groups)))
            return True
        if m.seq(list(self.tree), 0, pos, {}, done):
            i, groups = res[0]
            return Match(self, s, pos, i, groups)
        return None

    def match(self, s, pos=0, endpos=None):
        if type(s) not in SYMSET:
            return self.real.match(s, pos, *([endpos] if endpos is not None else []))
        return self._at(s, pos, len(s) if endpos is None else min(endpos, len(s)), False)

    def fullmatch(self, s, pos=0, endpos=None):
        if type(s) not in SYMSET:
            return self.real.fullmatch(s, pos, *([endpos] if endpos is not None else []))
        return self._at(s, pos, len(s) if endpos is None else min(endpos, len(s)), True)

    def search(self, s, pos=0, endpos=None):
        if type(s) not in SYMSET:
            return self.real.search(s, pos, *([endpos] if endpos is not None else []))
        end = len(s) if endpos is None else min(endpos, len(s))
        for i in range(pos, end + 1):
            m = self._at(s, i, end, False)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0):
        if type(s) not in SYMSET:
            return self.real.finditer(s, pos)
        return iter(self._all(s, pos))

    def _all(self, s, pos=0):
        out = []
        n = len(s)
        last_end = -1
        i = pos
        while i <= n:
            m = self.search(s, i)
            if m is None:
                break
            if m.end() == m.start() and m.end() == last_end:
                i = m.end() + 1
                if i > n:
                    break
                m2 = None
                continue
            out.append(m)
            last_end = m.end()
            i = m.end() if m.end() > m.start() else m.end()
            if m.end() == m.start():
                # allow a non-empty match at the same place first, as re does
                i = m.end()
                m3 = self.search(s, i)
                if m3 is not None and m3.end() == m3.start() and m3.start() == i:
                    i += 1
        return out

    def findall(self, s, pos=0):
        if type(s) not in SYMSET:
            return self.real.findall(s, pos)
        out = []
        for m in self._all(s, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else s[0:0])
            else:
                out.append(tuple(g if g is not None else s[0:0] for g in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        if type(s) not in SYMSET and type(repl) not in SYMSET and not callable(repl):
            return self.real.subn(repl, s, count)
        if type(s) not in SYMSET:
            ms = list(self.real.finditer(s))
            s2 = s
        else:
            ms = self._all(s)
            s2 = s
        out = s2[0:0]
        last = 0
        n = 0
        for m in ms:
            if count and n >= count:
                break
            out = out + s2[last:m.start()]
            out = out + (repl(m) if callable(repl) else _expand(repl, m))
            last = m.end()
            n += 1
        return out + s2[last:], n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if type(s) not in SYMSET:
            return self.real.split(s, maxsplit)
        out = []
        last = 0
        n = 0
        for m in self._all(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def __repr__(self):
        return repr(self.real)

    def __eq__(self, o):
        return isinstance(o, Pattern) and o.real == self.real

    def __hash__(self):
        return hash(self.real)


def _expand(repl, m):
    if type(repl) in SYMSET:
        unsupported("symbolic replacement template")
    out = m.s[0:0]
    i = 0
    bs = "\\" if isinstance(repl, str) else b"\\"
    while i < len(repl):
        c = repl[i:i + 1]
        if c == bs and i + 1 < len(repl):
            d = repl[i + 1:i + 2]
            if d.isdigit():
                g = m.group(int(d))
                if g is not None:
                    out = out + g
                i += 2
                continue
            if d in ("g", b"g"):
                j = repl.index(">" if isinstance(repl, str) else b">", i)
                name = repl[i + 3:j]
                g = m.group(int(name) if name.isdigit() else name)
                if g is not None:
                    out = out + g
                i = j + 1
                continue
            if d == bs:
                out = out + d
                i += 2
                continue
            esc = {"n": "\n", "t": "\t", "r": "\r"}.get(d if isinstance(d, str) else d.decode())
            if esc is not None:
                out = out + (esc if isinstance(repl, str) else esc.encode())
                i += 2
                continue
            unsupported("replacement escape")
        out = out + c
        i += 1
    return out


class Match(object):
    def __init__(self, pattern, s, start, end, groups):
        self.re = pattern
        self.s = self.string = s
        self._span = {0: (start, end)}
        self._span.update(groups)
        self.pos = 0
        self.endpos = len(s)

    def _idx(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        sp = self._span.get(self._idx(g))
        return default if sp is None else self.s[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        return self._span.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, t):
        return _expand(t, self)

    @property
    def lastindex(self):
        ks = [k for k in self._span if k]
        return max(ks) if ks else None


class _Run(object):
    def __init__(self, s, end, flags):
        self.s = s
        self.els = els_of(s)
        self.end = end
        self.flags = flags
        if flags & _re.LOCALE:
            unsupported("LOCALE regex")

    def lit(self, e, c):
        if self.flags & _re.IGNORECASE and c < 128 and chr(c).isalpha():
            return el_in(e, [ord(chr(c).lower()), ord(chr(c).upper())])
        return el_eq(e, c)

    def cat(self, e, av):
        ascii_only = self.flags & _re.ASCII or self.s.realtype is bytes
        name = str(av).lower()
        neg = "not_" in name
        if "digit" in name:
            codes = _DIGIT
        elif "space" in name:
            codes = _SPACE if ascii_only else self.s.space
        elif "word" in name:
            codes = _WORD
        else:
            unsupported("regex category %s" % av)
        if not ascii_only and "space" not in name and not isinstance(e, int):
            if not test(el_range(e, 0, 127)):
                unsupported("regex category beyond ASCII")
        if isinstance(e, int) and not ascii_only:
            r = bool(_re.match({"digit": r"\d", "space": r"\s", "word": r"\w"}[
                "digit" if "digit" in name else "space" if "space" in name else "word"], chr(e)))
        else:
            r = el_in(e, codes)
        return (not test(r)) if neg else r

    def member(self, e, items):
        neg = False
        cs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                cs.append(self.lit(e, av))
            elif op is C.RANGE:
                cs.append(el_range(e, av[0], av[1]))
                if self.flags & _re.IGNORECASE:
                    unsupported("IGNORECASE range")
            elif op is C.CATEGORY:
                cs.append(self.cat(e, av))
            else:
                unsupported("regex set item %s" % op)
        r = test(disj(cs))
        return not r if neg else r

    def isword(self, i):
        if not 0 <= i < self.end:
            return False
        return test(el_in(self.els[i], _WORD))

    def seq(self, items, k, i, g, cont):
        """matches items[k:] at i, then cont(i, g)"""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, g2: self.seq(items, k + 1, j, g2, cont)
        if op is C.LITERAL:
            return i < self.end and test(self.lit(self.els[i], av)) and nxt(i + 1, g)
        if op is C.NOT_LITERAL:
            return i < self.end and not test(self.lit(self.els[i], av)) and nxt(i + 1, g)
        if op is C.ANY:
            return (i < self.end and (bool(self.flags & _re.DOTALL) or not test(el_eq(self.els[i], 10)))
                    and nxt(i + 1, g))
        if op is C.IN:
            return i < self.end and self.member(self.els[i], av) and nxt(i + 1, g)
        if op is C.BRANCH:
            for alt in av[1]:
                if self.seq(list(alt), 0, i, g, nxt):
                    return True
            return False
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                unsupported("inline regex flags")

            def after(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                return nxt(j, g2)
            return self.seq(list(sub), 0, i, g, after)
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(n, j, g2):
                def more():
                    if n >= lo and hi is not C.MAXREPEAT and n >= hi:
                        return False
                    if hi is not C.MAXREPEAT and n >= hi:
                        return False
                    return self.seq(sub, 0, j, g2, lambda j2, g3: (j2 != j or n < lo) and rep(n + 1, j2, g3))
                if n < lo:
                    return more()
                if greedy:
                    return more() or nxt(j, g2)
                return nxt(j, g2) or more()
            return rep(0, i, g)
        if op is C.AT:
            name = str(av)
            if name in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0 or (name == "AT_BEGINNING" and self.flags & _re.MULTILINE and test(el_eq(self.els[i - 1], 10)))
            elif name == "AT_END":
                ok = (i == self.end or (i == self.end - 1 and test(el_eq(self.els[i], 10)))
                      or (self.flags & _re.MULTILINE and test(el_eq(self.els[i], 10))))
            elif name == "AT_END_STRING":
                ok = i == self.end
            elif name == "AT_BOUNDARY":
                ok = self.isword(i - 1) != self.isword(i)
            elif name == "AT_NON_BOUNDARY":
                ok = self.isword(i - 1) == self.isword(i)
            else:
                unsupported("regex anchor %s" % name)
            return bool(ok) and nxt(i, g)
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return False
            n = sp[1] - sp[0]
            if i + n > self.end:
                return False
            for x in range(n):
                if not test(el_eq(self.els[sp[0] + x], self.els[i + x])):
                    return False
            return nxt(i + n, g)
        if op is C.ASSERT or op is C.ASSERT_NOT:
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                ok = False
                box = []
                for st in range(max(0, i - hi), i - lo + 1):
                    if self.seq(list(sub), 0, st, g, lambda j, g2: j == i and (box.append(g2) or True)):
                        ok = True
                        break
            else:
                box = []
                ok = self.seq(list(sub), 0, i, g, lambda j, g2: box.append(g2) or True)
            if op is C.ASSERT:
                return ok and nxt(i, box[0])
            return (not ok) and nxt(i, g)
        unsupported("regex operation %s" % op)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return compile(pattern.pattern, pattern.flags & ~(_re.UNICODE if isinstance(pattern.pattern, str) else 0))
    if type(pattern) in SYMSET:
        unsupported("symbolic regular expression")
    key = (type(pattern), pattern, int(flags))
    if key not in _cache:
        _cache[key] = Pattern(pattern, flags)
    return _cache[key]


class Module(object):
    """stands in for the module `re`"""
    compile = staticmethod(compile)
    Pattern = Pattern
    Match = Match

    def __getattr__(self, name):
        return getattr(_re, name)

    def match(self, p, s, flags=0):
        return compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return compile(p, flags).finditer(s)

    def sub(self, p, r, s, count=0, flags=0):
        return compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return compile(p, flags).split(s, maxsplit)

    def escape(self, p):
        if type(p) not in SYMSET:
            return _re.escape(p)
        special = [ord(c) for c in '()[]{}?*+-|^$\\.&~# \t\n\r\v\f']
        out = []
        for e in els_of(p):
            if test(el_in(e, special)):
                out.append(92)
            out.append(e)
        return p.mk(tuple(out))


module = Module()
