"""C22  Stream helpers preserve order, None markers and errors."""
import asyncio
import functools
import json

from sx.api import *

ASSUMPTIONS = ["functions given to the helpers raise no StopIteration and no StopAsyncIteration",
               "JSON texts and values are taken from a list (the json module of Python is not examined)"]


class Broken(RuntimeError, ValueError, LookupError, TypeError, ArithmeticError, EOFError):
    """any kind of error"""


class Source(object):
    """n elements, perhaps an error after some of them; counts what is taken"""

    def __init__(self, t, n, name="", kinds=("value", "none"), errors=True):
        self.t = t
        self.items = []
        self.taken = 0
        self.ended = 0
        n = t.choose(name + "n", n + 1)
        self.error = Broken(name) if errors and t.flag(name + "error") else None
        for i in range(n):
            kind = t.pick("%skind%d" % (name, i), kinds)
            if kind == "none":
                self.items.append((kind, None))
            elif kind == "falsy":
                self.items.append((kind, ""))
            else:
                self.items.append((kind, t.int("%sitem%d" % (name, i), -1000, 1000)))

    def values(self):
        return [x for k, x in self.items]

    def wrap(self, kind, x):
        if kind == "coroutine":
            async def later():
                return x
            return later()
        if kind == "sleeper":
            async def later():
                await asyncio.sleep(0)
                return x
            return later()
        if kind == "failing":
            async def later():
                raise Broken("in a coroutine")
            return later()
        return x

    def generator(self):
        for kind, x in self.items:
            self.taken += 1
            yield self.wrap(kind, x)
        if self.error is not None:
            raise self.error
        self.ended += 1

    async def agenerator(self):
        for kind, x in self.items:
            if kind == "sleeper":
                await asyncio.sleep(0)
            self.taken += 1
            yield x
        if self.error is not None:
            raise self.error
        self.ended += 1

    def plain(self):
        """an iterator that is no generator (goes on after an error)"""
        source = self

        class It(object):
            def __iter__(self):
                return self

            def __next__(self):
                if source.taken >= len(source.items):
                    if source.error is not None:
                        e, source.error = source.error, None
                        raise e
                    raise StopIteration
                kind, x = source.items[source.taken]
                source.taken += 1
                return source.wrap(kind, x)
        return It()


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is str and type(b) is str and a == b
    return eq(a, b)


def take(t, it, want, source, error, what, ahead=True):
    """it delivers exactly the wanted values, then the error or the end. want: (value, elements taken by then)"""
    for i, (value, taken) in enumerate(want):
        r = t.attempt(lambda: next(it))
        t.prove(not r.hung, "%s waits for ever" % what)
        if not r.ok:
            t.fail("%s ends after %s elements" % (what, "some of the") if isinstance(r.value, StopIteration)
                   else "%s raises %s" % (what, type(r.value).__name__))
        t.prove(same(r.value, value), "%s delivers another element" % what)
        t.prove(not ahead or source.taken == taken, "%s reads ahead" % what)
    r = t.attempt(lambda: next(it))
    t.prove(not r.hung, "%s waits for ever" % what)
    t.prove(not r.ok, "%s delivers too many elements" % what)
    if error is not None:
        t.prove(r.value is error, "%s does not hand on the error" % what)
        t.cover("error")
    else:
        t.prove(isinstance(r.value, StopIteration), "%s does not end" % what)
        t.cover("end")


class Call(object):
    """a function that is called once per element"""

    def __init__(self, f):
        self.f = f
        self.args = []

    def __call__(self, x):
        self.args.append(x)
        return self.f(x)


def function(t, f):
    c = Call(f)
    how = t.pick("function", ["function", "object", "partial"])
    if how == "function":
        def double(x):
            return c(x)
        return c, double
    if how == "partial":
        return c, functools.partial(lambda y, x: c(x), 0)
    return c, c


def called(t, c, args):
    t.prove(len(c.args) == len(args), "the function is called another number of times")
    for a, b in zip(c.args, args):
        t.prove(same(a, b), "the function is called with something else")


def apply(t, helper, f, s, what):
    """to a plain or an asynchronous iterator"""
    how = t.pick("source", ["generator", "iterator", "asynchronous"])
    if how == "asynchronous":
        a = t.call(lambda: helper(f)(s.agenerator()).__aiter__(), what)
        return steps(t, a, what)
    return iter(t.call(lambda: helper(f)(s.generator() if how == "generator" else s.plain()), what))


def maps(t, n):
    """Any elements through map."""
    t.boot(env=False)
    s = Source(t, n, kinds=("value", "none", "falsy"))
    fails = t.choose("fails", 2) == 1
    error = Broken("function")

    def f(x):
        if fails and type(x) is str:
            raise error
        return (0 if type(x) is str else x) * 2 + 1
    c, g = function(t, f)
    it = apply(t, t.mod("utils.jsonutils").map, g, s, "map")
    want, args, err = [], [], s.error
    for i, (kind, x) in enumerate(s.items):
        if x is not None:
            args.append(x)
        if fails and kind == "falsy":
            err = error
            break
        want.append((None if x is None else f(x), i + 1))
    take(t, it, want, s, err, "map")
    called(t, c, args)


def filters(t, n):
    """Any elements through filter."""
    t.boot(env=False)
    s = Source(t, n, kinds=("value", "none", "falsy"))
    limit = t.int("limit", -1000, 1000)

    def keep(x):
        return x >= limit if type(x) is not str else "kept"
    c, g = function(t, keep)
    it = apply(t, t.mod("utils.jsonutils").filter, g, s, "filter")
    want = []
    for i, (kind, x) in enumerate(s.items):
        if x is None or type(x) is str or bool(x >= limit):
            want.append((x, i + 1))
        else:
            t.cover("rejected")
    take(t, it, want, s, s.error, "filter")
    called(t, c, [x for x in s.values() if x is not None])


scenario("C22", "map", args=(3,), covers=["error", "end"], bounds="plain and asynchronous sources of 0-3 elements, any numbers, None, empty, an error of the source or the function")(maps)
scenario("C22", "filter", args=(3,), covers=["error", "end", "rejected"],
         bounds="plain and asynchronous sources of 0-3 elements, any numbers, None, empty, any threshold, an error of the source")(filters)
scenario("C22", "map_deep", args=(5,), covers=["error", "end"], tier="thorough", bounds="0-5 elements")(maps)
scenario("C22", "filter_deep", args=(5,), covers=["error", "end", "rejected"], tier="thorough", bounds="0-5 elements")(filters)


def steps(t, ait, what):
    """an asynchronous iterator as seen by the loop"""
    async def one():
        return await ait.__anext__()
    loop = t.loop

    def it():
        while True:
            r = t.attempt(lambda: loop.run_until_complete(one()))
            t.prove(not r.hung, "%s waits for ever" % what)
            if r.ok:
                yield r.value
            elif isinstance(r.value, StopAsyncIteration):
                return
            else:
                raise r.value
    return it()


def to_async(t, n, kinds):
    """Any elements through itertoasync."""
    t.boot(env=False)
    s = Source(t, n, kinds=kinds)
    how = t.pick("source", ["generator", "list", "plain"])
    if how == "list":
        t.assume(s.error is None)
        given = [s.wrap(k, x) for k, x in s.items]
    else:
        given = s.generator() if how == "generator" else s.plain()
    error = s.error
    a = t.call(lambda: t.mod("utils.asyncutils").itertoasync(given), "itertoasync")
    for i in range(t.choose("aiter", 3)):
        a = t.call(lambda: a.__aiter__(), "itertoasync")
    want = [(x, i + 1) for i, (k, x) in enumerate(s.items)]
    take(t, steps(t, a, "itertoasync"), want, s, error, "itertoasync", ahead=how != "list")


scenario("C22", "itertoasync", args=(3, ("value", "none", "coroutine", "sleeper")), covers=["error", "end"],
         bounds="0-3 elements, some of them coroutines that wait, an error of the source; generators, lists, iterators")(to_async)


def coroutine_fails(t, n):
    """The error of a coroutine among the elements is handed on; the others are delivered."""
    t.boot(env=False)
    s = Source(t, n, kinds=("value", "failing"), errors=False)
    a = t.call(lambda: t.mod("utils.asyncutils").itertoasync(s.generator()), "itertoasync").__aiter__()

    async def one():
        return await a.__anext__()
    for i, (kind, x) in enumerate(s.items):
        r = t.attempt(lambda: t.loop.run_until_complete(one()))
        if kind == "failing":
            t.prove(not r.ok and isinstance(r.value, Broken), "itertoasync does not hand on the error")
            t.cover("error")
        else:
            t.prove(r.ok and same(r.value, x), "itertoasync delivers another element")
    r = t.attempt(lambda: t.loop.run_until_complete(one()))
    t.prove(not r.ok and isinstance(r.value, StopAsyncIteration), "itertoasync does not end")


scenario("C22", "coroutine_fails", args=(3,), covers=["error"], bounds="0-3 elements, any of them failing coroutines")(coroutine_fails)


def from_async(t, n):
    """Any elements through asyncitertoiter."""
    t.boot(env=False)
    s = Source(t, n, kinds=("value", "none", "sleeper"))
    error = s.error
    u = t.mod("utils.asyncutils")
    how = t.pick("source", ["agenerator", "itertoasync"])
    if how == "agenerator":
        a = s.agenerator()
    else:
        a = u.itertoasync(s.generator())
    it = t.call(lambda: u.asyncitertoiter(a), "asyncitertoiter")
    if t.flag("all"):
        t.assume(error is None)
        got = t.call(lambda: list(it), "asyncitertoiter")
        t.prove(len(got) == len(s.items), "asyncitertoiter delivers another number of elements")
        for g, w in zip(got, s.values()):
            t.prove(same(g, w), "asyncitertoiter delivers another element")
    else:
        take(t, it, [(x, i + 1) for i, x in enumerate(s.values())], s, error, "asyncitertoiter")


scenario("C22", "asyncitertoiter", args=(3,), covers=["error", "end"],
         bounds="0-3 elements, waiting before any of them, an error of the source")(from_async)


def asyncmaps(t, n):
    """Two sequences through one asyncmap, taken from in any order."""
    t.boot(env=False)
    u = t.mod("utils.asyncutils")
    k = t.int("k", -100, 100)
    c = Call(lambda x: "none" if x is None else x * 2 + k)
    conv = t.call(lambda: u.asyncmap(c), "asyncmap")
    ss = [Source(t, n, name) for name in ("a.", "b.")]
    outs = [t.call(lambda: conv(s.agenerator() if i else u.itertoasync(s.generator())), "asyncmap").__aiter__() for i, s in enumerate(ss)]
    got = [[], []]
    ended = [None, None]
    called_with = []
    for step in range(2 * n + 2):
        i = t.choose("who%d" % step, 2)
        if ended[i] is not None:
            i = 1 - i
        if ended[i] is not None:
            break

        async def one():
            return await outs[i].__anext__()
        before = len(c.args)
        r = t.attempt(lambda: t.loop.run_until_complete(one()))
        t.prove(not r.hung, "asyncmap waits for ever")
        if r.ok:
            j = len(got[i])
            t.prove(j < len(ss[i].items), "asyncmap delivers too many elements")
            t.prove(len(c.args) == before + 1, "the function is called another number of times")
            t.prove(same(c.args[-1], ss[i].values()[j]), "the function is called with something else")
            x = ss[i].values()[j]
            t.prove(same(r.value, "none" if x is None else x * 2 + k), "asyncmap delivers another element")
            got[i].append(r.value)
        else:
            t.prove(len(got[i]) == len(ss[i].items), "asyncmap loses elements")
            t.prove(len(c.args) == before, "the function is called another number of times")
            ended[i] = True
            if ss[i].error is not None:
                t.prove(r.value is ss[i].error, "asyncmap does not hand on the error")
                t.cover("error")
            else:
                t.prove(isinstance(r.value, StopAsyncIteration), "asyncmap does not end")
                t.cover("end")


scenario("C22", "asyncmap", args=(1,), covers=["error", "end"], bounds="two sequences of 0-1 elements in any order")(asyncmaps)
scenario("C22", "asyncmap_deep", args=(2,), covers=["error", "end"], tier="thorough", bounds="two sequences of 0-2 elements in any order")(asyncmaps)


VALUES = [0, 1.5, "", "a\n\"b", "é☃", True, False, [], [1, [2, None]], {}, {"a": {"b": [1]}}, "null"]


def jsons(t, n):
    """JSON there and back."""
    t.boot(env=False)
    j = t.mod("utils.jsonutils")
    vs = [t.pick("value%d" % i, VALUES + [None]) for i in range(t.choose("n", n + 1))]
    texts = t.call(lambda: list(j.to_json(iter(vs))), "to_json")
    t.prove(len(texts) == len(vs), "to_json delivers another number of elements")
    for x, v in zip(texts, vs):
        t.prove(x is None if v is None else type(x) is str and "\n" not in x and json.loads(x) == v and type(json.loads(x)) is type(v),
                "to_json delivers something else")
    back = t.call(lambda: list(j.from_json(iter(texts))), "from_json")
    t.prove(len(back) == len(vs) and all(type(a) is type(b) and a == b for a, b in zip(back, vs)), "from_json delivers something else")
    t.cover("json")
    broken = t.pick("broken", ["", "{", "x", "[1,]"])
    it = j.from_json(iter(["1", broken, "2"]))
    t.prove(next(it) == 1, "from_json delivers something else")
    r = t.attempt(lambda: next(it))
    t.prove(not r.ok and isinstance(r.value, ValueError), "from_json hides an error")


scenario("C22", "json", args=(2,), covers=["json"], bounds="0-2 values out of %d" % (len(VALUES) + 1))(jsons)


def pipeline(t, n, kinds):
    """map and filter as stages of a pipeline"""
    t.boot(exports={"PATH": "/bin"})
    j = t.mod("utils.jsonutils")
    data = []
    for i in range(t.choose("lines", n + 1)):
        c = t.str("line%d" % i, 1, hi=127, exclude="\n\0")
        data.append(c)
    text = b""
    for c in data:
        text = text + c.encode("utf-8") + b"\n"
    cut = t.choose("cut", len(text) + 1) if len(text) else 0
    t.prog("src", emits([text[:cut], text[cut:]]))
    t.prog("cat", cat)
    limit = t.int("limit", 0, 127)
    up = Call(lambda x: x + "!")
    keep = Call(lambda x: code(x[0]) >= limit)
    kind = t.pick("kind", kinds)
    e = t.env
    pl = {"map": lambda: e.src | j.map(up), "filter": lambda: e.src | j.filter(keep), "both": lambda: e.src | j.filter(keep) | j.map(up),
          "cat": lambda: e.src | j.map(up) | e.cat | j.filter(keep)}[kind]
    got = t.call(lambda: list(iter(pl())), "the pipeline")
    want = []
    for c in data:
        if kind != "map" and not bool(code(c) >= limit):
            continue
        want.append(c + "!" if kind != "filter" else c)
    t.prove(len(got) == len(want), "the pipeline delivers another number of lines")
    for g, w in zip(got, want):
        t.prove(len(g) == len(w) and eq(g, w), "the pipeline delivers other lines")
    t.cover("lines")
    t.prove(len(up.args) in (0, len(data), len(want)), "the function is called another number of times")


scenario("C22", "pipeline", args=(2, ["map", "filter", "both", "cat"]), covers=["lines"],
         bounds="0-2 lines of any one character through map, filter and programs, written in two pieces")(pipeline)
