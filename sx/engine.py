"""Path explorer.

One engine object exists per process (`eng`).  In mode "sym" inputs are z3 terms and every branch on a
symbolic condition goes through `fork`, which asks z3 which sides are possible; all paths are explored
depth first by re-executing the harness.  In mode "conc" the same harness runs on concrete values (used to
replay a counterexample on uninstrumented code, under any interpreter, without z3).
"""
import sys
import time
import threading


class EngineSignal(SystemExit):
    """Base of all control flow of the engine.  Derived from SystemExit so that asyncio lets it through;
    instrumented `except` clauses let it through too."""


class PathInfeasible(EngineSignal):
    pass


class ViolationFound(EngineSignal):
    pass


class Unsupported(EngineSignal):
    """The encoding does not cover an operation: the run is inconclusive."""


class WorldEnd(EngineSignal):
    """A modelled process ended (exec, _exit) or the harness is done with this path."""


class Hang(EngineSignal):
    """Nothing can ever happen again in the modelled system."""


class EngineError(Exception):
    pass


class Budget(Exception):
    pass


class World(object):
    """One execution of the harness as seen by one modelled process."""

    def __init__(self, target=()):
        self.target = target      # lineage of the process this execution is for
        self.cur = ()             # lineage reached so far
        self.pos = 0              # position in the trail
        self.nforks = 0
        self.names = {}
        self.memo = {}
        self.kernel = None
        self.data = {}

    @property
    def ns(self):
        return "" if not self.cur else "p" + ".".join(map(str, self.cur)) + ":"


class Engine(object):
    def __init__(self):
        self.mode = None
        self.w = None
        self.signal = None
        self.violation = None
        self.stats = None
        self.functions = set()
        self.concrete_values = None
        self.strict = True
        self.allowed_exec = None

    # ------------------------------------------------------------------ stats
    def reset_stats(self):
        self.stats = {"paths": 0, "infeasible": 0, "branches": 0, "decisions": 0, "queries": 0, "obligations": 0,
                      "discharged": 0, "concrete_asserts": 0, "solver_s": 0.0, "max_depth": 0, "worlds": 0}
        self.covered = {}
        self.samples = []
        self.functions = set()

    # ------------------------------------------------------------------ names and inputs
    def name(self, base):
        w = self.w
        base = w.ns + base
        n = w.names.get(base, 0)
        w.names[base] = n + 1
        return "%s#%d" % (base, n) if n else base

    def int(self, name, lo=None, hi=None):
        name = self.name(name)
        if self.mode == "conc":
            v = self.concrete_values.get(name)
            if v is None:
                v = lo if lo is not None else (min(0, hi) if hi is not None else 0)
            self.used[name] = v
            return v
        if lo is not None and lo == hi:
            return lo
        from . import values
        z3 = self.z3
        v = z3.Int(name)
        self.vars[name] = v
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        x = values.SymInt(v)
        x.lo, x.hi = lo, hi
        if cs:
            self._add(z3.And(*cs) if len(cs) > 1 else cs[0], check=False)
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choose(self, name, n):
        """A value of range(n), concrete on each path (the solver decides which are possible)."""
        v = self.int(name, 0, n - 1)
        if self.mode == "conc" or isinstance(v, int):
            return v
        for i in range(n - 1):
            if v == i:
                return i
        return n - 1

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, len(seq))]

    def elems(self, name, n, lo, hi, among=None, exclude=()):
        out = []
        for i in range(n):
            e = self.int("%s[%d]" % (name, i), lo, hi)
            if self.mode == "sym" and not isinstance(e, int):
                z3 = self.z3
                if among is not None:
                    self._add(z3.Or(*[e.e == a for a in among]), check=False)
                for x in exclude:
                    self._add(e.e != x, check=False)
                e = e.e
            elif self.mode == "conc":
                if (among is not None and e not in among):
                    e = among[0]
                    self.used["%s[%d]" % (name, i)] = e
                while e in exclude:
                    e += 1
            out.append(e)
        return out

    def str(self, name, n, lo=1, hi=0x10FFFF, among=None, exclude=(), escapes=False):
        """A string of exactly n symbolic characters (no surrogates; with escapes those that stand for single bytes)."""
        if among is not None:
            among = [ord(c) if isinstance(c, str) else c for c in among]
            lo, hi = min(among), max(among)
        exclude = [ord(c) if isinstance(c, str) else c for c in exclude]
        els = self.elems(self.name(name), n, lo, hi, among, exclude)
        if escapes:
            self.w.data["escapes"] = True
        if self.mode == "sym" and hi >= 0xD800:
            z3 = self.z3
            for e in els:
                if not isinstance(e, int):
                    self._add(z3.Or(e < 0xD800, e > 0xDFFF, *([z3.And(e >= 0xDC80, e <= 0xDCFF)] if escapes else [])), check=False)
        return self.mkstr(els)

    def bytes(self, name, n, lo=0, hi=255, among=None, exclude=()):
        if among is not None:
            among = list(among)
            lo, hi = min(among), max(among)
        return self.mkbytes(self.elems(self.name(name), n, lo, hi, among, list(exclude)))

    def mkstr(self, els):
        if self.mode == "conc":
            return "".join(map(chr, els))
        from . import values
        return values.mk_str(els)

    def mkbytes(self, els):
        if self.mode == "conc":
            return bytes(els)
        from . import values
        return values.mk_bytes(els)

    # ------------------------------------------------------------------ conditions
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            self._raise(PathInfeasible("assume"))
        if self.mode == "conc":
            if not cond:
                self._raise(PathInfeasible("assume"))
            return
        from . import values
        self._add(values.to_z3bool(cond), check=True)

    def _add(self, expr, check):
        w = self.w
        if w.pos < len(self.trail):
            return
        self.solver.add(expr)
        if self.model is not None:
            if not self.z3.is_true(self.model.eval(expr, model_completion=True)):
                self.model = None
        if check and self.model is None and w.pos >= len(self.prefix):
            if not self._check_sat():
                self._raise(PathInfeasible("assume"))

    def _query(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == self.z3.unknown:
            self._raise(Unsupported("solver answered unknown: %s" % self.solver.reason_unknown()))
        return r == self.z3.sat

    def _check_sat(self):
        if self._query():
            self.model = self.solver.model()
            return True
        return False

    def fork(self, expr):
        """Truth value of a z3 Bool on the current path, branching if both are possible."""
        if self.signal is not None:
            raise self.signal
        w = self.w
        memo = w.memo
        key = expr.get_id()
        if key in memo:
            return memo[key][1]
        z3 = self.z3
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        trail = self.trail
        if w.pos < len(trail):
            ent = trail[w.pos]
            if not ent[1].eq(expr):
                raise EngineError("non-deterministic execution: expected branch on %s, got %s" % (ent[1], expr))
            w.pos += 1
            memo[key] = (expr, ent[0])
            self._memo_neg(memo, expr, ent[0])
            return ent[0]
        neg = z3.Not(expr)
        if w.pos < len(self.prefix):
            # a subtree handed over by another worker: its path is known to be possible
            side, decision = self.prefix[w.pos]
            if decision:
                self.solver.push()
                self.solver.add(expr if side else neg)
                self.model = None
            trail.append([side, expr, False if decision else None])
            w.pos += 1
            memo[key] = (expr, side)
            self._memo_neg(memo, expr, side)
            return side
        self.stats["branches"] += 1
        if self.model is None and not self._check_sat():
            self._raise(PathInfeasible("branch"))
        side = z3.is_true(self.model.eval(expr, model_completion=True))
        if self._query(neg if side else expr):
            other = True
        else:
            other = False
        if other:
            self.stats["decisions"] += 1
            self.solver.push()
            self.solver.add(expr if side else neg)
            trail.append([side, expr, True])     # still to be flipped
        else:
            trail.append([side, expr, None])     # forced, no solver level
        w.pos += 1
        if len(trail) > self.stats["max_depth"]:
            self.stats["max_depth"] = len(trail)
        if self.deadline and time.time() > self.deadline:
            self._raise(Unsupported("time budget exhausted"))
        memo[key] = (expr, side)
        self._memo_neg(memo, expr, side)
        return side

    def _memo_neg(self, memo, expr, value):
        z3 = self.z3
        if z3.is_not(expr):
            inner = expr.arg(0)
            memo[inner.get_id()] = (inner, not value)
        elif z3.is_and(expr) and value:
            for c in expr.children():
                memo[c.get_id()] = (c, True)
                self._memo_neg(memo, c, True)
        elif z3.is_or(expr) and not value:
            for c in expr.children():
                memo[c.get_id()] = (c, False)
                self._memo_neg(memo, c, False)

    def concretize(self, symint, limit=400):
        """A concrete value of the term on this path; branches over all possible values."""
        z3 = self.z3
        e = z3.simplify(symint.e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.strict_ints:
            self._raise(Unsupported("concretisation of %s" % e))
        w = self.w
        for _ in range(limit):
            if w.pos < len(self.trail):
                # follow the recorded decision: the next entry is `e == v`
                ent = self.trail[w.pos]
                ch = ent[1].children()
                if not (z3.is_eq(ent[1]) and len(ch) == 2 and ch[0].eq(e) and z3.is_int_value(ch[1])):
                    raise EngineError("non-deterministic concretisation")
                v = ch[1].as_long()
            else:
                if w.pos < len(self.prefix) and self.prefix_values.get(w.pos) is not None:
                    v = self.prefix_values[w.pos]
                    if self._forkeq(e, v):
                        return v
                    continue
                if self.model is None and not self._check_sat():
                    self._raise(PathInfeasible("concretize"))
                v = self.model.eval(e, model_completion=True).as_long()
            if self._forkeq(e, v):
                return v
        self._raise(Unsupported("too many values for %s" % e))

    def _forkeq(self, e, v):
        # (e == v) built without simplification so that the structure can be recognised above; memo-safe
        expr = e == v
        return self.fork(expr)

    def prove(self, cond, msg):
        """The assertion: holds on every value of the current path, or a violation."""
        if self.signal is not None:
            raise self.signal
        if self.mode == "conc":
            self.stats["obligations"] += 1
            if not cond:
                self._violation(msg, None)
            return
        w = self.w
        if w.pos < len(self.trail) or w.pos < len(self.prefix):
            return                        # discharged already when this prefix was first explored
        if cond is True:
            self.stats["concrete_asserts"] += 1
            self.stats["obligations"] += 1
            # the path condition itself is satisfiable (established by the branch queries)
            self.stats["discharged"] += 1
            return
        self.stats["obligations"] += 1
        if cond is False:
            if self.model is None and not self._check_sat():
                self._raise(PathInfeasible("prove"))
            self._violation(msg, self.model)
        from . import values
        e = values.to_z3bool(cond)
        if self._query(self.z3.Not(e)):
            self._violation(msg, self.solver.model())
        self.stats["discharged"] += 1

    def fail(self, msg):
        self.prove(False, msg)

    def _violation(self, msg, model):
        values = {}
        if self.mode == "sym":
            for name, v in self.vars.items():
                values[name] = model.eval(v, model_completion=True).as_long()
        else:
            values = dict(self.used)
        self.violation = {"message": msg, "values": values}
        self._raise(ViolationFound(msg))

    def cover(self, label):
        """Reachability witness: the harness must reach each declared label on some feasible path."""
        self.covered[label] = self.covered.get(label, 0) + 1

    def note(self, key, value):
        """Remembers an observable result of the path (compared between symbolic and concrete runs)."""
        w = self.w
        w.data.setdefault("notes", []).append((key, value))

    def _raise(self, sig):
        self.signal = sig
        raise sig

    def guard(self):
        """Called at the head of every instrumented handler."""
        s = self.signal
        if s is not None:
            raise s
        e = sys.exc_info()[1]
        if isinstance(e, EngineSignal):
            raise e

    # ------------------------------------------------------------------ processes
    def fork_process(self):
        """os.fork(): the child is executed first, by re-executing the harness up to this point in a
        second world.  Returns (0, None) in the child and (index, result) in the parent."""
        w = self.w
        j = w.nforks
        w.nforks += 1
        if len(w.cur) < len(w.target) and w.target[len(w.cur)] == j:
            w.cur = w.cur + (j,)
            w.nforks = 0
            return 0, None
        key = w.cur + (j,)
        rec = self.records.get(key)
        if rec is None:
            child = World(target=key)
            self._run_nested(child)
            if self.signal is not None:
                raise self.signal
            rec = (child.pos, child.data.get("result"))
            self.records[key] = rec
        w.pos = max(rec[0], w.pos)
        return j + 1, rec[1]

    def _run_nested(self, child):
        saved = self.w
        box = []

        def target():
            try:
                self._run_world(child)
            except BaseException as e:     # engine errors
                box.append(e)
        t = threading.Thread(target=target)
        t.start()
        t.join()
        self.w = saved
        if box:
            raise box[0]

    def _run_world(self, world):
        self.w = world
        self.stats["worlds"] += 1
        try:
            self.harness(self)
        except WorldEnd:
            self.signal = None
        except EngineSignal as e:
            self.signal = e
            return
        except BaseException as e:
            # an exception of the code under test that left a forked child at the level of the harness
            if not (world.target and world.cur == world.target and self.signal is None) or isinstance(
                    e, (EngineError, AssertionError, MemoryError)):
                raise
            world.data["exception"] = e
        # a signal that was swallowed by code under test still counts
        if self.signal is not None and isinstance(self.signal, WorldEnd):
            self.signal = None
        if self.signal is None and world.cur != world.target:
            raise EngineError("child execution did not reach its fork point")
        if self.signal is None and world.target and "result" not in world.data:
            world.data["result"] = ("returned",)
            fn = world.data.get("on_return")
            if fn is not None:
                try:
                    fn()
                except WorldEnd:
                    self.signal = None
                except EngineSignal as e:
                    self.signal = e

    def end_world(self, result):
        self.w.data["result"] = result
        self._raise(WorldEnd(str(result)))

    # ------------------------------------------------------------------ drivers
    def explore(self, harness, deadline=None, max_paths=None, on_path=None, timeout_ms=20000, prefix=(),
                prefix_values=None, share=None, on_undecided=None):
        """Explores all paths.  Returns the status: "ok", "violation" or "inconclusive"."""
        import z3
        self.z3 = z3
        self.mode = "sym"
        self.harness = harness
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.trail = []
        self.vars = {}
        self.model = None
        self.deadline = deadline
        self.strict_ints = False
        self.violation = None
        self.why = None
        if self.stats is None:
            self.reset_stats()
        self.records = {}
        self.prefix = prefix
        self.prefix_values = prefix_values or {}
        nunsupported = 0
        gave_up = None
        while True:
            self.signal = None
            root = World()
            self._run_world(root)
            sig = self.signal
            self.signal = None
            if isinstance(sig, ViolationFound):
                return "violation"
            if isinstance(sig, (Unsupported, Hang)):
                # Undecided, whatever the other paths show; they might still break the property
                why = str(sig) if isinstance(sig, Unsupported) else "unhandled hang: %s" % sig
                if self.why is None:
                    self.why = why
                    gave_up = time.time()
                nunsupported += 1
                if "budget" in why or nunsupported > 40 or time.time() > gave_up + 60:
                    return "inconclusive"
                if on_undecided is not None and nunsupported <= 8:
                    for values in self.probes():
                        on_undecided(values)
                self.signal = None
            elif isinstance(sig, PathInfeasible):
                self.stats["infeasible"] += 1
            else:
                self.stats["paths"] += 1
                if on_path is not None:
                    on_path(self, root)
            if max_paths and self.stats["paths"] > max_paths:
                self.why = "path budget exhausted"
                return "inconclusive"
            if deadline and time.time() > deadline:
                self.why = "time budget exhausted"
                return "inconclusive"
            if share is not None:
                self._share(share)
            # backtrack
            while self.trail:
                ent = self.trail[-1]
                if ent[2] is None:
                    self.trail.pop()
                    continue
                self.solver.pop()
                if ent[2] is False:
                    self.trail.pop()
                    continue
                ent[0] = not ent[0]
                ent[2] = False
                self.solver.push()
                self.solver.add(ent[1] if ent[0] else z3.Not(ent[1]))
                self.model = None
                # outcomes of children that did not get as far as this decision stay valid
                n = len(self.trail) - 1
                self.records = {k: r for k, r in self.records.items() if r[0] <= n}
                break
            else:
                return "ok" if self.why is None else "inconclusive"

    def _share(self, share):
        """Hands the biggest unexplored subtree to another worker, if one is idle."""
        n = next((i for i, ent in enumerate(self.trail) if ent[2] is True), None)
        if n is None or n == len(self.trail) - 1 or not share.wanted():
            return
        z3 = self.z3
        prefix, values = [], {}
        for i, ent in enumerate(self.trail[:n + 1]):
            prefix.append((ent[0] if i < n else not ent[0], ent[2] is not None))
            ch = ent[1].children()
            if z3.is_eq(ent[1]) and len(ch) == 2 and z3.is_int_value(ch[1]):
                values[i] = ch[1].as_long()
        self.trail[n][2] = False
        share.give(prefix, values)

    def probes(self, n=3):
        """Some models of a path that could not be decided, as different from each other as possible."""
        out = []
        names = sorted(self.vars)
        self.solver.push()
        self.solver.set("timeout", 2000)
        try:
            last = None
            for _ in range(n):
                if last is not None:
                    for name in names[:24]:
                        self.solver.push()
                        self.solver.add(self.vars[name] != last[name])
                        if self.solver.check() != self.z3.sat:
                            self.solver.pop()
                if self.solver.check() != self.z3.sat:
                    break
                m = self.solver.model()
                last = {name: m.eval(v, model_completion=True).as_long() for name, v in self.vars.items()}
                if last in out:
                    break
                out.append(last)
        finally:
            while self.solver.num_scopes() > self._scopes():
                self.solver.pop()
            self.solver.set("timeout", self.timeout_ms)
        return out

    def _scopes(self):
        return len([1 for ent in self.trail if ent[2] is not None])

    def path_values(self):
        """A model of the current (just finished) path."""
        if self.model is None:
            self._check_sat()
        return {n: self.model.eval(v, model_completion=True).as_long() for n, v in self.vars.items()}

    def run_concrete(self, harness, values):
        self.mode = "conc"
        self.harness = harness
        self.concrete_values = values
        self.used = {}
        self.trail = ()
        self.prefix = ()
        self.prefix_values = {}
        self.deadline = None
        self.violation = None
        self.signal = None
        self.records = {}
        if self.stats is None:
            self.reset_stats()
        root = World()
        self.root = root
        self._run_world(root)
        sig = self.signal
        self.signal = None
        if isinstance(sig, ViolationFound):
            return "violation"
        if isinstance(sig, PathInfeasible):
            return "infeasible"
        if isinstance(sig, (Unsupported, Hang)):
            return "inconclusive: %s" % sig
        self.stats["paths"] += 1
        return "ok"


eng = Engine()


# ---------------------------------------------------------------------- mode independent helpers
def is_sym(x):
    if eng.mode != "sym":
        return False
    from . import values
    return isinstance(x, values.SYM)


def and_(*cs):
    if eng.mode == "sym":
        from . import values
        return values.and_(*cs)
    return all(cs)


def or_(*cs):
    if eng.mode == "sym":
        from . import values
        return values.or_(*cs)
    return any(cs)


def not_(c):
    if eng.mode == "sym":
        from . import values
        return values.not_(c)
    return not c


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if eng.mode == "sym":
        from . import values
        return values.ite(c, a, b)
    return a if c else b


def eq(a, b):
    """Equality that never branches (also inside lists, tuples and dictionaries with concrete keys)."""
    if eng.mode == "sym":
        from . import values
        return values.deep_eq(a, b)
    return type_eq(a, b)


def type_eq(a, b):
    return a == b
