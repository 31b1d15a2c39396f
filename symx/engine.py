"""The symbolic engine: depth-first exploration of the real code by repeated
execution, with z3 deciding which branches are feasible and whether assertions
hold for all values on a path."""
import signal
import time

import z3

from . import env
from . import values as V
from .values import SymInt, SymBool, lin, mkbool


class Control(BaseException):
    """engine control flow; code under test must not swallow it"""


class Abandon(Control):
    """the current path is infeasible (failed assumption) or finished early"""


class Done(Control):
    """the harness ended the current path successfully"""


class Violation(Control):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Unbounded(Control):
    """cannot be decided in this mode (unbounded concretisation, ...)"""


class Inconclusive(Control):
    """the solver answered unknown on an assertion"""


class Broken(Control):
    """internal error of the engine"""


class SliceOver(Control):
    pass


class PathTimeout(Control):
    pass


class Model:
    """values of the input variables, evaluated lazily in Python"""

    def __init__(self, eng, ints, bools):
        self.e = eng
        self.ints = ints
        self.bools = bools
        self.memo = {}

    def lin(self, l):
        c, t = l
        for a, k in t:
            c += k * self.atom(a)
        return c

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            d = self.e.atoms[a]
            k = d[0]
            if k == "var":
                v = self.ints.get(d[1])
                if v is None:
                    lo, hi = d[2], d[3]
                    v = 0
                    if lo is not None and v < lo:
                        v = lo
                    if hi is not None and v > hi:
                        v = hi
            elif k == "div":
                v = self.lin(d[1]) // d[2]
            elif k == "mul":
                v = self.lin(d[1]) * self.lin(d[2])
            else:
                v = self.lin(d[2]) if self.bool(d[1]) else self.lin(d[3])
            self.memo[a] = v
        return v

    def bool(self, k):
        if k is True or k is False:
            return k
        h = k[0]
        if h == "le":
            return self.lin(k[1]) <= 0
        if h == "eq":
            return self.lin(k[1]) == 0
        if h == "not":
            return not self.bool(k[1])
        if h == "and":
            return all(self.bool(x) for x in k[1])
        if h == "or":
            return any(self.bool(x) for x in k[1])
        if h == "iff":
            return self.bool(k[1][0]) == self.bool(k[1][1])
        return self.bools.get(k[1], False)

    def value(self, x):
        if isinstance(x, SymInt):
            return self.lin((x.c, x.t))
        if isinstance(x, SymBool):
            return self.bool(x.key)
        if isinstance(x, V.SymRat):
            return self.value(x.n) / x.d
        if isinstance(x, (list, tuple)):
            return [self.value(y) for y in x]
        return x


class Item:
    __slots__ = ("kind", "key", "value", "payload", "pending", "alt")

    def __init__(self, kind, key, value, payload=None, pending=False, alt=None):
        self.kind = kind
        self.key = key
        self.value = value
        self.payload = payload
        self.pending = pending
        self.alt = alt


QUERY_TIMEOUT_MS = 60000


class Engine:
    symbolic = True
    max_unroll = 4000
    max_values = 400

    def __init__(self, eager=False, forced=(), deadline=None, path_timeout=60):
        self.eager = eager
        self.atoms = []
        self.atom_ids = {}
        self.atom_bounds = []
        self.z_atoms = []
        self.z_cache = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_TIMEOUT_MS)
        self.trace = []
        self.forced = list(forced)  # [(kind, value, payload)]
        self.deadline = deadline
        self.path_timeout = path_timeout
        self.tainted_text = False
        self.stats = dict(
            paths=0, abandoned=0, decisions=0, forks=0, queries=0, solver_s=0.0,
            checks=0, checks_solver=0, checks_folded=0, concretized=0, unknown_branches=0,
            max_depth=0,
        )
        self.reached = {}
        self.violations = []
        self.samples = []
        self.model = Model(self, {}, {})

    # --- atoms
    def _atom(self, key, bounds):
        i = self.atom_ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.atom_ids[key] = i
            self.atoms.append(key)
            self.atom_bounds.append(bounds)
            self.z_atoms.append(None)
        return i

    def z_atom(self, i):
        z = self.z_atoms[i]
        if z is None:
            k = self.atoms[i]
            if k[0] == "var":
                z = z3.Int(k[1])
            elif k[0] == "div":
                z = self.z_lin(k[1]) / z3.IntVal(k[2])
            elif k[0] == "mul":
                z = self.z_lin(k[1]) * self.z_lin(k[2])
            else:
                z = z3.If(self.z_bool(k[1]), self.z_lin(k[2]), self.z_lin(k[3]))
            self.z_atoms[i] = z
        return z

    def z_lin(self, l):
        c, t = l
        parts = []
        for a, k in t:
            z = self.z_atom(a)
            parts.append(z if k == 1 else z3.IntVal(k) * z)
        if c or not parts:
            parts.append(z3.IntVal(c))
        return parts[0] if len(parts) == 1 else z3.Sum(*parts)

    def z_bool(self, k):
        z = self.z_cache.get(k)
        if z is None:
            h = k[0]
            if h == "le":
                c, t = k[1]
                z = self.z_lin((0, t)) <= -c
            elif h == "eq":
                c, t = k[1]
                z = self.z_lin((0, t)) == -c
            elif h == "not":
                z = z3.Not(self.z_bool(k[1]))
            elif h == "and":
                z = z3.And(*[self.z_bool(x) for x in k[1]])
            elif h == "or":
                z = z3.Or(*[self.z_bool(x) for x in k[1]])
            elif h == "iff":
                z = self.z_bool(k[1][0]) == self.z_bool(k[1][1])
            else:
                z = z3.Bool(k[1])
            self.z_cache[k] = z
        return z

    def atom_div(self, l, d):
        lo, hi = self.interval(l)
        lo = None if lo is None else lo // d
        hi = None if hi is None else hi // d
        if lo is not None and lo == hi:
            return lo
        i = self._atom(("div", l, d), (lo, hi))
        return SymInt(0, ((i, 1),))

    def atom_mul(self, a, b):
        if b < a:
            a, b = b, a
        i = self._atom(("mul", a, b), (None, None))
        return SymInt(0, ((i, 1),))

    def atom_ite(self, ck, a, b):
        d = self.decided.get(ck)
        if d is not None:
            r = a if d else b
            return SymInt(*r) if r[1] else r[0]
        (la, ha), (lb, hb) = self.interval(a), self.interval(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        i = self._atom(("ite", ck, a, b), (lo, hi))
        return SymInt(0, ((i, 1),))

    def interval(self, l):
        c, t = l
        lo = hi = c
        for a, k in t:
            bl, bh = self.atom_bounds[a]
            if k < 0:
                bl, bh = bh, bl
            lo = None if lo is None or bl is None else lo + k * bl
            hi = None if hi is None or bh is None else hi + k * bh
        return lo, hi

    def interval_le(self, c, t):
        lo, hi = self.interval((c, t))
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False

    def interval_eq(self, c, t):
        lo, hi = self.interval((c, t))
        if lo is not None and lo > 0:
            return False
        if hi is not None and hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True

    # --- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        return r

    def _read_model(self):
        m = self.solver.model()
        ints, bools = {}, {}
        for d in m.decls():
            v = m[d]
            if z3.is_int_value(v):
                ints[d.name()] = v.as_long()
            elif z3.is_true(v):
                bools[d.name()] = True
            elif z3.is_false(v):
                bools[d.name()] = False
        return Model(self, ints, bools)

    def _push(self, key):
        self.solver.push()
        if key is not True:
            self.solver.add(self.z_bool(key))

    # --- decisions
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        key = cond.key
        d = self.decided.get(key)
        if d is not None:
            return d
        i = self.pos
        if i < len(self.trace):
            it = self.trace[i]
            if it.kind != "b" or it.key != key:
                self._nondet(it.key, key)
            v = it.value
        elif i < len(self.forced):
            kind, v, _ = self.forced[i]
            if kind != "b":
                self._nondet(kind, "b")
            self._push(key if v else V.neg_key(key))
            self.trace.append(Item("b", key, v))
            self._last_forced(i)
        else:
            if self.deadline is not None and time.monotonic() > self.deadline:
                self._raise(SliceOver())
            v = self.model.bool(key)
            self._decision("b", key, v, None)
        self.pos += 1
        return self._decide(key, v)

    def _refresh_model(self):
        r = self._check()
        if r == z3.sat:
            self.model = self._read_model()
        elif r == z3.unsat:
            self._raise(Abandon())
        else:
            self._raise(Inconclusive("unknown while looking for a model"))

    def _decide(self, key, v):
        self.decided[key] = v
        nk = V.neg_key(key)
        if not isinstance(nk, bool):
            self.decided[nk] = not v
        return v

    def concretize(self, x):
        if isinstance(x, SymBool):
            return int(self.branch(x))
        if isinstance(x, V.SymRat):
            return float(x)
        if not isinstance(x, SymInt):
            return x
        l = (x.c, x.t)
        v = self.fixed_lin.get(l)
        if v is not None:
            return v
        n = 0
        while True:
            i = self.pos
            if i < len(self.trace):
                # re-execution: use the recorded candidate value
                it = self.trace[i]
                if it.kind != "k":
                    self._nondet(it.kind, "k")
                v, r = it.payload, it.value
                key = V.eq_key((l[0] - v, l[1]))
                if it.key is not True and it.key != key:
                    self._nondet(it.key, key)
            elif i < len(self.forced):
                kind, r, v = self.forced[i]
                if kind != "k":
                    self._nondet(kind, "k")
                key = V.eq_key((l[0] - v, l[1]))
                if isinstance(key, bool):
                    key = True
                self._push(key if r else V.neg_key(key))
                self.trace.append(Item("k", key, r, v))
                self._last_forced(i)
            else:
                if self.deadline is not None and time.monotonic() > self.deadline:
                    self._raise(SliceOver())
                v, r = self.model.lin(l), True
                key = V.eq_key((l[0] - v, l[1]))
                if key is True or self.decided.get(key):
                    self._push(True)
                    self.trace.append(Item("k", True, True, v))
                else:
                    self._decision("k", key, True, v)
            self.pos += 1
            if not isinstance(key, bool):
                self._decide(key, r)
            if r:
                self.stats["concretized"] += 1
                self.fixed_lin[l] = v
                return v
            n += 1
            if n > self.max_values:
                self._raise(Unbounded("more than %d values" % self.max_values))

    def _nondet(self, a, b):
        self._raise(Broken("non-deterministic execution: %r vs %r" % (a, b)))

    def _raise(self, exc):
        self.ctl = exc
        raise exc

    def _last_forced(self, i):
        if i == len(self.forced) - 1:
            self._refresh_model()

    def _decision(self, kind, key, v, payload):
        """a new decision at the end of the trace; the current model has v"""
        self.stats["decisions"] += 1
        nk = V.neg_key(key) if v else key
        if isinstance(nk, bool):
            other = z3.sat if nk else z3.unsat
        else:
            other = self._check(self.z_bool(nk))
        alt = None
        if other == z3.sat:
            alt = self._read_model()
        elif other == z3.unknown:
            self.stats["unknown_branches"] += 1
        it = Item(kind, key, v, payload, other != z3.unsat, alt)
        if it.pending:
            self.stats["forks"] += 1
        self._push(key if v else V.neg_key(key))
        self.trace.append(it)

    def unroll_exceeded(self):
        self._raise(Unbounded("loop unrolled more than %d times" % self.max_unroll))

    def text(self, x):
        """text of a symbolic value, only meant for messages"""
        l = (x.c, x.t)
        lo, hi = self.interval(l)
        self.tainted_text = True
        return "<%s>" % "+".join([str(x.c)] + ["%d*a%d" % (k, a) for a, k in x.t])

    # --- harness interface
    def int(self, name, lo=None, hi=None, eager=None):
        """an arbitrary integer in [lo, hi] (None: unbounded).  ``eager`` gives
        the reduced range used when symbolic execution is not possible"""
        if self.eager:
            if eager is not None:
                lo, hi = eager
            else:
                if lo is None:
                    lo = -2 if hi is None else hi - 4
                if hi is None:
                    hi = lo + 4
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = None
        if lo is not None and lo == hi:
            self.fixed[name] = lo
            return lo
        a = self._atom(("var", name, lo, hi), (lo, hi))
        self.inputs[name] = a
        x = SymInt(0, ((a, 1),))
        i = self.pos
        if i < len(self.trace):
            if self.trace[i].kind != "d" or self.trace[i].key != name:
                self._nondet(self.trace[i].key, name)
        else:
            self.solver.push()
            z = self.z_atom(a)
            if lo is not None:
                self.solver.add(z >= lo)
            if hi is not None:
                self.solver.add(z <= hi)
            self.trace.append(Item("d", name, True))
            if i < len(self.forced):
                if self.forced[i][0] != "d":
                    self._nondet(self.forced[i][0], "d")
                self._last_forced(i)
        self.pos += 1
        if self.eager:
            return self.concretize(x)
        return x

    def bool(self, name):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = "bool"
        b = SymBool(("var", name))
        if self.eager:
            return bool(b)
        return b

    def cint(self, name, lo, hi):
        """an arbitrary integer, forked over its values right away"""
        return self.concretize(self.int(name, lo, hi))

    def choice(self, name, n):
        if n <= 1:
            self.inputs[name] = None
            self.fixed[name] = 0
            return 0
        return self.concretize(self.int(name, 0, n - 1))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def flag(self, name):
        return bool(self.bool(name))

    def assume(self, cond):
        if isinstance(cond, (bool, int)):
            if not cond:
                self._raise(Abandon())
            return
        key = cond.key
        d = self.decided.get(key)
        if d is not None:
            if not d:
                self._raise(Abandon())
            return
        i = self.pos
        if i < len(self.trace):
            self.pos += 1
            self._decide(key, True)
            return
        self._push(key)
        self.trace.append(Item("a", key, True))
        self.pos += 1
        if i < len(self.forced):
            self._last_forced(i)
        elif not self.model.bool(key):
            self._refresh_model()
        self._decide(key, True)

    def check(self, cond, msg):
        self.stats["checks"] += 1
        if not isinstance(cond, SymBool):
            self.stats["checks_folded"] += 1
            if not cond:
                self.fail(msg)
            return
        key = cond.key
        d = self.decided.get(key)
        if d is True:
            self.stats["checks_folded"] += 1
            return
        i = self.pos
        if i < len(self.trace):
            self.pos += 1
            self._decide(key, True)
            return
        if i < len(self.forced):
            # discharged before the exploration was split
            self._push(True)
            self.trace.append(Item("c", key, True))
            self.pos += 1
            self._last_forced(i)
            self._decide(key, True)
            return
        self.stats["checks_solver"] += 1
        nk = V.neg_key(key)
        if not self.model.bool(key):
            self.fail(msg)
        r = self._check(self.z_bool(nk)) if not isinstance(nk, bool) else (z3.sat if nk else z3.unsat)
        if r == z3.sat:
            self.model = self._read_model()
            self.fail(msg)
        if r == z3.unknown:
            self._raise(Inconclusive(msg))
        self._push(True)
        self.trace.append(Item("c", key, True))
        self.pos += 1
        self._decide(key, True)

    def fail(self, msg):
        self._raise(Violation(msg))

    def done(self):
        self._raise(Done())

    def reach(self, label):
        self.path_labels.add(label)

    def observe(self, *xs):
        if self.want_obs:
            self.obs.append(xs)

    land = staticmethod(V.land)
    lor = staticmethod(V.lor)
    lnot = staticmethod(V.lnot)
    implies = staticmethod(V.implies)
    iff = staticmethod(V.iff)
    ite = staticmethod(V.ite)
    smin = staticmethod(V.sym_min)
    smax = staticmethod(V.sym_max)

    # --- exploration
    def assignment(self):
        out = dict(self.fixed)
        for name, a in self.inputs.items():
            if name in out:
                continue
            if a == "bool":
                out[name] = self.model.bools.get(name, False)
            elif a is not None:
                out[name] = self.model.atom(a)
        return out

    def _run_once(self, fn):
        self.pos = 0
        self.decided = {}
        self.inputs = {}
        self.fixed = {}
        self.fixed_lin = {}
        self.ctl = None
        self.path_labels = set()
        self.obs = []
        self.want_obs = len(self.samples) < 40
        V.set_engine(self)
        env.reset()
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            fn(self)
            if self.ctl is not None:
                raise self.ctl
        except Exception:
            if self.ctl is not None:
                raise self.ctl
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _alarm(self, *a):
        self._raise(PathTimeout())

    def explore(self, fn, stop_at_violation=True):
        """explore all paths of fn(self); returns remaining prefixes"""
        if self.eager:
            self.max_values = 10000
        while True:
            finished = True
            try:
                self._run_once(fn)
            except Abandon:
                finished = False
                self.stats["abandoned"] += 1
            except Done:
                pass
            except SliceOver:
                return self._pending_prefixes(include_current=True)
            except Violation as e:
                self.violations.append((e.msg, self.assignment()))
            except PathTimeout:
                self.violations.append(("does not terminate", self.assignment()))
            except Control:
                raise
            except Exception as e:
                self.violations.append(
                    ("unexpected exception %s: %s" % (type(e).__name__, str(e)[:200]), self.assignment())
                )
                self.last_exception = e
            if self.violations and stop_at_violation:
                return []
            if finished:
                self.stats["paths"] += 1
                for l in self.path_labels:
                    self.reached[l] = self.reached.get(l, 0) + 1
                if self.want_obs:
                    self.samples.append(
                        (self.assignment(), [[self.model.value(y) for y in x] for x in self.obs])
                    )
            self.stats["max_depth"] = max(self.stats["max_depth"], len(self.trace))
            if not self._backtrack():
                return []

    def _backtrack(self):
        n = len(self.trace)
        while n > len(self.forced):
            it = self.trace[n - 1]
            if it.pending:
                break
            n -= 1
        else:
            return False
        self.solver.pop(len(self.trace) - n + 1)
        del self.trace[n:]
        it = self.trace[n - 1]
        it.pending = False
        it.value = not it.value
        self._push(it.key if it.value else V.neg_key(it.key))
        if it.alt is not None:
            self.model = it.alt
            it.alt = None
        else:
            r = self._check()
            if r == z3.unsat:
                return self._backtrack()
            if r == z3.unknown:
                raise Inconclusive("unknown while exploring a branch")
            self.model = self._read_model()
        return True

    def _pending_prefixes(self, include_current=False):
        out = []
        items = [(it.kind, it.value, it.payload) for it in self.trace]
        if include_current and len(items) >= len(self.forced):
            out.append(items)
        for i, it in enumerate(self.trace):
            if it.pending:
                out.append(items[:i] + [(it.kind, not it.value, it.payload)])
        return out
