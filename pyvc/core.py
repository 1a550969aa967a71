"""Path exploration, obligations and solver back ends of the verifier.

A *harness* is a Python function h(ctx) that builds symbolic arguments, calls
a real function of /repo through the interpreter and states obligations.
`explore` runs it once per feasible path (decisions are replayed), so the
obligations of every path of the real code are generated and discharged."""
import os
import sys
import time
import subprocess
import tempfile
from fractions import Fraction
import z3
from .poly import (Algebra, TooBig, SIN, COS, TAN, SQRT, ACOS, ASIN, ATAN, ATAN2,
                   EXP, LOG, POW, PI, R, I)

sys.setrecursionlimit(20000)
z3.set_param("auto_config", True)

PROVE_TIMEOUT_MS = int(os.environ.get("PYVC_TIMEOUT_MS", "8000"))
BRANCH_TIMEOUT_MS = 1500
TRACE = os.environ.get("VTRACE")




class Unsupported(BaseException):
    """The code uses something outside the verified subset (BaseException, so
    that handlers in the verified code do not swallow it)."""


class PathEnd(BaseException):
    """The current path is finished (inductive step done or infeasible)."""


class Restart(BaseException):
    """A candidate loop invariant was dropped: explore again."""


CTX = None


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def rat(v):
    v = Fraction(v)
    return z3.RealVal(str(v.numerator) if v.denominator == 1 else "%d/%d" % (v.numerator, v.denominator))


def to_real(v):
    if isinstance(v, bool):
        return rat(int(v))
    if isinstance(v, (int, Fraction)):
        return rat(v)
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, rat(1), rat(0))
    raise Unsupported("not a number: %r" % (v,))


def to_int(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("not an int: %r" % (v,))


def to_bool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported("not a bool: %r" % (v,))


def to_term(v):
    if is_sym(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return rat(v)
    raise Unsupported("no term for %r" % (v,))


def fold(t):
    """Constant fold a z3 term to a Python value where possible."""
    if not is_sym(t):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


class _Guard:
    def __init__(self, c, cond):
        self.c = c
        self.cond = fold(cond)

    def __enter__(self):
        self.k = len(self.c.guards)
        self.c.guards.append(self.cond)

    def __exit__(self, *a):
        del self.c.guards[self.k]
        return False


class NoMerge(Exception):
    """The paths of a computation cannot be merged."""


class Sub:
    """One path through a computation whose paths are merged."""

    def __init__(self, prefix):
        self.prefix, self.taken, self.alts = prefix, [], []


class Cursor:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []


class Obligation:
    def __init__(self, name):
        self.name = name
        self.instances = 0
        self.proved = 0
        self.failed = []
        self.unknown = []
        self.backends = {}
        self.time = 0.0


class Stats:
    def __init__(self):
        self.obligations = {}
        self.paths = 0
        self.infeasible = 0
        self.functions = set()
        self.assumed = set()
        self.covers = {}
        self.unsupported = []
        self.solver_time = 0.0
        self.queries = 0
        self.houdini = {}
        self.built = {}
        self.smt_log = []
        self.doubtful = []        # candidate invariants given up because no solver decided them

    def ob(self, name):
        if name not in self.obligations:
            self.obligations[name] = Obligation(name)
        return self.obligations[name]


class Ctx:
    def __init__(self, stats=None, label=""):
        global CTX
        CTX = self
        self.stats = stats or Stats()
        self.alg = Algebra()
        self.label = label
        self.axiom_cache = {}
        self.timeout = PROVE_TIMEOUT_MS
        self.deadline = None
        self.loop_spec = None
        self.length_functions = self.undecided_try = False
        self.sort_hook = self.sum_hook = self.open_hook = self.choices_hook = self.positions_hook = None
        self.heap = None                 # symbolic heap of a harness: freeze(), thaw(state)
        self.partial_mode = "assume"     # what to do with domain conditions of numpy operations
        self.np_scalars = False
        self.extra_axioms = []
        self.reset()

    def reset(self):
        if self.alg.conditional:
            self.alg = Algebra()
            self.axiom_cache = {}
        self.alg.condition = self.condition
        self.heap = self.loop_spec = None
        self.pc = []
        self.counter = 0
        self.ghost = {}
        self.lemmas = []
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT_MS)
        self.solver_axioms = set()
        self.cursor = Cursor([])
        self.guards = []
        self.subs = []
        self.local = 0
        self.slow = False
        self.tokens = {}
        self.token_list = []
        self.token_lens = {}
        self.foralls = []
        self.indices = []
        self.forall_done = set()
        self.bounds = {}
        self.model_cache = None

    # -- fresh symbols ---------------------------------------------------------
    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def real(self, base="r"):
        return z3.Real(self.name(base))

    def int(self, base="i"):
        return z3.Int(self.name(base))

    def bool(self, base="b"):
        return z3.Bool(self.name(base))

    def func(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    def index(self, n, base="i"):
        """A generic index of an axis of length n."""
        i = self.int(base)
        self.assume(z3.And(i >= 0, i < to_int(n)))
        self.register_index(i, n)
        return i

    def register_index(self, i, n):
        """i is a term that may be used as an index of an axis of length n;
        universal facts about that axis are instantiated for it."""
        n = fold(n)
        key = (i.get_id(), n.get_id() if is_sym(n) else n)
        if key in self.bounds:
            return
        self.bounds[key] = (i, n)
        self.indices.append((i, n))
        k = 0
        while k < len(self.foralls):
            self._instantiate(k, i, n)
            k += 1

    def assume_forall(self, n, fact, what=""):
        """fact(i) holds for every 0 <= i < n."""
        self.foralls.append((fold(n), fact))
        k = len(self.foralls) - 1
        for i, m in list(self.indices):
            self._instantiate(k, i, m)

    def _instantiate(self, k, i, n):
        m, fact = self.foralls[k]
        same = (is_sym(m) and is_sym(n) and m.eq(n)) or (not is_sym(m) and not is_sym(n) and m == n)
        key = (k, i.get_id())
        if not same or key in self.forall_done:
            return
        self.forall_done.add(key)
        inr = z3.And(i >= 0, i < to_int(n))
        with self.guarded(inr):
            f = fact(i)
        if f is True:
            return
        self.assume(z3.Implies(inr, to_bool(f)))

    def trust_index(self, r, n):
        n = fold(n)
        if not is_sym(r):
            return not is_sym(n) and 0 <= r < n
        return (r.get_id(), n.get_id() if is_sym(n) else n) in self.bounds and self.bounds[
            (r.get_id(), n.get_id() if is_sym(n) else n)][0].decl().kind() == z3.Z3_OP_UNINTERPRETED and \
            self.bounds[(r.get_id(), n.get_id() if is_sym(n) else n)][0].num_args() == 0 and \
            not str(r).startswith(("wit!", "arg!"))

    def guarded(self, cond):
        return _Guard(self, cond)

    def partial(self, cond, what, value=None, raises=None):
        """An operation is only defined (no nan, inf) when cond holds."""
        cond = fold(cond)
        if cond is True or self.partial_mode == "ignore":
            return
        if self.partial_mode == "prove":
            goal = to_bool(cond)
            for g in self.guards:
                goal = z3.Implies(to_bool(g), goal)
            self.prove("defined: " + what, goal)
        elif is_sym(cond):
            if not self.guards:
                self.assume(cond)
                self.stats.assumed.add("numpy operations are applied within their domain (" + what + ")")
            else:
                goal = cond
                for g in self.guards:
                    goal = z3.Implies(to_bool(g), goal)
                self.assume(goal)

    def condition(self, cond):
        """Is a domain condition of a rewriting established on this path?"""
        if self.check(z3.Not(cond)) == z3.unsat:
            return True
        from . import normal
        return normal.solve(self, list(self.pc), cond, 4000)[0] == "unsat"

    def implied(self, cond):
        return self.check(z3.Not(cond)) == z3.unsat

    def known_value(self, t):
        """The only value an integer term can have on this path, if any."""
        t = fold(z3.simplify(t)) if is_sym(t) else t
        if not is_sym(t):
            return t
        if self.check() != z3.sat:
            return None
        v = self.solver.model().eval(t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if self.check(t != v) == z3.unsat:
            return v.as_long()
        return None

    def concretize(self, t, limit=40):
        v = self.known_value(t)
        if v is not None:
            return v
        for k in range(-2, limit):
            if self.branch(t == k):
                return k
        raise Unsupported("a symbolic integer is needed as a concrete one")

    def try_prove(self, f):
        f = fold(f)
        if isinstance(f, bool):
            return f
        r = self.decide(f)[0]
        self.undecided_try = self.undecided_try or r == "unknown"
        return r == "proved"

    def any_of(self, name, options):
        """Obligation: at least one of the alternatives is provable."""
        for o in options:
            if self.try_prove(o):
                return self.holds(name, True)
        return self.holds(name, False, "no alternative could be proved") if False else self.undecided(name)

    def undecided(self, name, reason="no alternative could be proved"):
        ob = self.stats.ob(self.label + name)
        ob.instances += 1
        ob.unknown.append(dict(reason=reason))
        return False

    def nonfinite(self, what):
        raise Unsupported(what)

    def token_length(self, p):
        key = (p.value.get_id() if is_sym(p.value) else p.value, p.spec, p.conv)
        if key not in self.token_lens:
            if p.conv in ("text", "formatted", "format") or self.length_functions and is_sym(p.value):
                v = z3.IntVal(p.value) if not is_sym(p.value) else p.value
                n = z3.Function("length %s %s" % (p.conv, p.spec), v.sort(), z3.IntSort())(v)
            else:
                n = self.int("len")
            self.assume(n >= 1)
            self.token_lens[key] = n
        return self.token_lens[key]

    # -- path condition ----------------------------------------------------------
    def _push_axioms(self, t):
        for a in self.axioms([t]):
            if a.get_id() not in self.solver_axioms:
                self.solver_axioms.add(a.get_id())
                self.alg.keep.append(a)
                self.solver.add(a)

    def assume(self, cond):
        cond = fold(cond)
        if cond is True:
            return
        if cond is False:
            self.stats.infeasible += 1
            raise PathEnd()
        self.pc.append(cond)
        self._push_axioms(cond)
        self.solver.add(cond)

    def check(self, *extra):
        for e in extra:
            self._push_axioms(e)
        t0 = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t0
        self.slow = self.slow or dt > .3
        self.stats.solver_time += dt
        self.stats.queries += 1
        return r

    def feasible(self, cond=None):
        return self.check(*([cond] if cond is not None else [])) != z3.unsat

    def refuted(self, cond):
        """The condition contradicts the axioms of its own terms."""
        s = z3.Solver()
        s.set("timeout", 200)
        s.add(cond, *self.axioms([cond]))
        self.stats.queries += 1
        return s.check() == z3.unsat

    def outcomes(self, cond):
        """Can the condition hold, can it fail."""
        if self.slow:
            if self.refuted(cond):
                return False, True
            if self.refuted(z3.Not(cond)):
                return True, False
        return self.feasible(cond), self.feasible(z3.Not(cond))

    def branch(self, cond):
        """Decide a symbolic condition; explores both outcomes."""
        cond = fold(cond)
        if isinstance(cond, bool):
            return cond
        cond = fold(z3.simplify(cond))
        if isinstance(cond, bool):
            return cond
        if self.subs:
            return self._sub_branch(cond)
        c = self.cursor
        k = len(c.taken)
        if self.guards:
            # where the guards decide the condition no path is added
            g = z3.And(*[to_bool(x) for x in self.guards])
            if k < len(c.prefix):
                d = c.prefix[k]
            else:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget for path exploration exhausted")
                d = 2 if not self.feasible(z3.And(g, z3.Not(cond))) else 3 if not self.feasible(z3.And(g, cond)) else 4
            c.taken.append(d)
            if d != 4:
                self.local += 1
                return d == 2
            k += 1
        if k < len(c.prefix):
            d = c.prefix[k]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for path exploration exhausted")
            ft, ff = self.outcomes(cond)
            if not ft and not ff:
                self.stats.infeasible += 1
                raise PathEnd()
            d = ft
            if ft and ff:
                c.alts.append(c.taken + [False])
        c.taken.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def _sub_branch(self, cond):
        s = self.subs[-1]
        k = len(s.taken)
        if k < len(s.prefix):
            d = s.prefix[k]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget for path exploration exhausted")
            g = z3.And(*[to_bool(x) for x in self.guards])
            ft, ff = self.feasible(z3.And(g, cond)), self.feasible(z3.And(g, z3.Not(cond)))
            d = 4 if ft and ff else 2 if ft or not ff else 3
            if d == 4:
                s.alts.append(s.taken + [5])
        s.taken.append(d)
        self.local += 1
        if d in (4, 5):
            self.guards.append(cond if d == 4 else z3.Not(cond))
        return d in (2, 4)

    def merge(self, fn, limit=200):
        """The value (a term) of a computation without effects, its paths merged into one term; no path is added.
        None where its paths do not give terms."""
        out, work = [], [[]]
        n = len(self.guards)
        while work:
            if len(out) > limit:
                return None
            s = Sub(work.pop())
            self.subs.append(s)
            try:
                v = fn()
            except Unsupported:
                raise
            except Exception:
                v = None
            finally:
                self.subs.pop()
                pc = [to_bool(g) for g in self.guards[n:]]
                del self.guards[n:]
            if v is None or not (is_sym(v) or isinstance(v, (bool, int, Fraction))):
                return None
            out.append((z3.And(*pc), v))
            work += s.alts
        if len(out) == 1:
            return out[0][1]
        if all(isinstance(v, (bool, z3.BoolRef)) for _, v in out):
            conv = to_bool
        elif any(isinstance(v, (bool, z3.BoolRef)) for _, v in out):
            return None
        elif all(isinstance(v, int) or (is_sym(v) and v.is_int()) for _, v in out):
            conv = to_int
        else:
            conv = to_real
        r = conv(out[-1][1])
        for pc, v in reversed(out[:-1]):
            r = z3.If(pc, conv(v), r)
        return fold(z3.simplify(r)) if conv is to_bool else fold(r)

    def choose(self, n):
        """Nondeterministic choice among n alternatives (all explored)."""
        if self.subs:
            raise NoMerge()
        c = self.cursor
        k = len(c.taken)
        if k < len(c.prefix):
            d = c.prefix[k]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                c.alts.append(c.taken + [j])
        c.taken.append(d)
        return d

    def truth(self, v):
        v = fold(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return self.branch(v)
        if isinstance(v, z3.ArithRef):
            return self.branch(v != 0)
        raise Unsupported("truth of %r" % (v,))

    # -- exploration ---------------------------------------------------------------
    def explore(self, harness, max_paths=4000):
        """Run the harness once per path."""
        global CTX
        import copy
        for _attempt in range(60):
            work = [[]]
            n = 0
            saved = copy.deepcopy(self.stats.obligations)
            try:
                while work:
                    prefix = work.pop()
                    self.reset()
                    CTX = self
                    self.cursor = Cursor(prefix)
                    n += 1
                    if n > max_paths:
                        raise Unsupported("more than %d paths" % max_paths)
                    try:
                        harness(self)
                        self.stats.paths += 1
                    except PathEnd:
                        pass
                    work.extend(self.cursor.alts)
                return n
            except Restart:
                self.stats.obligations = saved
        raise Unsupported("loop invariants did not stabilise")

    # -- axioms for uninterpreted functions ---------------------------------------
    def axioms(self, terms):
        out = {}
        for t in terms:
            if not z3.is_expr(t):
                continue
            k = ("closure", t.get_id())
            if k not in self.axiom_cache:
                self.alg.keep.append(t)
                self.axiom_cache[k] = self._axiom_closure(t)
            for a in self.axiom_cache[k]:
                out.setdefault(a.get_id(), a)
        return list(out.values())

    def _axiom_closure(self, t):
        out = []
        terms = [t]
        seen = set()
        done = set()
        stack = list(terms)
        while stack:
            t = stack.pop()
            if not z3.is_expr(t) or t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue  # instances inside quantifiers are left to the solver
            if z3.is_app(t):
                if t.num_args():
                    for a in self._axioms_of(t):
                        if a.get_id() not in done:
                            done.add(a.get_id())
                            out.append(a)
                            stack.append(a)
                    stack.extend(t.children())
        return out

    def _axioms_of(self, t):
        k = t.get_id()
        if k in self.axiom_cache:
            return self.axiom_cache[k]
        n = t.decl().name()
        r = []
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if n in ("sin", "cos"):
                x = t.arg(0)
                s, c = SIN(x), COS(x)
                r = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            elif n == "sqrt":
                x = t.arg(0)
                r = [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
            elif n == "arccos":
                x = t.arg(0)
                r = [z3.Implies(z3.And(x >= -1, x <= 1),
                                z3.And(t >= 0, t <= PI, COS(t) == x, SIN(t) >= 0)),
                     z3.Implies(x == 1, t == 0), z3.Implies(x == -1, t == PI)]
            elif n == "arcsin":
                x = t.arg(0)
                r = [z3.Implies(z3.And(x >= -1, x <= 1),
                                z3.And(2 * t >= -PI, 2 * t <= PI, SIN(t) == x, COS(t) >= 0)),
                     z3.Implies(x == 0, t == 0)]
            elif n == "arctan":
                x = t.arg(0)
                r = [z3.And(2 * t > -PI, 2 * t < PI, COS(t) > 0, SIN(t) == x * COS(t))]
            elif n == "arctan2":
                y, x = t.arg(0), t.arg(1)
                h = SQRT(x * x + y * y)
                r = [z3.And(t > -PI, t <= PI),
                     z3.Implies(z3.Or(x != 0, y != 0), z3.And(h > 0, h * COS(t) == x, h * SIN(t) == y)),
                     z3.Implies(z3.And(y == 0, x > 0), t == 0), z3.Implies(x >= 0, z3.And(2 * t >= -PI, 2 * t <= PI))]
            elif n == "exp":
                x = t.arg(0)
                r = [t > 0, z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1)]
            elif n == "log":
                x = t.arg(0)
                r = [z3.Implies(z3.And(x > 0, x < 1), t < 0), z3.Implies(x > 1, t > 0)]
            elif n == "round":
                x = t.arg(0)
                r = [z3.And(2 * z3.ToReal(t) <= 2 * x + 1, 2 * z3.ToReal(t) >= 2 * x - 1)]
            elif n == "pow":
                b, e = t.arg(0), t.arg(1)
                r = [z3.Implies(b > 0, t > 0), z3.Implies(e == 1, t == b), z3.Implies(e == 0, t == 1), z3.Implies(b == 1, t == 1)]
        self.alg.keep.append(t)
        self.axiom_cache[k] = r
        return r

    # -- obligations -------------------------------------------------------------
    def prove(self, name, cond, extra=(), tactic=None, quiet=False):
        """State an obligation under the current path condition."""
        ob = self.stats.ob(self.label + name)
        ob.instances += 1
        t0 = time.time()
        status, how, detail = self.decide(cond, extra)
        dt = time.time() - t0
        ob.time += dt
        if TRACE:
            print("%8.2f %s %s %s" % (dt, status, how, name), file=sys.stderr, flush=True)
        if status == "proved":
            ob.proved += 1
            ob.backends[how] = ob.backends.get(how, 0) + 1
        elif status == "failed":
            ob.failed.append(detail.text() if isinstance(detail, Goal) else detail)
        else:
            ob.unknown.append(detail.text() if isinstance(detail, Goal) else detail)
        return status == "proved"

    def lemma(self, name, cond, extra=()):
        """Prove, then use."""
        ok = self.prove(name, cond, extra)
        if ok and not isinstance(cond, bool):
            self.assume(cond)
        return ok

    def fail(self, name, detail):
        ob = self.stats.ob(self.label + name)
        ob.instances += 1
        # an unreachable failure is no failure
        r = self.check()
        if r == z3.unsat:
            ob.proved += 1
            ob.backends["unreachable"] = ob.backends.get("unreachable", 0) + 1
        elif r == z3.sat:
            ob.failed.append(dict(reason=detail, model=self._model_text(self.solver)))
        else:
            st, how, _ = self.decide(z3.BoolVal(False), ())
            if st == "proved":
                ob.proved += 1
                ob.backends[how] = ob.backends.get(how, 0) + 1
            elif st == "failed":
                ob.failed.append(dict(reason=detail))
            else:
                ob.unknown.append(dict(reason=detail))

    def holds(self, name, b, detail=""):
        """A concrete (already decided) obligation."""
        ob = self.stats.ob(self.label + name)
        if b:
            ob.instances += 1
            ob.proved += 1
            ob.backends["evaluation"] = ob.backends.get("evaluation", 0) + 1
            return True
        self.fail(name, detail or "evaluates to false")
        return False

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        k = self.label + name
        self.stats.covers.setdefault(k, False)
        if not self.stats.covers[k] and self.check() != z3.unsat:
            self.stats.covers[k] = True

    def _model_text(self, solver):
        try:
            m = solver.model()
            items = sorted(str(d) + " = " + str(m[d])[:80] for d in m.decls())
            return items[:60]
        except z3.Z3Exception:
            return []

    def decide(self, cond, extra=()):
        cond = fold(cond)
        if cond is True:
            return "proved", "simplifier", None
        if cond is False:
            cond = z3.BoolVal(False)
        if z3.is_and(cond):
            hows = []
            for c in cond.children():
                s, how, d = self.decide(c, extra)
                if s != "proved":
                    return s, how, d
                hows.append(how)
            return "proved", hows[0] if hows else "simplifier", None
        # 1. field identity
        if z3.is_eq(cond) and cond.arg(0).sort() in (R, I):
            try:
                if self.alg.is_zero(cond.arg(0) - cond.arg(1)) or self.alg.congruent(cond.arg(0) - cond.arg(1)):
                    return "proved", "field-identity", None
            except TooBig:
                pass
        # 2. SMT
        hyps = list(self.pc) + list(self.lemmas) + list(extra)
        return self.smt(hyps, cond)

    def smt(self, hyps, cond):
        goal = z3.Not(cond)
        terms = hyps + [goal]
        axs = self.axioms(terms)
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", min(self.timeout, 1000))
        s.add(*terms)
        s.add(*axs)
        r = s.check()
        self.stats.solver_time += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            return "proved", "z3", None
        detail = Goal(cond)
        if r == z3.unknown:
            from . import normal
            if normal.integers(self, hyps, cond, self.timeout // 2) == "unsat":
                return "proved", "z3-integer", None
            r1, how = normal.solve(self, hyps, cond, self.timeout)
            if r1 == "unsat":
                return "proved", how, None
            if self.timeout > 1000:
                t0 = time.time()
                s.set("timeout", self.timeout)
                r = s.check()
                self.stats.solver_time += time.time() - t0
                if r == z3.unsat:
                    return "proved", "z3", None
        if r == z3.sat:
            detail["model"] = self._model_text(s)
            return "failed", "z3", detail
        # 3. other solvers
        r2 = self.nlsat(terms, axs)
        if r2 == "unsat":
            return "proved", "z3-nlsat", None
        if r2 == "sat":
            return "failed", "z3-nlsat", detail
        r3 = self.cvc5(s)
        if r3 == "unsat":
            return "proved", "cvc5", None
        detail["reason"] = "solvers answered unknown"
        return "unknown", "none", detail

    def nlsat(self, terms, axs):
        """Purely real-arithmetic queries: replace atoms by variables, use nlsat."""
        try:
            conv = {}
            out = []
            for t in list(terms) + list(axs):
                u = abstract_apps(t, conv)
                if u is None:
                    if any(t is x for x in axs):
                        continue
                    continue   # dropping a hypothesis is sound; the goal is never dropped
                out.append((t, u))
            goal = terms[-1]
            if not any(t is goal for t, _u in out):
                return "unknown"
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", self.timeout)
            s.add(*[u for _t, u in out])
            t0 = time.time()
            r = s.check()
            self.stats.solver_time += time.time() - t0
            self.stats.queries += 1
            if r == z3.unsat:
                return "unsat"
            return "unknown"
        except z3.Z3Exception:
            return "unknown"

    def cvc5(self, solver):
        try:
            text = solver.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + text)
            try:
                t0 = time.time()
                p = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout, "--nl-ext-tplanes", f.name],
                                   capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
                self.stats.solver_time += time.time() - t0
                self.stats.queries += 1
                out = p.stdout.strip().splitlines()
                return out[0] if out else "unknown"
            finally:
                os.unlink(f.name)
        except (OSError, subprocess.TimeoutExpired):
            return "unknown"


class Goal(dict):
    """Details of a query; the text of the goal is made when it is reported."""

    def __init__(self, cond):
        super().__init__()
        self.cond = cond

    def text(self):
        return dict(goal=str(self.cond)[:600], **self)


def abstract_apps(t, conv):
    """Replace uninterpreted applications by real constants; None if the term
    is not in real arithmetic."""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        r = go1(x)
        memo[k] = r
        return r

    def go1(x):
        if z3.is_quantifier(x) or not z3.is_app(x):
            return None
        kind = x.decl().kind()
        if kind == z3.Z3_OP_UNINTERPRETED:
            if x.sort() == R:
                if x.num_args() == 0:
                    return x
                if x.get_id() not in conv:
                    conv[x.get_id()] = (z3.Real("abs!%d" % len(conv)), x)
                return conv[x.get_id()][0]
            if x.sort() == z3.BoolSort() and x.num_args() == 0:
                return x
            return None
        if kind in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT, z3.Z3_OP_SELECT):
            if x.sort() == R:
                if x.get_id() not in conv:
                    conv[x.get_id()] = (z3.Real("abs!%d" % len(conv)), x)
                return conv[x.get_id()][0]
            return None
        if x.sort() == I and not z3.is_int_value(x):
            return None
        kids = []
        for c in x.children():
            g = go(c)
            if g is None:
                return None
            kids.append(g)
        if not kids:
            return x
        if kind == z3.Z3_OP_AND:
            return z3.And(*kids)
        if kind == z3.Z3_OP_OR:
            return z3.Or(*kids)
        if kind == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*kids)
        return x.decl()(*kids) if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (
            z3.Sum(*kids) if kind == z3.Z3_OP_ADD else z3.Product(*kids))
    return go(t)
