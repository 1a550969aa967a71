"""Cut points for loops over data of symbolic size.

A loop whose iterable is concrete (or whose condition is decided) runs as it
stands.  Otherwise the loop is verified by induction: its body is executed
once from an arbitrary state that satisfies the loop invariant, the invariant
is checked to be re-established, and execution goes on after the loop from an
arbitrary state that satisfies it.  Invariants come from the harness
(ctx.loop_spec) and, for local variables, from candidate templates of which
those that are not inductive are dropped (Houdini)."""
import sys
import z3
from fractions import Fraction
from .core import Unsupported, PathEnd, is_sym, to_int, to_real, fold, Restart
from .sym import raw, wrap, kind, rcmp, rsub, ctx, Scalar, SymBool, rand_
from . import arr as _arr
from .seq import is_symbolic_iter, concrete_iter, as_seq, SymSeq, SymList


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Spec:
    """What a harness can say about the loops of the code it verifies."""
    allow_for = False          # symbolic for loops may be cut
    allow_while = False
    lists = False              # lists filled by loops are tracked
    own_lists = False          # ... by the harness (managed), not by the rule for lists with one element per iteration
    peel = 1
    pos = None                 # for loops: the number of iterations done where an invariant is evaluated
    seq = None                 # for loops: the sequence iterated over
    env = None                 # local variables at that point
    loop = None                # the loop concerned (an object that lives as long as its execution)

    def havoc_heap(self):
        """Forget everything the loop may have changed on the heap."""

    def check_heap(self, where):
        """Prove the heap invariant."""

    def watch(self, seq):
        """Iterations that the exit path of a stateless loop must have passed."""
        return []

    def candidates(self, entry, now):
        """[(name, raw bool)] candidate invariants over locals (dicts name -> value)."""
        return []

    def variants(self, before, after):
        return None

    def type_hint(self, name, value):
        return None

    def managed(self, obj, attr):
        """Is this attribute part of the state that havoc_heap and check_heap look after?"""
        return False


class Memory:
    """The mutable objects reachable from the variables of a loop: a change of any of them that no invariant accounts for makes the
    loop unsupported."""

    def __init__(self, env, spec):
        self.items, self.lists = [], {}
        self.spec = spec
        self.seen = set()
        for k, v in env.items():
            if not k.startswith("_pv"):
                self.add(v, k, 0)

    def add(self, v, path, depth):
        if depth > 6 or id(v) in self.seen or isinstance(v, type):
            return
        if type(v) is SymList:
            self.seen.add(id(v))
            self.lists[path] = v
            self.items.append((v, path, None))
            return
        if isinstance(v, (list, dict, set, tuple)):
            self.seen.add(id(v))
            if not isinstance(v, tuple):
                self.items.append((v, path, self.print(v)))
            for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
                self.add(x, "%s[%s]" % (path, k), depth + 1)
        elif isinstance(v, _arr.Arr):
            self.seen.add(id(v))
            self.items.append((v, path, self.print(v)))
        elif type(v).__module__.startswith("celest") and hasattr(v, "__dict__"):
            self.seen.add(id(v))
            self.items.append((v, path, self.print(v)))
            for k, x in vars(v).items():
                self.add(x, "%s.%s" % (path, k), depth + 1)

    def print(self, v):
        """Contents, kept alive so that identities stay unique."""
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, (list, set)):
            return list(v)
        if isinstance(v, _arr.Arr):
            return [v.buf, v.buf.version, v._shape]
        return list(vars(v).items())

    def changed(self):
        for v, path, p in self.items:
            if p is None:
                continue
            q = self.print(v)
            if isinstance(v, (list, set, dict, _arr.Arr)):
                if self.spec.managed(v, None):
                    continue
                if len(p) != len(q) or any(a is not b and not (isinstance(a, tuple) and a[0] is b[0] and a[1] is b[1]) and not (isinstance(a, int) and a == b) for a, b in zip(p, q)):
                    return path
                continue
            a, b = dict(p), dict(q)
            for k in set(a) | set(b):
                if a.get(k, UNBOUND) is not b.get(k, UNBOUND) and not self.spec.managed(v, k):
                    return "%s.%s" % (path, k)
        return None


class Frozen:
    """A function that is called later, in the state in which it was created (elements of symbolic lists are computed on demand)."""

    def __new__(cls, f):
        if not getattr(f, "__closure__", None) and (ctx() is None or ctx().heap is None):
            return f
        return object.__new__(cls)

    def __init__(self, f):
        self.f = f
        self.cells, env = [], {}
        for n, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, Frozen):
                continue
            self.cells.append((cell, v))
            env[n] = v
        self.mem = Memory(env, None)
        self.lists = [(l, l.seq) for l in self.mem.lists.values()]
        self.heap = ctx().heap
        self.state = self.heap.freeze() if self.heap is not None else None

    def __call__(self, *a):
        saved = []
        for cell, v in self.cells:
            now = cell.cell_contents
            if now is not v:
                saved.append(lambda cell=cell, now=now: setattr(cell, "cell_contents", now))
                cell.cell_contents = v
        for l, s in self.lists:
            if l.seq is not s:
                saved.append(lambda l=l, now=l.seq: setattr(l, "seq", now))
                l.seq = s
        for v, path, p in self.mem.items:
            if p is None:
                continue
            if isinstance(v, _arr.Arr):
                if v.buf.version != p[1]:
                    raise Unsupported("an array is modified after it was used in a list")
            elif isinstance(v, list):
                if len(v) != len(p) or any(x is not y for x, y in zip(v, p)):
                    saved.append(lambda v=v, now=list(v): v.__setitem__(slice(None), now))
                    v[:] = p
            elif isinstance(v, (dict, set)):
                if self.mem.print(v) != p:
                    raise Unsupported("a dictionary is modified after it was used in a list")
            else:
                d = vars(v)
                q = dict(p)
                if any(d.get(k, UNBOUND) is not x for k, x in q.items()) or len(d) != len(q):
                    now = dict(d)

                    def back(d=d, now=now):
                        d.clear()
                        d.update(now)
                    saved.append(back)
                    d.clear()
                    d.update(q)
        if self.heap is not None:
            now = self.heap.freeze()
            if any(x is not y and not (is_sym(x) and is_sym(y) and x.eq(y)) for x, y in zip(now, self.state)):
                saved.append(lambda: self.heap.thaw(now))
                self.heap.thaw(self.state)
        try:
            return self.f(*a)
        finally:
            for b in reversed(saved):
                b()


class Univ:
    """Invariant: fact(i) for every 0 <= i < n; goals are stated for the constants `generic`, which are arbitrary."""

    def __init__(self, n, fact, generic, assumed=None):
        self.n, self.fact, self.generic, self.assumed = n, fact, generic, assumed or fact


def inv_assume(f):
    c = ctx()
    if isinstance(f, Univ):
        c.assume_forall(f.n, f.assumed)
    elif f is False:
        raise PathEnd()
    elif is_sym(f):
        c.assume(f)


def inv_try(f, name=""):
    c = ctx()
    c.undecided_try = False
    if isinstance(f, Univ):
        r = all(c.try_prove(z3.Implies(z3.And(g >= 0, g < to_int(f.n)), _b(f.fact(g)))) for g in f.generic)
    else:
        r = c.try_prove(f)
    if not r and c.undecided_try:
        c.stats.doubtful.append(name)
    return r


def _b(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


class Concrete:
    cut = False

    def __init__(self, it):
        self.it = it

    def run(self):
        return concrete_iter(self.it)


def fresh_like(name, v, spec):
    """An arbitrary value of the same type."""
    c = ctx()
    h = spec.type_hint(name, v)
    if h is not None:
        return h
    if isinstance(v, Unbound):
        return v
    r = raw(v)
    if r is not None:
        k = kind(r)
        return wrap(c.bool(name) if k == "b" else c.int(name) if k == "i" else c.real(name))
    if isinstance(v, _arr.Arr):
        if v._dtype == "O":
            raise Unsupported("object array modified in a loop")
        sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[v._dtype]
        f = z3.Function(c.name(name), *([z3.IntSort()] * max(1, v.ndim)), sort)
        return _arr.Arr(v._shape, lambda idx: f(*[to_int(i) for i in (idx or (0,))]), None, v._dtype)
    import types
    if isinstance(v, (types.FunctionType, type)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(fresh_like(name, x, spec) for x in v)
    if type(v).__name__ == "Quantity":
        import copy
        q = copy.copy(v)
        q._data = fresh_like(name, v._data, spec)
        return q
    raise Unsupported("loop modifies %s of type %s" % (name, type(v).__name__))


def numeric(v):
    r = raw(v)
    return r if r is not None and kind(r) in "if" else None


def local_candidates(entry, now, spec, names):
    out = []
    ints = []
    for n in names:
        e, v = numeric(entry.get(n, UNBOUND)), numeric(now.get(n, UNBOUND))
        if e is None or v is None:
            continue
        out.append(("%s==entry" % n, rcmp("==", v, e)))
        out.append(("%s<=entry" % n, rcmp("<=", v, e)))
        out.append(("%s>=entry" % n, rcmp(">=", v, e)))
        out.append(("%s>=0" % n, rcmp(">=", v, 0)))
        if kind(v) == "i":
            ints.append(n)
    for a in ints:
        for b in ints:
            if a < b:
                out.append(("%s<=%s" % (a, b), rcmp("<=", raw(now[a]), raw(now[b]))))
                out.append(("%s>=%s" % (a, b), rcmp(">=", raw(now[a]), raw(now[b]))))
    out.extend(spec.candidates(entry, now))
    return out


class ForLoop:
    cut = True

    def __init__(self, lid, it, names, tnames):
        c = ctx()
        self.lid = lid
        self.spec = c.loop_spec
        if self.spec is None or not self.spec.allow_for:
            raise Unsupported("loop over a symbolic sequence in " + lid)
        self.seq = as_seq(it)
        self.n = self.seq.n
        self.names = names
        self.mode = None

    def havoc(self, names, env):
        c = ctx()
        self.entry = {n: env.get(n, UNBOUND) for n in names}
        self.env0 = dict(env)
        self.begin()
        now = {n: fresh_like(n, self.entry[n], self.spec) for n in names}
        self.assume_inv(now)
        return tuple(now[n] for n in names)

    def at(self, pos, env):
        self.spec.loop, self.spec.pos, self.spec.seq, self.spec.env = self, pos, self.seq, env

    def begin(self):
        c = ctx()
        self.at(0, self.env0)
        self.spec.check_heap("holds before the loop")
        self.memory = Memory(self.env0, self.spec)
        self.mode = c.choose(2)
        self.k = c.index(self.n, "iter") if self.mode == 0 else None
        self.built = c.stats.built.setdefault("%s%s/%s" % (c.label, self.lid, self.n), {})
        self.fills = {p: Filled(self, p, l) for p, l in self.memory.lists.items() if p in self.built}
        for f in self.fills.values():
            f.set(self.k if self.mode == 0 else self.n)
        self.seqs = {p: l.seq for p, l in self.memory.lists.items()}
        self.at(self.k if self.mode == 0 else self.n, self.env0)
        self.spec.enter(self) if hasattr(self.spec, "enter") else None
        self.spec.havoc_heap()

    def dropped(self):
        return ctx().stats.houdini.setdefault("%s%s/%s" % (ctx().label, self.lid, self.n), set())

    def assume_inv(self, now):
        c = ctx()
        d = self.dropped()
        full = dict(self.env0)
        full.update(now)
        self.start = full
        _entry(self, d, now)
        for name, f in local_candidates(self.env0, full, self.spec, list(now)):
            if name not in d:
                inv_assume(f)

    def check_inv(self, env):
        c = ctx()
        d = self.dropped()
        self.at(fold(z3.simplify(self.k + 1)), env)
        bad = False if self.spec.own_lists else self.check_lists()
        for name, f in local_candidates(self.env0, env, self.spec, list(self.names)):
            if name not in d and not inv_try(f, name):
                d.add(name)
                bad = True
        if bad:
            raise Restart()
        self.spec.check_heap("is preserved by the loop body")
        m = self.memory.changed()
        if not m and self.spec.own_lists:
            m = next((p for p, l in self.memory.lists.items() if l.seq is not self.seqs[p] and not self.spec.managed(l, None)), None)
        if m:
            raise Unsupported("a loop changes %s" % m)

    def check_lists(self):
        """Lists the body appends to: at most one element per iteration."""
        bad = False
        for p, l in self.memory.lists.items():
            old = self.seqs[p]
            if l.seq is old:
                if p in self.fills and not self.built[p].get("some"):
                    self.built[p]["some"] = bad = True
                continue
            if getattr(l.seq, "prev", None) is not old:
                raise Unsupported("a loop changes the list %s by more than appending an element" % p)
            r = raw(l.seq.value)
            k = "O" if r is None else "f" if kind(r) == "f" else kind(r)
            if p not in self.built:
                self.built[p] = dict(kind=k, some=False, ident=k == "i")
                bad = True
            elif self.built[p]["kind"] == k == "i" and self.built[p]["ident"] and not ctx().try_prove(rcmp("==", r, self.k)):
                self.built[p]["ident"] = False
                bad = True
            elif self.built[p]["kind"] != k:
                new = "f" if {self.built[p]["kind"], k} == {"i", "f"} else "O"
                if self.built[p]["kind"] != new:
                    self.built[p]["kind"] = new
                    bad = True
        return bad

    def run(self):
        c = ctx()
        if self.mode is None:
            self.entry, self.env0 = {}, dict(sys._getframe(1).f_locals)
            self.begin()
            self.assume_inv({})
        if self.mode == 0:
            self.spec.iteration(self.k) if hasattr(self.spec, "iteration") else None
            yield self.seq.get(self.k)
            self.check_inv(dict(sys._getframe(1).f_locals))
            raise PathEnd()
        if not self.carried():
            for q in self.spec.watch(self.seq):
                for f in self.fills.values():
                    f.set(q)
                yield self.seq.get(q)
                for f in self.fills.values():
                    f.passed(q)
        elif self.fills:
            raise Unsupported("a list is filled by a loop with other state")
        for f in self.fills.values():
            f.set(self.n)

    def carried(self):
        return [n for n in self.names if not isinstance(self.entry.get(n, UNBOUND), Unbound)]


def _entry(loop, d, now):
    """Candidates that do not hold initially are dropped."""
    entry = dict(loop.env0)
    pos = loop.spec.pos
    loop.spec.pos = 0
    bad = False
    for n, f in local_candidates(loop.env0, entry, loop.spec, list(now)):
        if n not in d and not inv_try(f, n):
            d.add(n)
            bad = True
    loop.spec.pos = pos
    if bad:
        raise Restart()


class Filled:
    """A list to which a loop appends one element per iteration, or (some) at most one."""

    def __init__(self, loop, path, lst):
        c = ctx()
        self.lst, self.base, self.info = lst, lst.seq, loop.built[path]
        lst.filled = self
        self.known = []
        k = self.info["kind"]
        self.f = None if k == "O" else z3.Function(c.name("filled"), z3.IntSort(), {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k])
        self.rank = z3.Function(c.name("rank"), z3.IntSort(), z3.IntSort()) if self.info["some"] else None

    def before(self, k):
        """Number of elements appended in the first k iterations."""
        if self.rank is None:
            return k
        c = ctx()
        if not is_sym(k) and k == 0:
            return 0
        r = self.rank(to_int(k))
        c.assume(z3.And(r >= 0, r <= to_int(k)))
        return r

    def set(self, k):
        e = self.base.n

        def get(m):
            m2 = _arr.isub(m, e) if not (not is_sym(e) and e == 0) else m
            if is_sym(e) or e != 0:
                if ctx().truth(rcmp("<", m, e)):
                    return self.base.get(m)
            for j, v in self.known:
                t = self.before(j)
                if (is_sym(t) and is_sym(m2) and t.eq(m2)) or (not is_sym(t) and not is_sym(m2) and t == m2):
                    return v
            if self.info["kind"] == "i" and self.info.get("ident") and self.rank is None:
                return wrap(m2)
            if self.f is None:
                raise Unsupported("an element of a list filled by a loop")
            return wrap(self.f(to_int(m2)))
        self.start = self.lst.seq = SymSeq(_arr.iadd(e, self.before(k)), get)
        self.start.objects = self.info["kind"] == "O" and not is_sym(e) and e == 0

    def passed(self, j):
        """What iteration j did."""
        c = ctx()
        s = self.lst.seq
        if s is self.start:
            self.known.append((j, NOTHING))
            if self.rank is None:
                raise Unsupported("a list is not filled")
            c.assume(self.before(_arr.iadd(j, 1)) == self.before(j))
            self.known.pop()
            self.skipped = getattr(self, "skipped", []) + [j]
            return
        v = s.value
        self.known.append((j, v))
        if self.rank is not None:
            c.assume(self.before(_arr.iadd(j, 1)) == self.before(j) + 1)
        if self.f is not None:
            t = raw(v)
            c.assume(self.f(to_int(self.before(j))) == (to_real(t) if self.info["kind"] == "f" else t))


NOTHING = object()


class WhileLoop:
    def __init__(self, lid, names):
        self.lid = lid
        self.names = names
        self.count = 0
        self.cut = False
        self.symbolic = False
        self.phase = 0

    def head(self, env):
        """Called at the top of every iteration, before the condition."""
        c = ctx()
        self.cut = False
        if c.loop_spec is not None:
            c.loop_spec.last = dict(env)
        if self.phase == 2:
            self.check_inv(env)
            self.phase = 3
            return
        if self.count > 20000:
            raise Unsupported("loop does not end: " + self.lid)
        spec = c.loop_spec
        if self.symbolic and self.count >= 1 or spec is not None and spec.peel == 0 and spec.allow_while and self.count == 0:
            if spec is None or not spec.allow_while:
                if self.count > (spec.peel if spec else 6):
                    raise Unsupported("loop with a symbolic condition in " + self.lid)
                return
            if self.count < spec.peel:
                return
            self.spec = spec
            if c.choose(2) == 0:
                self.phase = 4          # leaves here
                return
            self.env0 = dict(env)
            spec.loop, spec.pos, spec.seq, spec.env = self, None, None, env
            spec.check_heap("holds before the loop")
            self.memory = Memory(env, spec)
            self.seqs = {p: l.seq for p, l in self.memory.lists.items()}
            spec.havoc_heap()
            self.cut = True

    def dropped(self):
        return ctx().stats.houdini.setdefault(ctx().label + self.lid, set())

    def havoc(self, names, env):
        c = ctx()
        now = {n: fresh_like(n, env.get(n, UNBOUND), self.spec) for n in names}
        full = dict(self.env0)
        full.update(now)
        self.start = full
        d = self.dropped()
        _entry(self, d, now)
        for name, f in local_candidates(self.env0, full, self.spec, list(names)):
            if name not in d:
                inv_assume(f)
        self.phase = 1
        return tuple(now[n] for n in names)

    def check_inv(self, env):
        c = ctx()
        d = self.dropped()
        self.spec.loop, self.spec.pos, self.spec.seq, self.spec.env = self, None, None, env
        bad = False
        for name, f in local_candidates(self.env0, env, self.spec, list(self.names)):
            if name not in d and not inv_try(f, name):
                d.add(name)
                bad = True
        if bad:
            raise Restart()
        self.spec.check_heap("is preserved by the loop body")
        m = self.memory.changed() or next((p for p, l in self.memory.lists.items() if l.seq is not self.seqs[p] and not self.spec.managed(l, None)), None)
        if m:
            raise Unsupported("a loop changes %s" % m)
        v = self.spec.variants(self.start, env)
        if v is not None:
            c.any_of(v[0], v[1])

    def test(self, f, env):
        c = ctx()
        v = f()
        if isinstance(v, Scalar):
            r = raw(v)
            if is_sym(r) and not isinstance(fold(z3.simplify(r)), (bool, int, Fraction)):
                self.symbolic = True
        if isinstance(v, _arr.Arr):
            self.symbolic = True
        t = True if v else False
        if self.phase == 1:
            if not t:
                raise PathEnd()
            self.phase = 2
            return True
        if self.phase in (3, 4):
            if t:
                raise PathEnd()
            return False
        self.count += 1
        return t


def for_loop(lid, it, names, tnames):
    if is_symbolic_iter(it):
        if sys._getframe(1).f_code.co_flags & 0x20:
            raise Unsupported("a generator over a symbolic sequence")
        return ForLoop(lid, it, names, tnames)
    return Concrete(it)


def while_loop(lid, names):
    return WhileLoop(lid, names)
