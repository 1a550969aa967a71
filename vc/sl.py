"""Request sets of arbitrary size.

A request handler holds N requests; request r is a record of the real layout (RequestIndices).  Its mutable fields are
arrays from request identities to values (z3 arrays), its immutable fields functions of r; its windows are numbered, and
an array gives the order in which its list of windows holds them.  Ghost state: the exact number of scheduled requests
(updated by every write to the scheduled flag).  The code under verification is the real RequestHandler and the real
operators; they run on these records."""
from vc.gl import *
from pyvc.seq import SymList, SymSeq
from pyvc.loops import Univ
from pyvc.core import Restart

INS = "celest.schedule.insertion_operators"
REM = "celest.schedule.removal_operators"
RH = "celest.schedule.request_handler"
SU = "celest.schedule.scheduling_utils"
SC = "celest.schedule.scheduler"
WH = "celest.encounter.window_handling"
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ARRS = dict(sched=BOOL, hasw=BOOL, vi=INT, hass=BOOL, st=REAL, hasd=BOOL, du=REAL)
FIELDS = ["is_scheduled", "vtw_index", "scheduled_start_time", "scheduled_duration", "location", "deadline", "duration", "priority", "quality", "look_angle", "vtw_list"]


def I(x):
    return core.to_int(x) if not isinstance(x, int) else z3.IntVal(x)


class Fixed(SymList):
    """A list owned by the heap: the code may read it; writing to it in place is outside the model."""

    def _no(self, *a, **k):
        raise Unsupported("a list of windows is modified in place")
    __setitem__ = append = reverse = insert = pop = remove = sort = extend = clear = __delitem__ = __iadd__ = _no


class Heap:
    def __init__(self, c, w, look=True):
        self.c, self.w = c, w
        self.u = w.get("celest.units")
        self.N = c.int("N")
        c.assume(self.N >= 0)
        self.a = {}
        self.fresh("init")
        f = lambda n, *s: z3.Function(c.name(n), *s)
        self.loc_, self.deadline, self.dur = f("loc", INT, INT), f("deadline", INT, REAL), f("dur", INT, REAL)
        self.prio, self.qual = f("prio", INT, REAL), f("quality", INT, INT)
        self.hasl, self.lang = f("has_look", INT, BOOL), f("look", INT, REAL)
        self.L = f("windows", INT, INT)
        self.rise, self.set = f("rise", INT, INT, REAL), f("set", INT, INT, REAL)
        self.lan, self.lat = f("look_none", INT, INT, BOOL), f("look_time", INT, INT, REAL)
        self.iq = f("image_quality", REAL, REAL, REAL, INT)
        self.look = look
        self.attitude = None
        self.objs = {}
        self.keep = []
        c.positions_hook = self.counts
        # arbitrary requests and windows, for which universal goals are stated
        self.g = [c.int("anyrequest"), c.int("otherrequest")]
        self.gw = c.int("anywindow")
        c.assume_forall(self.N, lambda r: AND(self.L(I(r)) >= 0, self.dur(I(r)) > 0), "windows, durations")
        for g in self.g:
            c.register_index(g, self.N)

    # -- mutable state ---------------------------------------------------------
    def fresh(self, why):
        c = self.c
        for k, s in ARRS.items():
            self.a[k] = z3.Array(c.name(k), INT, s)
        if why == "init":
            self.a["ord"] = z3.Array(c.name("order"), INT, z3.ArraySort(INT, INT))
        self.written = []
        self.card(c.int("count"))

    def card(self, n):
        """n is the number of scheduled requests of the current state: facts true of every cardinality."""
        c, S = self.c, self.a["sched"]
        self.count = n
        wit = c.int("wit")
        c.assume(AND(n >= 0, n <= self.N, z3.Implies(n >= 1, AND(wit >= 0, wit < self.N, z3.Select(S, wit)))))
        c.register_index(wit, self.N)
        c.assume_forall(self.N, lambda r: z3.If(z3.Select(S, I(r)), n >= 1, n < self.N))
        if getattr(self, "full", False):
            w2 = c.int("unscheduled")
            c.assume(z3.Implies(n < self.N, AND(w2 >= 0, w2 < self.N, NOT(z3.Select(S, w2)))))
            c.register_index(w2, self.N)
        return wit

    def counts(self, p):
        """A list of the places of exactly the scheduled requests is as long as their number."""
        c = self.c
        if not (is_sym(p.n0) and p.n0.eq(self.N)):
            return
        k = c.int("anyplace")
        inr = AND(k >= 0, k < self.N)
        c.register_index(k, self.N)
        with c.guarded(inr):
            m = core.to_bool(p.mask(k))
        if c.try_prove(z3.Implies(inr, m == self.get("sched", k))):
            c.assume(p.n == self.count)

    def snapshot(self):
        h = self.handler
        d = dict(self.a)
        d["ghost"] = self.count
        d["n"] = raw(h.number_of_scheduled_requests)
        d["N"] = raw(h.number_of_requests)
        d["list"] = h.requests
        d["seq"] = getattr(h.requests, "seq", None)
        return d

    def freeze(self):
        return tuple(self.a[k] for k in sorted(self.a)) + (self.count,)

    def thaw(self, st):
        self.a = dict(zip(sorted(self.a), st[:-1]))
        self.count = st[-1]

    def same(self, s):
        now = self.snapshot()
        return all(now[k] is s[k] or (is_sym(now[k]) and is_sym(s[k]) and now[k].eq(s[k])) or (isinstance(now[k], int) and now[k] == s[k]) for k in s)

    def get(self, k, r, S=None):
        return z3.Select((S or self.a)[k], I(r))

    def num(self, r, p, S=None):
        """Number of the window at place p of the list of request r."""
        return z3.Select(z3.Select((S or self.a)["ord"], I(r)), I(p))

    # -- program values --------------------------------------------------------
    def obj(self, key, make):
        k = tuple(x.get_id() if is_sym(x) else x for x in key)
        if k not in self.objs:
            self.keep.append(key)
            self.objs[k] = make()
        return self.objs[k]

    def q(self, t, unit=None):
        return self.w.get(Q).Quantity(wrap(t), unit or self.u.jd2000)

    def request(self, r):
        if not is_sym(r):
            self.c.register_index(z3.IntVal(r), self.N)
        return self.obj(("req", r), lambda: Req(self, r))

    def window(self, r, num):
        def make():
            self.c.assume(self.rise(I(r), I(num)) <= self.set(I(r), I(num)))
            v = self.w.get(WH).VisibleTimeWindow(wrap(self.rise(I(r), I(num))), wrap(self.set(I(r), I(num))), (self.attitude or Att)(self, r, num))
            v.ghost = (r, num)
            return v
        return self.obj(("win", r, num), make)

    def windows(self, r):
        n = self.L(I(r))
        S = self.a["ord"]

        reads = []

        def get(p):
            num = fold(z3.simplify(z3.Select(z3.Select(S, I(r)), I(p))))
            inr = AND(I(p) >= 0, I(p) < n)
            self.c.assume(z3.Implies(inr, AND(I(num) >= 0, I(num) < n)))
            for q, m in reads:
                self.c.assume(z3.Implies(AND(inr, I(q) >= 0, I(q) < n, I(num) == I(m)), I(p) == I(q)))
            reads.append((p, num))
            return self.window(r, num)
        return Fixed(SymSeq(n, get))

    def location(self, r):
        return self.obj(("loc", r), lambda: Loc(r))

    def make_handler(self):
        h = self.w.get(RH).RequestHandler()
        h.requests = SymList(SymSeq(self.N, self.request))
        h.number_of_requests = wrap(self.N)
        h.number_of_scheduled_requests = wrap(self.count)
        self.handler = h
        self.c.heap = self
        return h

    # -- specification ---------------------------------------------------------
    def days(self, sec):
        return core.to_real(rdiv(rmul(sec, size_of(self.u.s)), size_of(self.u.dy)))

    def end(self, r, S=None):
        return self.get("st", r, S) + self.days(self.get("du", r, S))

    def well_formed(self, r, S=None):
        """Nothing is recorded for an unscheduled request, and a scheduled one refers to one of its windows."""
        g = lambda k: self.get(k, r, S)
        return z3.If(g("sched"), AND(g("hasw"), g("hass"), g("hasd"), g("vi") >= 0, g("vi") < self.L(I(r)), self.num(r, g("vi"), S) >= 0, self.num(r, g("vi"), S) < self.L(I(r))),
                     AND(NOT(g("hasw")), NOT(g("hass")), NOT(g("hasd"))))

    def feasible(self, r, S=None):
        r = I(r)
        g = lambda k: self.get(k, r, S)
        n = self.num(r, g("vi"), S)
        s, e = g("st"), self.end(r, S)
        return z3.Implies(g("sched"), AND(self.rise(r, n) < s, e < self.set(r, n), e < self.deadline(r), self.iq(self.rise(r, n), self.set(r, n), s) >= self.qual(r), g("du") == self.dur(r)))

    def apart(self, r, q, S=None):
        """Two scheduled requests do not overlap."""
        g = self.get
        return z3.Implies(AND(I(r) != I(q), g("sched", r, S), g("sched", q, S)), z3.Or(self.end(r, S) <= g("st", q, S), self.end(q, S) <= g("st", r, S)))

    def unchanged(self, r, S, keys=("sched", "hasw", "vi", "hass", "st", "hasd", "du"), T=None):
        return AND(*[self.get(k, r, T) == self.get(k, r, S) for k in keys])

    def assume_pairs(self, S=None):
        S = dict(S or self.a)
        c, N = self.c, self.N
        inr = lambda x: AND(I(x) >= 0, I(x) < N)

        def outer(r):
            c.assume_forall(N, lambda q: z3.Implies(inr(r), self.apart(r, q, S)))
            return True
        c.assume_forall(N, outer)

    def assume_feasible(self):
        S = dict(self.a)
        self.c.assume_forall(self.N, lambda r: AND(self.well_formed(r, S), self.feasible(r, S)))
        self.assume_pairs(S)

    def assume_well_formed(self):
        S = dict(self.a)
        self.c.assume_forall(self.N, lambda r: self.well_formed(r, S))

    def goal(self, name, f, g=None):
        for x in (g or self.g[:1]):
            self.c.prove(name, z3.Implies(AND(I(x) >= 0, I(x) < self.N), f(x)))

    def count_kept(self, where=" "):
        """Is the recorded number equal to the number scheduled at every iteration of the present loop?"""
        o = getattr(self, "ops", None)
        if not where or o is None or getattr(o, "loop", None) is None:
            return True
        return "n" in o._frame() and "count" not in o.weakened()

    def assume_count(self):
        if self.count_kept():
            self.c.assume(eq(raw(self.handler.number_of_scheduled_requests), self.count))

    def check_count(self, where):
        if not self.count_kept(where):
            return
        if "iteration" in where and getattr(self, "ops", None) is not None and getattr(self.ops, "loop", None) is not None:
            if not self.c.try_prove(eq(raw(self.handler.number_of_scheduled_requests), self.count)):
                self.ops.weakened().add("count")
                raise Restart()
        self.c.prove("the recorded number of scheduled requests is the number scheduled" + where, eq(raw(self.handler.number_of_scheduled_requests), self.count))

    def check_well_formed(self, where):
        self.goal("an unscheduled request has nothing recorded, a scheduled one a window, start and duration" + where, self.well_formed)

    def check_feasible(self, where):
        self.goal("a scheduled request lies inside its window, before its deadline, with its quality and duration" + where, self.feasible)
        name = "no two scheduled requests overlap" + where
        g1, g2 = self.g
        inr = lambda x: AND(I(x) >= 0, I(x) < self.N)
        for r in self.written:
            self.c.prove(name, z3.Implies(inr(g1), self.apart(r, g1)))
        self.c.prove(name, z3.Implies(AND(inr(g1), inr(g2), *[AND(g1 != I(r), g2 != I(r)) for r in self.written]), self.apart(g1, g2)))


class Loc:
    def __init__(self, r):
        self.ghost = r


class Att:
    """The attitude of a window; only its look angle (by the contract of C29) and samples are used."""

    def __init__(self, h, r, num):
        self.ghost = (r, num)
        self.pitch, self.time, self.roll, self.yaw = (Series(k, r, num) for k in ("pitch", "time", "roll", "yaw"))


class Series:
    def __init__(self, what, r, num):
        self.ghost = (what, r, num)


class Req:
    """A request record."""
    __hash__ = object.__hash__
    _pv_alias = True

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Req):
            raise Unsupported("comparison of requests")
        return NotImplemented

    def __init__(self, heap, r):
        self.h, self.id = heap, r

    def __len__(self):
        return len(FIELDS)

    def _field(self, k):
        k = raw(k) if raw(k) is not None else k
        if not isinstance(k, int):
            raise Unsupported("a request is indexed by %r" % (k,))
        k = int(k)
        if not -len(FIELDS) <= k < len(FIELDS):
            raise IndexError("list index out of range")
        return FIELDS[k]

    def __getitem__(self, k):
        h, r, c = self.h, self.id, self.h.c
        f = self._field(k)
        if f == "is_scheduled":
            return wrap(fold(z3.simplify(h.get("sched", r))))
        if f in ("vtw_index", "scheduled_start_time", "scheduled_duration"):
            has, val = {"vtw_index": ("hasw", "vi"), "scheduled_start_time": ("hass", "st"), "scheduled_duration": ("hasd", "du")}[f]
            if not c.branch(h.get(has, r)):
                return None
            v = fold(z3.simplify(h.get(val, r)))
            return wrap(v) if f == "vtw_index" else h.q(v, h.u.s if val == "du" else None)
        if f == "location":
            return h.location(r)
        if f == "deadline":
            return h.obj(("deadline", r), lambda: h.q(h.deadline(I(r))))
        if f == "duration":
            return h.obj(("duration", r), lambda: h.q(h.dur(I(r)), h.u.s))
        if f == "priority":
            return wrap(h.prio(I(r)))
        if f == "quality":
            return wrap(h.qual(I(r)))
        if f == "look_angle":
            if not h.look or not c.branch(h.hasl(I(r))):
                return None
            return h.obj(("look", r), lambda: h.q(h.lang(I(r)), h.u.deg))
        return h.windows(r)

    def __setitem__(self, k, v):
        h, r, c = self.h, self.id, self.h.c
        f = self._field(k)
        st = lambda key, x: h.a.__setitem__(key, z3.Store(h.a[key], I(r), x))
        h.written.append(r) if not any(x is r or (is_sym(x) and is_sym(r) and x.eq(r)) for x in h.written) else None
        if f == "is_scheduled":
            new = raw(v)
            if new is None:
                raise Unsupported("the scheduled flag is set to %r" % (v,))
            new = sym.rtruth(new)
            old = h.get("sched", r)
            nb = z3.BoolVal(new) if isinstance(new, bool) else new
            st("sched", nb)
            h.card(fold(z3.simplify(h.count + z3.If(nb, 1, 0) - z3.If(old, 1, 0))))
            return
        if f in ("vtw_index", "scheduled_start_time", "scheduled_duration"):
            has, val = {"vtw_index": ("hasw", "vi"), "scheduled_start_time": ("hass", "st"), "scheduled_duration": ("hasd", "du")}[f]
            st(has, z3.BoolVal(v is not None))
            if v is None:
                return
            if f == "vtw_index":
                t = raw(v)
                if t is None or sym.kind(t) != "i":
                    raise Unsupported("a window index %r" % (v,))
                st(val, I(t))
            else:
                base = h.u.s if val == "du" else h.u.jd2000
                if type(v).__name__ != "Quantity":
                    raise Unsupported("a time that is not a quantity")
                un = v.unit
                t = raw(v.data)
                if un.dimension != base.dimension or t is None:
                    raise Unsupported("a time in other terms")
                st(val, core.to_real(rdiv(rmul(t, size_of(un)), size_of(base))))
            return
        if f == "vtw_list":
            x = seq.as_seq(v)
            if x is None:
                raise Unsupported("a list of windows of another kind")
            self.set_windows(x)
            return
        cur = self[k]
        if cur is v:
            return
        a, b = raw(cur), raw(v)
        c.prove("the data of a request (%s) is kept" % f, eq(a, b) if a is not None and b is not None else z3.BoolVal(False))

    def set_windows(self, x):
        h, r, c = self.h, self.id, self.h.c
        n = h.L(I(r))
        c.prove("a request keeps its windows: their number", eq(x.n, n))
        i, j = c.int("wi"), c.int("wj")
        for k in (i, j):
            c.register_index(k, n)
        nums = []
        inr = AND(i >= 0, i < n, j >= 0, j < n)
        with c.guarded(inr):
            for k in (i, j):
                o = x.get(k)
                gh = getattr(o, "ghost", None)
                if gh is None or len(gh) != 2:
                    c.fail("a request keeps its windows", "its list holds something else")
                    raise PathEnd()
                c.prove("a request keeps its windows: they are its own", z3.Implies(inr, eq(gh[0], r)))
                nums.append(I(gh[1]))
        c.prove("a request keeps its windows: each once", z3.Implies(AND(inr, i != j), nums[0] != nums[1]))
        c.prove("a request keeps its windows: known ones", z3.Implies(inr, AND(nums[0] >= 0, nums[0] < n)))
        A = z3.Array(c.name("order"), INT, INT)
        c.assume_forall(n, lambda p: z3.Select(A, I(p)) == I(x.get(p).ghost[1]))
        h.a["ord"] = z3.Store(h.a["ord"], I(r), A)


class Ops(loops.Spec):
    """Loop cut points for the operators: the heap is either untouched by a loop (tried first) or satisfies the
    invariants of the harness at every iteration."""
    allow_for = allow_while = True
    peel = 0

    def __init__(self, heap, state_inv, state_check, watch=()):
        self.heap, self.state_inv, self.state_check, self.watched = heap, state_inv, state_check, watch
        heap.ops = self

    def _frame(self):
        c = self.heap.c
        key = "heap:%s%s" % (c.label, self.loop.lid)
        return c.stats.houdini.setdefault(key, set())

    def weakened(self):
        """Parts of the invariant a loop does not keep."""
        return self.heap.c.stats.houdini.setdefault("weak:%s%s" % (self.heap.c.label, self.loop.lid), set())

    def check_heap(self, where):
        h = self.heap
        if where.startswith("holds"):
            self.loop.S0 = h.snapshot()
            self.loop.written = h.written
            if self._frame():
                self.state_check(" (before a loop)")
            return
        # what the body wrote, relative to the state in which it started
        new = {k for k in self.changed_since(self.loop.S1) if k not in self._frame()}
        if new:
            self._frame().update(new)
            raise Restart()
        if not self._frame():
            return
        if h.handler.requests is not self.loop.S0["list"] or h.handler.requests.seq is not self.loop.S0["seq"]:
            raise Unsupported("the list of requests is replaced in a loop")
        self.state_check(" (after an iteration)")

    def changed_since(self, S):
        now = self.heap.snapshot()
        return {k for k in now if k not in ("list", "seq") and not (now[k] is S[k] or (is_sym(now[k]) and is_sym(S[k]) and now[k].eq(S[k])) or (isinstance(now[k], int) and now[k] == S[k]))}

    def havoc_heap(self):
        ch = self._frame()
        if ch:
            h, c = self.heap, self.heap.c
            for k in ch & set(ARRS):
                h.a[k] = z3.Array(c.name(k), INT, ARRS[k])
            if "ord" in ch:
                h.a["ord"] = z3.Array(c.name("order"), INT, z3.ArraySort(INT, INT))
            h.written = []
            if ch & {"sched", "ghost", "n"}:
                h.card(c.int("count"))
                if "n" in ch:
                    h.handler.number_of_scheduled_requests = wrap(c.int("number"))
            if "N" in ch:
                raise Unsupported("the number of requests changes in a loop")
            self.state_inv()
        self.loop.S1 = self.heap.snapshot()

    def managed(self, obj, attr):
        return obj is self.heap.handler and attr == "number_of_scheduled_requests"

    def entry(self):
        """Is the invariant being evaluated before the first iteration?"""
        return isinstance(self.pos, int) and self.pos == 0

    def state(self):
        return self.loop.S0 if self.entry() else self.heap.a

    def watch(self, sq):
        if self._frame():
            return []
        n = fold(sq.n)
        out = []
        for g, m in self.watched:
            if isinstance(m, str):
                m = n if is_sym(n) and n.num_args() == 1 and n.decl().eq(self.heap.L) else None
            if is_sym(n) and is_sym(m) and n.eq(m):
                if self.heap.c.branch(AND(g >= 0, g < m)):
                    out.append(g)
        return out


def _keys(v):
    """A sort key as a list of numbers (lexicographic), or None for objects that cannot be compared."""
    if isinstance(v, tuple):
        out = []
        for x in v:
            r = raw(x)
            out.append(r)
        return out
    return [raw(v)]


def before(a, b, strict):
    """Lexicographic comparison of keys; None when incomparable objects might be compared."""
    out = z3.BoolVal(not strict)
    for x, y in reversed(list(zip(a, b))):
        if x is None or y is None:
            return None
        x, y = core.to_real(x), core.to_real(y)
        out = z3.Or(x < y, AND(x == y, out))
    return out


def sorting(c):
    """sorted(): some permutation in the order of the keys, stable."""
    def hook(it, key, reverse):
        s = seq.as_seq(it)
        n = s.n
        P, V = z3.Function(c.name("perm"), INT, INT), z3.Function(c.name("place"), INT, INT)
        rev = c.truth(raw(reverse)) if raw(reverse) is not None else bool(reverse)

        def derived(k):
            return z3.is_app(k) and k.num_args() == 1 and str(k.decl()).startswith(("perm!", "place!"))

        def fact(k):
            k = I(k)
            if not derived(k):
                c.register_index(P(k), n)
                c.register_index(V(k), n)
            return AND(P(k) >= 0, P(k) < I(n), V(P(k)) == k, V(k) >= 0, V(k) < I(n), P(V(k)) == k)
        c.assume_forall(n, fact)
        keyof = lambda k: _keys(key(s.get(k)) if key is not None else s.get(k))
        probe = c.int("probe")
        c.register_index(probe, n)
        with c.guarded(AND(probe >= 0, probe < I(n))):
            kp = keyof(probe)
        m = len(kp)
        if any(x is None for x in kp):
            # objects in the key: only comparable as long as an earlier component decides
            m = [x is None for x in kp].index(True)
            c.prove("sorting never compares objects that have no order", z3.BoolVal(False) if not getattr(c, "distinct_keys", False) else z3.BoolVal(True))

        reads = []

        def read(k):
            k = I(k)
            if not any(k.eq(x) for x in reads):
                c.register_index(k, n)
                c.assume(z3.Implies(AND(k >= 0, k < I(n)), fact(k)))
                for l in reads:
                    inr = AND(k >= 0, l >= 0, k < I(n), l < I(n))
                    with c.guarded(inr):
                        a, b = keyof(P(k))[:m], keyof(P(l))[:m]
                    same = AND(*[core.to_real(x) == core.to_real(y) for x, y in zip(a, b)])
                    for x, y, p, q in ((k, l, a, b), (l, k, b, a)):
                        lo, hi = (q, p) if rev else (p, q)
                        c.assume(z3.Implies(AND(inr, x < y), AND(before(lo, hi, False), z3.Implies(same, P(x) < P(y)))))
                reads.append(k)
            return s.get(P(k))
        return SymList(SymSeq(n, read))
    return hook
