"""ALNS.solve for every number of iterations, cost function, operators' effects and random outcome.

Solutions are references into a symbolic store (so that aliasing is modelled): an array from references to contents; the
cost and completeness are arbitrary functions of the contents; operators replace the contents of the solution they are
given by anything; a deep copy allocates a new reference, a shallow one shares the contents."""
from vc.gl import *

AL = "celest.schedule.alns"
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
I = lambda x: x if is_sym(x) else z3.IntVal(x)


class Store:
    def __init__(self, c):
        self.c = c
        self.S = z3.Array(c.name("contents"), INT, INT)
        self.next = 1
        self.cost = z3.Function(c.name("cost"), INT, REAL)
        self.done = z3.Function(c.name("complete"), INT, BOOL)
        self.init = z3.Select(self.S, 0)
        self.best = self.cost(self.init)        # ghost: the least cost generated so far

    def get(self, ref, S=None):
        return z3.Select(self.S if S is None else S, I(ref))

    def freeze(self):
        return (self.S, I(self.next), self.best)

    def thaw(self, s):
        self.S, self.next, self.best = s


class Sol:
    def __init__(self, st, ref):
        self.st, self.ref = st, ref

    def __deepcopy__(self, memo):
        st = self.st
        r = st.next
        st.S = z3.Store(st.S, I(r), st.get(self.ref))
        st.next = fold(z3.simplify(I(r) + 1))
        return Sol(st, r)

    def __copy__(self):
        return Sol(self.st, self.ref)


class Search(loops.Spec):
    allow_for = allow_while = True
    peel = 0

    def __init__(self, st, a):
        self.st, self.a = st, a

    def lists(self):
        return {k: v for k, v in vars(self.a).items() if type(v) is list and v and all(raw(x) is not None for x in v)}
    lists_ = lists
    lists = False

    def managed(self, obj, attr):
        if obj is self.a:
            return type(getattr(self.a, attr, None)) is list and attr in self.lists_()
        return any(obj is v for v in self.lists_().values())

    def snap(self):
        return dict(S=self.st.S, next=self.st.next, best=self.st.best, lists={k: list(v) for k, v in self.lists_().items()})

    def check_heap(self, where):
        st, c = self.st, self.st.c
        if where.startswith("holds"):
            self.loop.S0 = self.snap()
        elif {k: len(v) for k, v in self.lists_().items()} != {k: len(v) for k, v in self.loop.S0["lists"].items()}:
            raise Unsupported("lists change in a loop")
        c.prove("the initial solution is not modified", st.get(0) == st.init)

    def havoc_heap(self):
        st, c = self.st, self.st.c
        st.S = z3.Array(c.name("contents"), INT, INT)
        n = c.int("allocated")
        c.assume(n >= I(self.loop.S0["next"]))
        st.next = n
        st.best = c.real("least")
        c.assume(st.get(0) == st.init)
        for v in self.lists_().values():
            v[:] = [wrap(c.real("weight")) for _ in v]

    def type_hint(self, name, v):
        if isinstance(v, Sol):
            r = self.st.c.int("ref")
            return Sol(self.st, r)

    def candidates(self, entry, now):
        st, out = self.st, []
        s = self.loop.S0 if isinstance(self.pos, int) and self.pos == 0 else self.snap()
        sols = {k: v for k, v in now.items() if isinstance(v, Sol)}
        out.append(("ghost least", s["best"] <= st.cost(st.init)))
        for k, v in sols.items():
            r = I(v.ref)
            out.append((k + " is allocated", AND(r >= 0, r < I(s["next"]))))
            out.append((k + " is not the initial solution", r != 0))
            out.append((k + " is the best", st.cost(st.get(r, s["S"])) <= s["best"]))
            out.append((k + " is no worse than the initial one", st.cost(st.get(r, s["S"])) <= st.cost(st.init)))
            for k2, v2 in sols.items():
                if k < k2:
                    out.append(("%s and %s differ" % (k, k2), r != I(v2.ref)))
        for k, v in s["lists"].items():
            for i, x in enumerate(v):
                out.append(("%s[%d] is not negative" % (k, i), rcmp(">=", raw(x), 0)))
        return out


def begin(c, nd, nr):
    w = world()
    st = Store(c)
    A = w.get(AL).ALNS
    s0 = Sol(st, 0)
    a = A(s0)
    c.heap = st

    def cost(s):
        return wrap(st.cost(st.get(s.ref)))

    def complete(s):
        return wrap(st.done(st.get(s.ref)))

    def op(kind):
        def f(s, n):
            st.S = z3.Store(st.S, I(s.ref), c.int("contents"))
            if kind == "repair":
                new = st.cost(st.get(s.ref))
                st.best = z3.If(new < st.best, new, st.best)
                return None
            return s
        return f
    a.add_cost_function(cost)
    a.add_completeness_function(complete)
    a.add_destroy_functions([op("destroy") for _ in range(nd)])
    a.add_repair_functions([op("repair") for _ in range(nr)])

    def chosen(xs, ws):
        for x in ws:
            c.prove("selection probabilities are not negative", rcmp(">=", raw(x), 0))
    c.choices_hook = chosen
    return w, st, a, s0


def solve(nd, nr):
    def hh(c):
        w, st, a, s0 = begin(c, nd, nr)
        m, p, l = c.int("max_iter"), c.real("p"), c.real("l")
        c.assume(AND(p >= 0, p <= 1, l >= 0, l <= 1))
        c.loop_spec = Search(st, a)
        r = a.solve(wrap(m), wrap(p), wrap(l), wrap(c.int("remove")), wrap(c.int("add")))
        c.loop_spec = None
        c.cover("returned")
        if not c.holds("a solution is returned", isinstance(r, Sol)):
            return
        v = st.cost(st.get(r.ref))
        c.prove("no generated solution is better than the one returned", v <= st.best)
        c.prove("the solution returned is no worse than the initial one", v <= st.cost(st.init))
        c.prove("the initial solution is not modified", st.get(0) == st.init)
        c.holds("the initial solution stays the same one", a.initial_solution is s0)
    return hh


for nd, nr in ((4, 3), (1, 1), (2, 1)):
    unit("C25", "solve with %d removal and %d insertion operators" % (nd, nr), ["ALNS.solve", "ALNS._get_destroy_index", "ALNS._get_repair_index", "ALNS._get_probabilities", "ALNS._accept", "ALNS._update_destroy_weights", "ALNS._update_repair_weights"], bound="numbers of operators", timeout=500)(solve(nd, nr))


@unit("C25", "acceptance", ["ALNS._accept"])
def accept(c):
    w, st, a, s0 = begin(c, 1, 1)
    t, cur = Sol(st, 1), Sol(st, 2)
    T = c.real("T")
    before = st.freeze()
    r = a._accept(t, cur, wrap(T))
    c.cover("decided")
    v = raw(r)
    yes = z3.BoolVal(v) if isinstance(v, bool) else sym.to_bool(v)
    c.prove("an improving candidate is always accepted", z3.Implies(st.cost(st.get(1)) < st.cost(st.get(2)), yes))
    c.holds("deciding changes nothing", all(x.eq(y) for x, y in zip(before, st.freeze())))


def probabilities(n):
    def hh(c):
        w, st, a, s0 = begin(c, 1, 1)
        ws = [c.real("w") for _ in range(n)]
        for x in ws:
            c.assume(x >= 0)
        p = [raw(x) for x in a._get_probabilities([wrap(x) for x in ws])]
        c.cover("given")
        if c.holds("one for each operator", len(p) == n):
            t = 0
            for x in p:
                c.prove("probabilities are not negative", rcmp(">=", x, 0))
                t = radd(t, x)
            c.prove("probabilities sum to one", eq(t, 1))
    return hh


for n in range(1, 6):
    unit("C25", "probabilities of %d operators" % n, ["ALNS._get_probabilities"], bound="numbers of operators")(probabilities(n))
