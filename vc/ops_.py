"""The operators of the search as compositions: sorts (C22), insert_first_n_requests (C21, C24) and
_remove_first_n_scheduled_requests (C23) by contract; the recorded requests are identified by their place before the call."""
from vc.remove_ import *

TIMES = ("sched", "hasw", "hass", "st", "hasd", "du")
SORTED = {"sort_by_decreasing_priority": ("priority", True), "sort_by_decreasing_opportunity": ("opportunity", True),
          "sort_by_increasing_opportunity": ("opportunity", False), "sort_by_decreasing_conflict_degree": ("conflict degree", True)}
WINDOWS = {"sort_vtws_by_increasing_conflict_degree": "conflict degree", "sort_vtws_by_increasing_rise_time": "rise time"}


def keys(h, what, r, S=None):
    r = I(r)
    if what == "priority":
        return h.prio(r)
    if what == "opportunity":
        return z3.ToReal(h.L(r))
    return z3.If(h.get("sched", r, S), h.cd(r, h.num(r, h.get("vi", r, S), S)), z3.RealVal(-1))


def kept(h, r, S0, S=None):
    """Same schedule, in the same window (its place in the list may have changed)."""
    return AND(h.unchanged(r, S0, TIMES, S), z3.Implies(h.get("sched", r, S), h.num(r, h.get("vi", r, S), S) == h.num(r, h.get("vi", r, S0), S0)))


class Steps:
    """The state of a composed operator and the contracts of its steps."""

    def __init__(self, c, look=True):
        self.c = c
        self.box = []
        o = dict(contracts(self.box))
        self.log = []
        for m in SORTED:
            o[RH + ":RequestHandler." + m] = lambda real, m=m: (lambda hd: self.sort(hd, m))
        for m in WINDOWS:
            o[RH + ":RequestHandler." + m] = lambda real, m=m: (lambda hd: self.sort_windows(hd, m))
        o[REM + ":_remove_first_n_scheduled_requests"] = lambda real: (lambda request_handler, number_to_remove: self.remove(request_handler, number_to_remove))
        o[INS + ":insert_first_n_requests"] = lambda real: (lambda request_handler, number_to_insert: self.insert(request_handler, number_to_insert))
        self.w = world(**o)
        self.h = h = Heap(c, self.w, look=look)
        h.cd = z3.Function(c.name("conflict_degree"), INT, INT, REAL)
        self.box.append(h)
        self.hd = h.make_handler()
        self.place = lambda r: I(r)
        c.register_index(h.gw, h.L(h.g[0]))
        h.assume_feasible()
        self.S0 = h.snapshot()

    def arrays(self, ks):
        h, c = self.h, self.c
        for k in ks:
            h.a[k] = z3.Array(c.name(k), INT, ARRS[k] if k in ARRS else z3.ArraySort(INT, INT))
        h.written = []

    def pre(self, hd, where):
        h, c = self.h, self.c
        if hd is not self.hd:
            c.fail("operators work on the set of requests they are given", where)
            raise PathEnd()
        h.check_count(" (%s)" % where)
        h.check_well_formed(" (%s)" % where)

    def sort(self, hd, m):
        h, c = self.h, self.c
        self.pre(hd, "before sorting")
        what, down = SORTED[m]
        V = z3.Function(c.name("place"), INT, INT)
        P = z3.Function(c.name("request"), INT, INT)
        a, b = h.g
        self.place = lambda r: V(I(r))
        f = lambda p, q: p >= q if down else p <= q
        for x, y in ((a, b), (b, a)):
            c.assume(z3.Implies(AND(a >= 0, b >= 0, a < h.N, b < h.N, V(x) < V(y)), f(keys(h, what, x), keys(h, what, y))))
        c.assume(z3.Implies(V(a) == V(b), a == b))
        hd.requests = SymList(SymSeq(h.N, lambda k: h.request(P(I(k)))))
        c.assume_forall(h.N, lambda k: AND(P(I(k)) >= 0, P(I(k)) < h.N))
        self.sorted = what, down
        self.log.append("sort")

    def sort_windows(self, hd, m):
        h, c = self.h, self.c
        self.pre(hd, "before sorting windows")
        S = dict(h.a)
        self.arrays(["vi", "ord"])
        T = dict(h.a)
        c.assume_forall(h.N, lambda r: AND(kept(h, r, S, T), h.well_formed(r, T)))
        self.log.append("windows by " + WINDOWS[m])
        self.windows = WINDOWS[m]

    def remove(self, hd, n):
        h, c = self.h, self.c
        self.pre(hd, "before removal")
        n = raw(n)
        c.prove("the number to remove is not negative", rcmp(">=", n, 0))
        S = h.snapshot()
        self.arrays([k for k in ARRS])
        h.card(c.int("count"))
        hd.number_of_scheduled_requests = wrap(h.count)
        T = dict(h.a)
        c.assume_forall(h.N, lambda r: AND(h.well_formed(r, T), z3.Or(h.unchanged(r, S, T=T), AND(h.get("sched", r, S), *[NOT(h.get(k, r, T)) for k in ("sched", "hasw", "hass", "hasd")]))))
        s = S["ghost"]
        c.assume(h.count == z3.If(s - I(n) > 0, s - I(n), 0))
        a, b = h.g
        for x, y in ((a, b), (b, a)):
            c.assume(z3.Implies(AND(a >= 0, b >= 0, a < h.N, b < h.N, h.get("sched", x, S), NOT(h.get("sched", x)), h.get("sched", y)), self.place(x) < self.place(y)))
        self.log.append("remove")
        return hd

    def insert(self, hd, n):
        h, c = self.h, self.c
        self.pre(hd, "before insertion")
        h.check_feasible(" (before insertion)")
        n = raw(n)
        c.prove("the number to insert is not negative", rcmp(">=", n, 0))
        S = h.snapshot()
        self.arrays([k for k in ARRS])
        h.card(c.int("count"))
        hd.number_of_scheduled_requests = wrap(h.count)
        T = dict(h.a)
        h.assume_feasible()
        c.assume_forall(h.N, lambda r: z3.Implies(h.get("sched", r, S), h.unchanged(r, S, T=T)))
        c.assume(AND(h.count >= S["ghost"], h.count - S["ghost"] <= I(n)))
        g = h.g[0]
        self.q = c.int("conflicting")
        c.register_index(self.q, h.N)
        c.assume(z3.Implies(AND(g >= 0, g < h.N, h.gw >= 0, h.gw < h.L(g), NOT(h.get("sched", g))), z3.Or(h.count - S["ghost"] == I(n), no_use(h, g, h.gw, [self.q], T))))
        self.log.append("insert")

    def counted(self):
        h, c = self.h, self.c
        h.written = []
        c.prove("the recorded number of requests is kept", eq(raw(self.hd.number_of_requests), h.N))
        h.check_count("")
        h.check_well_formed("")


def removal(name, what):
    def hh(c):
        s = Steps(c)
        h, hd, S0 = s.h, s.hd, s.S0
        n = c.int("n")
        c.assume(n >= 0)
        r = getattr(s.w.get(REM), name)(hd, wrap(n))
        c.cover("reached")
        s.counted()
        k = S0["ghost"]
        c.prove("exactly max(s - n, 0) requests stay scheduled", h.count == z3.If(k - n > 0, k - n, 0))
        c.holds("the set of requests is returned or changed in place", r is hd or r is None)
        h.goal("the others are untouched", lambda x: z3.Implies(h.get("sched", x), AND(h.get("sched", x, S0), kept(h, x, S0))))
        a, b = h.g
        c.prove("those first in the order by %s are removed" % what, z3.Implies(AND(a >= 0, b >= 0, a < h.N, b < h.N, h.get("sched", a, S0), NOT(h.get("sched", a)), h.get("sched", b)), keys(h, what, a, S0) >= keys(h, what, b, S0)))
    return hh


REMOVALS = [("priority_removal", "priority"), ("opportunity_removal", "opportunity"), ("conflict_removal", "conflict degree")]
INSERTIONS = [("greedy_insertion", "priority", INS), ("minimum_opportunity_insertion", "opportunity", INS), ("minimum_conflict_insertion", None, INS), ("initialize_solution", "priority", SU)]


def insertion(pid, name, what, mod):
    def hh(c):
        s = Steps(c)
        h, hd, S0 = s.h, s.hd, s.S0
        n = c.int("n")
        c.assume(n >= 0)
        if name == "initialize_solution":
            c.assume(n == h.N)
            s.w.get(mod).initialize_solution(hd)
        else:
            getattr(s.w.get(mod), name)(hd, wrap(n))
        c.cover("reached")
        s.counted()
        if pid == "C21":
            h.check_feasible("")
        if pid == "C24":
            c.prove("at most n requests are added", AND(h.count - S0["ghost"] <= n, h.count >= S0["ghost"]))
            h.goal("no scheduled request is moved or unscheduled", lambda r: z3.Implies(h.get("sched", r, S0), kept(h, r, S0)))
            g = h.g[0]
            c.prove("a request stays unscheduled only if n were added or no window offers a usable start",
                    z3.Implies(AND(g >= 0, g < h.N, h.gw >= 0, h.gw < h.L(g), NOT(h.get("sched", g))), z3.Or(h.count - S0["ghost"] == n, no_use(h, g, h.gw, [s.q] if hasattr(s, "q") else []))))
    return hh


def feasible_removal(name):
    """A removal keeps the schedule feasible; random_removal by the contract discharged under C23."""
    def hh(c):
        s = Steps(c)
        h = s.h
        n = c.int("n")
        c.assume(n >= 0)
        if name == "random_removal":
            s.remove(s.hd, wrap(n))
        else:
            getattr(s.w.get(REM), name)(s.hd, wrap(n))
        c.cover("reached")
        s.counted()
        h.check_feasible("")
    return hh
