from vc.ops_ import *


def sort_requests(method, what, down):
    def hh(c):
        w, h, hd = setup(c)
        h.assume_well_formed()
        c.assume_forall(h.N, lambda r: h.cd(I(r), h.num(r, h.get("vi", r))) >= 0)
        S = h.snapshot()
        i, j = c.int("i"), c.int("j")
        for k in (i, j):
            c.register_index(k, h.N)
        spec = Ops(h, lambda: None, lambda where: None, [(g, h.N) for g in h.g])
        spec.lists = True
        c.loop_spec = spec
        getattr(hd, method)()
        c.loop_spec = None
        c.cover("reached")
        now = h.snapshot()
        c.holds("nothing recorded in the requests changes", all(now[k].eq(S[k]) for k in list(ARRS) + ["ord", "ghost"]))
        c.prove("the recorded numbers are kept", AND(eq(now["n"], S["n"]), eq(now["N"], S["N"])))
        x = seq.as_seq(hd.requests)
        if not c.holds("the requests are kept", x is not None):
            return
        c.prove("the requests are kept: their number", eq(x.n, h.N))
        inr = AND(i >= 0, j >= 0, i < h.N, j < h.N)
        if not c.branch(inr):
            return
        a, b = x.get(i), x.get(j)
        if not c.holds("the requests are kept: nothing else is in the list", isinstance(a, Req) and isinstance(b, Req)):
            return
        c.prove("the requests are kept: known ones", z3.Implies(inr, AND(I(a.id) >= 0, I(a.id) < h.N)))
        c.prove("the requests are kept: each once", z3.Implies(AND(inr, i != j), I(a.id) != I(b.id)))
        g1, g2 = h.g
        f = lambda p, q: p >= q if down else p <= q
        c.prove("the requests are ordered by %s" % what, z3.Implies(AND(inr, i < j, I(a.id) == g1, I(b.id) == g2), f(keys(h, what, g1, S), keys(h, what, g2, S))))
    return hh


SORTS = [("sort_by_decreasing_priority", "priority", True), ("sort_by_decreasing_opportunity", "opportunity", True),
         ("sort_by_increasing_opportunity", "opportunity", False), ("sort_by_decreasing_conflict_degree", "conflict degree", True)]
for m, what, down in SORTS:
    unit("C22", m, ["RequestHandler." + m])(sort_requests(m, what, down))


def sort_windows(method, what):
    def hh(c):
        w, h, hd = setup(c)
        h.assume_well_formed()
        S0 = h.snapshot()
        g = h.g[0]
        x, y, gx, gy = (c.int(k) for k in ("x", "y", "gx", "gy"))
        if c.branch(AND(g >= 0, g < h.N)):
            for k in (x, y, gx, gy):
                c.register_index(k, h.L(g))
        key = (lambda r, num: h.cd(I(r), num)) if what == "conflict degree" else (lambda r, num: h.rise(I(r), num))

        def rules(r, S):
            """The recorded window stays the same one; nothing else changes."""
            return AND(h.unchanged(r, S0, ("sched", "hasw", "hass", "st", "hasd", "du"), S), h.well_formed(r, S),
                       z3.Implies(h.get("sched", r, S), h.num(r, h.get("vi", r, S), S) == h.num(r, h.get("vi", r, S0), S0)))

        def inv():
            S = dict(h.a)
            c.assume_forall(h.N, lambda r: rules(r, S))

        def check(where):
            h.goal("a request keeps its schedule and the window it is scheduled in" + where, lambda r: rules(r, h.a))
            h.check_count(where) if not where else None

        def ordered(S):
            inr = AND(g >= 0, g < h.N, *[AND(k >= 0, k < h.L(g)) for k in (x, y, gx, gy)])
            return z3.Implies(AND(inr, x < y, h.num(g, x, S) == h.num(g, gx, S0), h.num(g, y, S) == h.num(g, gy, S0)), key(g, h.num(g, x, S)) <= key(g, h.num(g, y, S)))

        class Spec(Ops):
            lists = True

            def iteration(self, k):
                if is_sym(self.loop.n) and self.loop.n.eq(h.N):
                    for p in (x, y, gx, gy):
                        c.register_index(p, h.L(k))

            def candidates(self, entry, now):
                n = getattr(self.loop, "n", None)
                if not (is_sym(n) and n.eq(h.N)):
                    return []
                S, pos = self.state(), self.pos
                T = dict(S)
                return [("later requests keep the order of their windows", Univ(h.N, lambda r: z3.Implies(I(r) >= I(pos), z3.Select(T["ord"], I(r)) == z3.Select(S0["ord"], I(r))), [g])),
                        ("windows of earlier requests are ordered", z3.Implies(AND(g >= 0, g < I(pos)), ordered(S)))]
        c.loop_spec = Spec(h, inv, check, [(gx, "windows"), (gy, "windows")])
        getattr(hd, method)()
        c.loop_spec = None
        c.cover("reached")
        check("")
        c.holds("the requests keep their order", hd.requests is S0["list"] and hd.requests.seq is S0["seq"])
        c.prove("the windows of every request are ordered by " + what, ordered(h.a))
    return hh


for m, what in (("sort_vtws_by_increasing_conflict_degree", "conflict degree"), ("sort_vtws_by_increasing_rise_time", "rise time")):
    unit("C22", m, ["RequestHandler." + m, "RequestHandler._reorder_vtws"])(sort_windows(m, what))


def wrecked(c, h, hd):
    """An arbitrary state in which the bookkeeping is exact."""
    h.assume_well_formed()
    return h.snapshot()


@unit("C22", "an empty set of requests", ["RequestHandler.__init__", "RequestHandler.__len__"])
def empty(c):
    w = world()
    hd = w.get(RH).RequestHandler()
    c.holds("no request, none scheduled", list(hd.requests) == [] and raw(hd.number_of_requests) == 0 and raw(hd.number_of_scheduled_requests) == 0 and len(hd) == 0)


@unit("C22", "add_request", ["RequestHandler.add_request"])
def add(c):
    w, h, hd = setup(c)
    S0 = wrecked(c, h, hd)
    data = [object() for _ in range(7)]
    hd.add_request(*data)
    c.cover("reached")
    x = seq.as_seq(hd.requests)
    S = h.snapshot()
    c.holds("nothing recorded in the requests changes", all(S[k].eq(S0[k]) for k in list(ARRS) + ["ord", "ghost"]))
    c.prove("one more request is recorded", eq(S["N"], h.N + 1))
    c.prove("none more is scheduled", eq(S["n"], h.count))
    if not c.holds("the requests are kept", x is not None):
        return
    c.prove("one request is added", eq(x.n, h.N + 1))
    k = c.int("k")
    c.assume(AND(k >= 0, k <= h.N))
    if c.branch(k < h.N):
        c.register_index(k, h.N)
        o = x.get(k)
        c.holds("the others keep their places", isinstance(o, Req))
        c.prove("the others keep their places", eq(o.id, k))
    else:
        o = list(x.get(h.N))
        f = [o[FIELDS.index(n)] for n in ("location", "deadline", "duration", "priority", "quality", "look_angle", "vtw_list")]
        c.holds("the new request has its data", len(o) == len(FIELDS) and all(a is b for a, b in zip(f, data)))
        c.holds("the new request is not scheduled", (o[0] is False or raw(o[0]) is False) and all(o[FIELDS.index(n)] is None for n in ("vtw_index", "scheduled_start_time", "scheduled_duration")))


def one(method):
    def hh(c):
        w, h, hd = setup(c)
        S0 = wrecked(c, h, hd)
        r = c.index(h.N, "request")
        if method == "schedule_request":
            v, s = c.int("v"), c.real("start")
            c.assume(AND(v >= 0, v < h.L(r), h.num(r, v) >= 0, h.num(r, v) < h.L(r)))
            hd.schedule_request(wrap(r), wrap(v), h.q(s), h.request(r)[FIELDS.index("duration")])
        else:
            getattr(hd, method)(wrap(r))
        c.cover("reached")
        h.written = []
        h.check_count("")
        h.check_well_formed("")
        c.prove("the number of requests is kept", eq(raw(hd.number_of_requests), h.N))
        c.holds("the requests are kept", hd.requests is S0["list"] and hd.requests.seq is S0["seq"] and h.a["ord"].eq(S0["ord"]))
        h.goal("the others are untouched", lambda x: z3.Implies(x != r, h.unchanged(x, S0)))
        if method == "schedule_request":
            c.prove("the request is scheduled as asked", AND(h.get("sched", r), h.get("vi", r) == v, h.get("st", r) == s, h.get("du", r) == h.dur(r)))
        else:
            c.prove("the request is not scheduled", NOT(h.get("sched", r)))
    return hh


for m in ("schedule_request", "unschedule_request"):
    unit("C22", m, ["RequestHandler." + m, "RequestHandler.is_request_scheduled"])(one(m))


@unit("C22", "unschedule_all_requests", ["RequestHandler.unschedule_all_requests"])
def unschedule_all(c):
    w, h, hd = setup(c)
    S0 = wrecked(c, h, hd)

    def inv():
        S = dict(h.a)
        h.assume_count()
        c.assume_forall(h.N, lambda r: h.well_formed(r, S))

    def check(where):
        h.check_count(where)
        h.check_well_formed(where)
    c.loop_spec = Removal(h, inv, check, S0, ())
    hd.unschedule_all_requests()
    c.loop_spec = None
    c.cover("reached")
    check("")
    c.prove("the number of requests is kept", eq(raw(hd.number_of_requests), h.N))
    c.holds("the requests are kept", hd.requests is S0["list"] and hd.requests.seq is S0["seq"] and h.a["ord"].eq(S0["ord"]))
    h.goal("no request is scheduled", lambda r: NOT(h.get("sched", r)))


@unit("C22", "what is recorded can be read", ["RequestHandler." + m for m in ("__len__", "__getitem__", "is_request_scheduled", "vtw_index", "start_time", "scheduled_duration", "deadline", "duration", "priority", "image_quality", "look_angle", "vtw_list")])
def read(c):
    w, h, hd = setup(c)
    h.assume_well_formed()
    r = c.index(h.N, "request")
    q = h.request(r)
    for m, f in (("is_request_scheduled", "is_scheduled"), ("vtw_index", "vtw_index"), ("start_time", "scheduled_start_time"), ("scheduled_duration", "scheduled_duration"), ("deadline", "deadline"),
                 ("duration", "duration"), ("priority", "priority"), ("image_quality", "quality"), ("look_angle", "look_angle")):
        a, b = getattr(hd, m)(wrap(r)), q[FIELDS.index(f)]
        t = lambda x: raw(x.data) if type(x).__name__ == "Quantity" else raw(x)
        if a is None or b is None:
            c.holds(m, a is None and b is None)
        else:
            c.prove(m, eq(t(a), t(b)))
    a = seq.as_seq(hd.vtw_list(wrap(r)))
    c.prove("vtw_list", eq(a.n, h.L(r)))
    c.holds("indexing", hd[wrap(r)] is q)
    c.prove("length", eq(raw(hd.__len__()), h.N))


for look in (False, True):
    unit("C22", "insert_first_n_requests%s" % (", look angles" if look else ""), ["insert_first_n_requests", "RequestHandler.schedule_request"])(run(("count",), look))
for name, what, mod in INSERTIONS:
    unit("C22", name, [name])(insertion("C22", name, what, mod))
for name, what in REMOVALS:
    unit("C22", name, [name])(removal(name, what))
unit("C22", "the first scheduled requests are removed", ["_remove_first_n_scheduled_requests"])(run_removal("_remove_first_n_scheduled_requests", True))
unit("C22", "random removal", ["random_removal"])(run_removal("random_removal", False))
