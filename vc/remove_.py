"""Removal operators: shared by C22 and C23."""
from vc.insert_ import *


def mentions(t, f):
    """Does the term apply f?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().eq(f):
                return True
            todo.extend(x.children())
    return False


class Removal(Ops):
    """Invariants: what has been removed is counted by some local; requests before some local are unscheduled, those from it on
    untouched; a local list holds every scheduled request."""

    def __init__(self, heap, inv, check, S0, goals):
        super().__init__(heap, inv, check, [(heap.g[0], heap.N)])
        self.S_, self.goals, self.tracked = S0, goals, []

    # a list of candidate places
    def _lists(self):
        return [(k, v) for k, v in sorted((self.env or {}).items()) if type(v) is SymList and v is not self.heap.handler.requests]

    def _changed(self):
        c = self.heap.c
        return c.stats.houdini.setdefault("lists:%s%s" % (c.label, self.loop.lid), set())

    def managed(self, obj, attr):
        return super().managed(obj, attr) or (attr is None and any(v is obj and k in self._changed() for k, v in self._lists()))

    def holds_all(self, lst, places, S):
        """Every scheduled request is in the list."""
        h, g = self.heap, self.heap.g[0]
        opts = []
        for p in places:
            p = I(p)
            inr = AND(p >= 0, p < I(lst.seq.n))
            with h.c.guarded(inr):
                v = raw(lst.seq.get(p))
            opts.append(AND(inr, I(v) == g))
        return z3.Implies(AND(g >= 0, g < h.N, h.get("sched", g, S)), z3.Or(*opts))

    def check_heap(self, where):
        h, c = self.heap, self.heap.c
        if not where.startswith("holds"):
            new = [k for k, v in self._lists() if v.seq is not self.loop.lseq.get(k) and k not in self._changed()]
            if new:
                self._changed().update(new)
                raise Restart()
        super().check_heap(where)
        for k, v in self._lists():
            if k in self._changed():
                W = getattr(self.loop, "W", {}).get(k)
                g = h.g[0]
                places = [g, g - 1] if where.startswith("holds") else [W(g), W(g) - 1]
                c.prove("every scheduled request can be chosen for removal", self.holds_all(v, places, h.a))
                p = c.int("place")
                c.register_index(p, v.seq.n)
                if not where.startswith("holds"):
                    c.register_index(p, self.loop.m[k])
                    c.register_index(fold(z3.simplify(p + 1)), self.loop.m[k])
                inr = AND(p >= 0, p < I(v.seq.n))
                with c.guarded(inr):
                    t = I(raw(v.seq.get(p)))
                c.prove("only requests are chosen for removal", z3.Implies(inr, AND(t >= 0, t < h.N)))

    def havoc_heap(self):
        h, c = self.heap, self.heap.c
        super().havoc_heap()
        self.loop.W, self.loop.m = {}, {}
        for k, v in self._lists():
            if k in self._changed():
                m, U, W = c.int("candidates"), z3.Function(c.name("candidate"), INT, INT), z3.Function(c.name("where"), INT, INT)
                c.assume(m >= 0)
                S = dict(h.a)
                self.loop.W[k], self.loop.m[k] = W, m

                def fact(r, W=W, U=U, m=m):
                    p = W(I(r))
                    c.register_index(p, m)
                    return z3.Implies(h.get("sched", r, S), AND(p >= 0, p < m, U(p) == I(r)))
                c.assume_forall(h.N, fact)

                def inside(p, U=U):
                    return AND(U(I(p)) >= 0, U(I(p)) < h.N)
                c.assume_forall(m, inside)

                def get(p, U=U, m=m, W=W):
                    if not mentions(I(p), W):
                        c.register_index(U(I(p)), h.N)
                    return wrap(U(I(p)))
                v.seq = SymSeq(m, get)
        self.loop.lseq = {k: v.seq for k, v in self._lists()}

    def candidates(self, entry, now):
        h, c = self.heap, self.heap.c
        out = []
        S, S0 = self.state(), self.loop.S0
        T = {k: S[k] for k in h.a}
        cnt = S["ghost"] if self.entry() else h.count
        for k, v in now.items():
            r, e = raw(v), raw(entry.get(k))
            if r is None or isinstance(r, bool) or sym.kind(r) != "i":
                continue
            r = I(r)
            c.register_index(r, h.N)
            if e is not None and sym.kind(e) == "i":
                out.append(("%s counts removals" % k, r - cnt == I(e) - S0["ghost"]))
                out.append(("%s counts removals up" % k, r + cnt == I(e) + S0["ghost"]))
            out.append(("requests before %s are unscheduled" % k, Univ(h.N, lambda x, r=r: z3.Implies(I(x) < r, NOT(h.get("sched", x, T))), [h.g[0]])))
            out.append(("requests from %s on are untouched" % k, Univ(h.N, lambda x, r=r: z3.Implies(I(x) >= r, h.unchanged(x, self.S_, T=T)), h.g)))
            out.append(("requests removed lie before %s" % k, Univ(h.N, lambda x, r=r: z3.Implies(AND(h.get("sched", x, self.S_), NOT(h.get("sched", x, T))), I(x) < r), h.g)))
        ints = [(k, raw(v)) for k, v in sorted(now.items()) if raw(v) is not None and not isinstance(raw(v), bool) and sym.kind(raw(v)) == "i"]
        for a, x in ints:
            out.extend(("%s is at most %s" % (a, b), rcmp("<=", x, y)) for b, y in ints if a != b and (is_sym(x) or is_sym(y)))
        if is_sym(getattr(self.loop, "n", None)) and self.pos is not None:
            pos = self.pos
            out.append(("earlier requests are unscheduled", Univ(h.N, lambda x: z3.Implies(I(x) < I(pos), NOT(h.get("sched", x, T))), [h.g[0]])))
            out.append(("later requests are untouched", Univ(h.N, lambda x: z3.Implies(I(x) >= I(pos), h.unchanged(x, self.S_, T=T)), h.g)))
            out.extend(self.by_place())
            out.append(("earlier requests only are removed", Univ(h.N, lambda x: z3.Implies(AND(h.get("sched", x, self.S_), NOT(h.get("sched", x, T))), I(x) < I(pos)), h.g)))
        return out

    def by_place(self):
        """The loop runs over places of requests: one request is removed by each iteration, those still to come are untouched."""
        h, c, pos, n = self.heap, self.heap.c, I(self.pos), I(self.loop.n)
        if not self.loop.seq:
            return []
        k = c.int("later")
        c.register_index(k, self.loop.n)
        inr = AND(k >= pos, k < n)

        def place(j):
            v = raw(self.loop.seq.get(j))
            return I(v) if v is not None and not isinstance(v, bool) and sym.kind(v) == "i" else None
        with c.guarded(AND(pos < n, inr)):
            if place(k) is None:
                return []
        S, S0 = self.state(), self.loop.S0
        T = {x: S[x] for x in h.a}
        cnt = S["ghost"] if self.entry() else h.count

        def fact(j):
            with c.guarded(AND(I(j) >= 0, I(j) < n)):
                r = place(j)
            return z3.Implies(I(j) >= pos, h.unchanged(r, self.S_, T=T))
        return [("places still to come are untouched", Univ(n, fact, [k])), ("each iteration removes one", cnt + pos == I(S0["ghost"]))]

    def variants(self, before, after):
        h = self.heap
        opts = []
        for k, v in after.items():
            r, e = raw(v), raw(before.get(k))
            if r is None or e is None or isinstance(r, bool) or sym.kind(r) != "i":
                continue
            opts.append(AND(I(r) > I(e), I(e) < h.N))
            opts.append(AND(I(r) < I(e), I(e) > 0))
        for k, v in self._lists():
            if k in self._changed():
                opts.append(AND(I(v.seq.n) < self.loop.m[k], self.loop.m[k] > 0))
        return "the removal terminates", opts


def run_removal(name, ordered):
    def hh(c):
        w, h, hd = setup(c)
        h.assume_well_formed()
        S0 = h.snapshot()
        n = c.int("n")
        c.assume(n >= 0)

        def rule(r, S):
            return z3.Or(h.unchanged(r, S0, T=S), AND(h.get("sched", r, S0), *[NOT(h.get(k, r, S)) for k in ("sched", "hasw", "hass", "hasd")]))

        def inv():
            S = dict(h.a)
            h.assume_count()
            c.assume_forall(h.N, lambda r: AND(rule(r, S), h.well_formed(r, S)))
            c.assume(h.count <= S0["ghost"])

        def check(where):
            h.check_count(where)
            h.goal("a request is either left untouched or unscheduled with nothing recorded" + where, lambda r: AND(rule(r, h.a), h.well_formed(r)))
            c.prove("removal schedules nothing" + where, h.count <= S0["ghost"])
        spec = Removal(h, inv, check, S0, ())
        c.loop_spec = spec
        r = getattr(w.get(REM), name)(hd, wrap(n))
        c.loop_spec = None
        c.cover("reached")
        check("")
        s = S0["ghost"]
        c.prove("exactly max(s - n, 0) requests stay scheduled", h.count == z3.If(s - n > 0, s - n, 0))
        c.holds("the requests are returned in place", (r is hd or r is None) and hd.requests is S0["list"] and hd.requests.seq is S0["seq"])
        if ordered:
            a, b = h.g
            c.prove("the first ones in order are removed", z3.Implies(AND(a >= 0, b >= 0, a < h.N, b < h.N, h.get("sched", a, S0), NOT(h.get("sched", a)), h.get("sched", b)), a < b))
    return hh


def setup(c, extra=None, **kw):
    box = []
    o = dict(contracts(box))
    cd = z3.Function(c.name("conflict_degree"), INT, INT, REAL)

    def degree(real):
        def _conflict_degree(self, vtw):
            r, num = vtw.ghost
            return wrap(cd(I(r), I(num)))
        return _conflict_degree
    o[RH + ":RequestHandler._conflict_degree"] = degree
    o.update(extra or {})
    w = world(**o)
    h = Heap(c, w, **kw)
    box.append(h)
    h.cd = cd
    c.sort_hook = sorting(c)
    return w, h, h.make_handler()
