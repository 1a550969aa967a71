"""Overlap of windows and conflict degree (the sorts by it: as under C22)."""
from vc.c22 import sort_requests, sort_windows
from vc.remove_ import *
from vc import base


def overlap(h, a, b):
    """Length of the intersection of two intervals."""
    lo, hi = z3.If(a[0] >= b[0], a[0], b[0]), z3.If(a[1] <= b[1], a[1], b[1])
    return z3.If(hi - lo > 0, hi - lo, z3.RealVal(0))


def meets(a, b):
    return AND(a[0] <= b[1], b[0] <= a[1])


@unit("C28", "overlap of two windows", ["RequestHandler._julian_day_overlap_between_vtws", "RequestHandler._are_vtws_overlaping"])
def pair(c):
    w = world()
    u = w.get("celest.units")
    hd = w.get(RH).RequestHandler()
    V = w.get(WH).VisibleTimeWindow
    t = [(c.real("rise"), c.real("set")) for _ in range(2)]
    for a, b in t:
        c.assume(a <= b)
    v = [V(wrap(a), wrap(b), None) for a, b in t]
    x = core.to_real(raw(hd._julian_day_overlap_between_vtws(*v)))
    y = core.to_real(raw(hd._julian_day_overlap_between_vtws(*v[::-1])))
    c.cover("computed")
    c.prove("overlap is the length of the intersection", x == overlap(None, *t))
    c.prove("overlap is symmetric", x == y)
    c.prove("overlap is not negative", x >= 0)
    c.prove("overlap is at most either window's length", AND(x <= t[0][1] - t[0][0], x <= t[1][1] - t[1][0]))
    c.prove("disjoint windows do not overlap", z3.Implies(NOT(meets(*t)), x == 0))
    if hasattr(hd, "_are_vtws_overlaping"):
        b = raw(hd._are_vtws_overlaping(*v))
        b = z3.BoolVal(b) if isinstance(b, bool) else sym.to_bool(b)
        c.prove("windows meet where their intervals do", b == meets(*t))


class Bag(Ops):
    """Lists of windows: their length and the sum of the overlaps with the window at hand."""
    lists = own_lists = True

    def __init__(self, h, d):
        super().__init__(h, lambda: None, lambda where: None)
        self.d = d

    def _lists(self):
        return [(k, v) for k, v in sorted((self.env or {}).items()) if type(v) is SymList and v is not self.heap.handler.requests and not isinstance(v, Fixed)]

    def _changed(self):
        c = self.heap.c
        return c.stats.houdini.setdefault("lists:%s%s" % (c.label, self.loop.lid), set())

    def managed(self, obj, attr):
        return super().managed(obj, attr) or (attr is None and any(v is obj and k in self._changed() for k, v in self._lists()))

    def measure(self, s):
        """(length, sum of overlaps) of a sequence."""
        if hasattr(s, "bag"):
            return s.bag
        if getattr(s, "prev", None) is not None:
            n, t = self.measure(s.prev)
            gh = getattr(s.value, "ghost", None)
            if gh is None:
                raise Unsupported("a list of something else")
            return fold(z3.simplify(I(n) + 1)), t + self.d.ov(*gh)
        if not is_sym(s.n) and s.n == 0:
            return 0, z3.RealVal(0)
        raise Unsupported("a list of windows made otherwise")

    def check_heap(self, where):
        c = self.heap.c
        if where.startswith("holds"):
            self.loop.m0 = {k: self.measure(v.seq) for k, v in self._lists() if k in self._changed()}
        else:
            new = [k for k, v in self._lists() if v.seq is not self.loop.lseq.get(k) and k not in self._changed()]
            if new:
                self._changed().update(new)
                raise Restart()
        super().check_heap(where)

    def havoc_heap(self):
        h, c, d = self.heap, self.heap.c, self.d
        super().havoc_heap()
        for k, v in self._lists():
            if k in self._changed():
                m, R, U, G = c.int("length"), z3.Function(c.name("who"), INT, INT), z3.Function(c.name("which"), INT, INT), z3.Function(c.name("sum"), INT, REAL)
                c.assume(m >= 0)
                c.assume(G(0) == 0)
                c.assume_forall(m, lambda k, R=R, U=U, G=G: AND(R(I(k)) >= 0, R(I(k)) < h.N, U(I(k)) >= 0, U(I(k)) < h.L(R(I(k))), G(I(k) + 1) == G(I(k)) + d.ov(R(I(k)), U(I(k)))))
                s = SymSeq(m, lambda k, R=R, U=U: h.window(R(I(k)), U(I(k))))
                s.bag = (m, G(m))
                s.G = G
                v.seq = s
        self.loop.lseq = {k: v.seq for k, v in self._lists()}

    def candidates(self, entry, now):
        h, c, d, out = self.heap, self.heap.c, self.d, []
        n, pos = getattr(self.loop, "n", None), self.pos
        if not is_sym(n):
            return out
        pos = I(pos)
        start = self.entry()
        outer = n.eq(h.N)
        inner = n.num_args() == 1 and n.decl().eq(h.L)
        for k, v in self._lists():
            if k not in self._changed():
                continue
            m0, t0 = self.loop.m0[k]
            m, t = (m0, t0) if start else self.measure(v.seq)
            m, m0 = I(m), I(m0)
            if outer:
                out += [(k + " has all windows met", m == d.C2(pos)), (k + " overlaps in all", t == d.S2(pos)), (k + " has the window itself", z3.Implies(d.r0 < pos, m >= 1))]
            if inner:
                r = n.arg(0)
                out += [(k + " has all windows met", m == m0 + d.C1(r, pos)), (k + " overlaps in all", t == t0 + d.S1(r, pos)), (k + " only grows", m >= m0), (k + " has the window itself", z3.Implies(AND(r == d.r0, d.p0 < pos), m >= 1))]
        G = getattr(self.seq, "G", None)
        for k, v in now.items():
            r, e = raw(v), raw(entry.get(k))
            if r is None or e is None or isinstance(r, bool) or sym.kind(r) not in "if":
                continue
            r, e = core.to_real(r), core.to_real(e)
            if G is not None:
                out.append((k + " adds the overlaps", r == e + G(pos)))
            if outer:
                out += [(k + " adds all overlaps", r == e + d.S2(pos)), (k + " counts all windows met", r == e + z3.ToReal(d.C2(pos))), (k + " counts the window itself", z3.Implies(d.r0 < pos, r >= e + 1))]
            if inner:
                w = n.arg(0)
                out += [(k + " adds all overlaps", r == e + d.S1(w, pos)), (k + " counts all windows met", r == e + z3.ToReal(d.C1(w, pos))), (k + " counts the window itself", z3.Implies(AND(w == d.r0, d.p0 < pos), r >= e + 1))]
        return out


class Degree:
    def __init__(self, c, h):
        self.h = h
        f = lambda n, *s: z3.Function(c.name(n), *s)
        self.C1, self.S1 = f("met_of", INT, INT, INT), f("overlap_of", INT, INT, REAL)
        self.C2, self.S2 = f("met", INT, INT), f("overlaps", INT, REAL)
        self.r0, self.p0 = c.int("r0"), c.int("p0")
        c.register_index(self.r0, h.N)
        c.register_index(self.p0, h.L(self.r0))
        self.num0 = c.int("num0")
        h.obj(("any", 0), lambda: None)
        c.assume(AND(self.r0 >= 0, self.r0 < h.N, self.p0 >= 0, self.p0 < h.L(self.r0), h.num(self.r0, self.p0) == self.num0))
        self.win = h.window(self.r0, self.num0)
        c.assume(AND(self.C2(0) == 0, self.S2(0) == 0))
        ord_ = {"ord": h.a["ord"]}

        def outer(r):
            r = I(r)
            c.assume(AND(self.C1(r, 0) == 0, self.S1(r, 0) == 0))
            n = h.L(r)

            def inner(p):
                p = I(p)
                num = h.num(r, p, ord_)
                yes = meets(self.me(), self.iv(r, num))
                return AND(self.C1(r, p + 1) == self.C1(r, p) + z3.If(yes, 1, 0), self.S1(r, p + 1) == self.S1(r, p) + z3.If(yes, self.ov(r, num), z3.RealVal(0)))
            c.assume_forall(n, inner)
            return AND(self.C2(r + 1) == self.C2(r) + self.C1(r, n), self.S2(r + 1) == self.S2(r) + self.S1(r, n))
        c.assume_forall(h.N, outer)

    def iv(self, r, num):
        return self.h.rise(I(r), I(num)), self.h.set(I(r), I(num))

    def me(self):
        return self.iv(self.r0, self.num0)

    def ov(self, r, num):
        return overlap(self.h, self.me(), self.iv(r, num))


@unit("C28", "conflict degree", ["RequestHandler._conflict_degree", "RequestHandler._set_of_overlapping_vtws", "RequestHandler._are_vtws_overlaping", "RequestHandler._julian_day_overlap_between_vtws"])
def degree(c):
    w = world()
    h = Heap(c, w)
    hd = h.make_handler()
    h.assume_well_formed()
    d = Degree(c, h)
    S = h.snapshot()
    c.loop_spec = Bag(h, d)
    v = hd._conflict_degree(d.win)
    c.loop_spec = None
    c.cover("computed")
    v = core.to_real(raw(v))
    c.prove("the conflict degree is the mean overlap with all windows of all requests it meets", AND(v * z3.ToReal(d.C2(h.N)) == d.S2(h.N), d.C2(h.N) >= 1))
    c.prove("the conflict degree is not negative", v >= 0)
    c.holds("nothing changes", h.same(S))


unit("C28", "requests are sorted by decreasing conflict degree", ["RequestHandler.sort_by_decreasing_conflict_degree"])(sort_requests("sort_by_decreasing_conflict_degree", "conflict degree", True))
unit("C28", "windows are sorted by increasing conflict degree", ["RequestHandler.sort_vtws_by_increasing_conflict_degree"])(sort_windows("sort_vtws_by_increasing_conflict_degree", "conflict degree"))
