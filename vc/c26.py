"""Cost, completeness and iteration for request sets of arbitrary size."""
from vc.sl import *


def total(c, h, S):
    """P(k): the sum of the priorities of the scheduled requests among the first k."""
    P = z3.Function(c.name("total"), INT, REAL)
    c.assume(P(0) == 0)
    q = lambda r: z3.If(h.get("sched", r, S), h.prio(I(r)), z3.RealVal(0))
    c.assume_forall(h.N, lambda r: P(I(r) + 1) == P(I(r)) + q(r))
    return P, q


class Sums(Ops):
    def __init__(self, h, S, P):
        super().__init__(h, lambda: None, lambda where: None, [(h.g[0], h.N)])
        self.S, self.P = S, P

    def candidates(self, entry, now):
        h, out = self.heap, []
        n, pos = getattr(self.loop, "n", None), self.pos
        if not (is_sym(n) and n.eq(h.N)):
            return out
        for k, v in now.items():
            r, e = raw(v), raw(entry.get(k))
            if r is None or e is None or isinstance(r, bool) or sym.kind(r) not in "if":
                continue
            r, e, p = core.to_real(r), core.to_real(e), self.P(I(pos))
            out.append((k + " falls by the priorities", r == e - p))
            out.append((k + " rises by the priorities", r == e + p))
            cnt = h.c.ghost.get("rank")
        return out


def sums(c, h, P, q):
    """sum(): of the priorities of the scheduled requests, or of their negatives, or unknown."""
    def hook(s, start):
        origin = getattr(s, "origin", None)
        k = c.index(h.N, "k") if c.branch(h.N > 0) else None
        r = c.real("sum")
        if k is None:
            c.assume(r == 0)
            return start + wrap(r)
        if origin is not None:
            s0, f, mask = origin
            n = s0.n
            t = lambda: z3.If(sym.to_bool(mask(k)) if not isinstance(mask(k), bool) else z3.BoolVal(mask(k)), core.to_real(raw(f(s0.get(k)))), z3.RealVal(0))
        else:
            n, t = s.n, lambda: core.to_real(raw(s.get(k)))
        if not (is_sym(n) and n.eq(h.N)):
            raise Unsupported("another sum")
        v = t()
        for g, val in ((q(k), P(h.N)), (-q(k), -P(h.N))):
            if c.try_prove(v == g):
                c.assume(r == val)
                return start + wrap(r)
        raise Unsupported("another sum")
    return hook


def begin(c):
    w = world()
    h = Heap(c, w)
    h.full = True
    h.card(h.count)
    hd = h.make_handler()
    h.assume_well_formed()
    S = h.snapshot()
    P, q = total(c, h, S)
    c.register_index(fold(z3.simplify(h.N - 1)), h.N)
    c.loop_spec = Sums(h, S, P)
    c.sum_hook = sums(c, h, P, q)
    return w, h, hd, S, P


@unit("C26", "cost", ["cost"])
def cost(c):
    w, h, hd, S, P = begin(c)
    v = w.get(SU).cost(hd)
    c.loop_spec = None
    c.cover("reached")
    c.prove("the cost is minus the sum of the priorities of the scheduled requests", eq(raw(v), -P(h.N)))
    c.holds("the set is unchanged", h.same(S))


@unit("C26", "is_complete", ["is_complete"])
def complete(c):
    w, h, hd, S, P = begin(c)
    v = w.get(SU).is_complete(hd)
    c.loop_spec = None
    c.cover("reached")
    g = h.g[0]
    inr = AND(g >= 0, g < h.N)
    if c.branch(sym.to_bool(raw(v)) if not isinstance(raw(v), bool) else z3.BoolVal(raw(v))):
        c.prove("a complete set has every request scheduled", z3.Implies(inr, h.get("sched", g)))
    else:
        c.prove("an incomplete set has an unscheduled request", z3.Or(*[AND(i >= 0, i < h.N, NOT(h.get("sched", i))) for i, m in c.indices if is_sym(m) and m.eq(h.N)]))
    c.holds("the set is unchanged", h.same(S))


@unit("C26", "iteration", ["RequestHandler.__iter__", "RequestHandler.__getitem__", "RequestHandler.__len__"])
def iteration(c):
    w, h, hd, S, P = begin(c)
    before = dict(vars(hd))
    seqs = []
    k = c.int("k")
    c.assume(AND(k >= 0, k < h.N))
    for _ in range(2):
        it = type(hd).__iter__(hd)
        c.holds("an iteration is a new one", it is not hd and all(it is not x for x in seqs))
        seqs.append(it)
        s = seq.as_seq(it)
        c.prove("every request is visited", eq(s.n, h.N))
        o = s.get(k)
        if c.holds("requests are visited", isinstance(o, Req)):
            c.prove("requests are visited in order", eq(o.id, k))
    now = dict(vars(hd))
    c.holds("iterating changes nothing", now.keys() == before.keys() and all(now[x] is before[x] for x in now) and h.same(S))
    c.prove("length", eq(raw(hd.__len__()), h.N))
    o = hd[wrap(k)]
    c.holds("indexing", isinstance(o, Req) and (o.id is k or c.implied(I(o.id) == k)))
