"""insert_first_n_requests: shared by C21 (feasibility), C22 (bookkeeping) and C24 (what is inserted)."""
from vc.sl import *


def contracts(box):
    """image_quality (C30) and _look_angle_time (C29) by contract."""
    def iq(real):
        def image_quality(vtw, start):
            h = box[0]
            t = lambda x: core.to_real(rdiv(rmul(raw(x.data), size_of(x.unit)), size_of(h.u.jd2000)))
            return wrap(h.iq(t(vtw.rise_time), t(vtw.set_time), t(start)))
        return image_quality

    def la(real):
        def _look_angle_time(look_angle, desired_look_angle, julian, start, end):
            h = box[0]
            t = lambda x: core.to_real(rdiv(rmul(raw(x.data), size_of(x.unit)), size_of(h.u.jd2000)))
            what, r, num = look_angle.ghost
            D = core.to_real(rdiv(rmul(raw(desired_look_angle.data), size_of(desired_look_angle.unit)), size_of(h.u.deg)))
            ok = what == "pitch" and julian.ghost == ("time", r, num) and h.c.implied(AND(D == h.lang(I(r)), t(start) == h.rise(I(r), I(num)), t(end) == h.set(I(r), I(num))))
            none, val = (h.lan(I(r), I(num)), h.lat(I(r), I(num))) if ok else (h.c.bool("none"), h.c.real("time"))
            if h.c.branch(none):
                return None
            return h.q(val)
        return _look_angle_time
    return {INS + ":image_quality": iq, INS + ":_look_angle_time": la}


def offered(h, r, num):
    """(is there a start, the start) that a window offers."""
    r, num = I(r), I(num)
    mid = (h.rise(r, num) + h.set(r, num) - h.days(h.dur(r))) / 2
    if not h.look:
        return z3.BoolVal(True), mid
    return z3.Not(AND(h.hasl(r), h.lan(r, num))), z3.If(h.hasl(r), h.lat(r, num), mid)


def conflict(h, r, s, q, S=None):
    return AND(h.get("sched", q, S), s < h.end(q, S), h.get("st", q, S) < s + h.days(h.dur(I(r))))


def no_use(h, r, p, qs, S=None):
    """The window at place p of request r offers no usable start; a conflict is with one of qs."""
    num = h.num(r, p, S)
    has, s = offered(h, r, num)
    e = s + h.days(h.dur(I(r)))
    r = I(r)
    return z3.Or(NOT(has), NOT(h.rise(r, num) < s), NOT(e < h.set(r, num)), NOT(e < h.deadline(r)),
                 NOT(h.iq(h.rise(r, num), h.set(r, num), s) >= h.qual(r)), *[AND(I(q) >= 0, I(q) < h.N, conflict(h, r, s, q, S)) for q in qs])


def run(goals, look):
    def hh(c):
        box = []
        w = world(**contracts(box))
        h = Heap(c, w, look=look)
        box.append(h)
        hd = h.make_handler()
        h.assume_feasible()
        S0 = dict(h.a)
        n0 = h.count
        n = c.int("n")
        c.assume(n >= 0)
        pos = lambda: h.handler.requests

        def state_inv():
            h.assume_count()
            h.assume_feasible()
            S = dict(h.a)
            c.assume_forall(h.N, lambda r: z3.Implies(h.get("sched", r, S0), h.unchanged(r, S0, T=S)))
            c.assume(h.count >= n0)

        def state_check(where):
            if "count" in goals:
                h.check_count(where)
            else:
                c.lemma("number", eq(raw(hd.number_of_scheduled_requests), h.count)) if False else None
            h.check_well_formed(where) if "count" in goals else None
            if "feasible" in goals:
                h.check_feasible(where)
            if "frame" in goals:
                h.goal("no scheduled request is moved or unscheduled" + where, lambda r: z3.Implies(h.get("sched", r, S0), h.unchanged(r, S0)))
                c.prove("the number scheduled does not decrease" + where, h.count >= n0)

        spec = InsertSpec(h, state_inv, state_check, goals)
        c.loop_spec = spec
        if "frame" in goals:
            c.register_index(h.gw, h.L(h.g[0]))
        f = w.get(INS).insert_first_n_requests
        f(hd, wrap(n))
        c.loop_spec = None
        c.cover("reached")
        state_check("")
        if "frame" in goals:
            c.prove("at most n requests are added", h.count - n0 <= n)
            g = h.g[0]
            qs = spec.witnesses()
            c.prove("a request stays unscheduled only if n were added or no window offers a usable start",
                    z3.Implies(AND(g >= 0, g < h.N, h.gw >= 0, h.gw < h.L(g), NOT(h.get("sched", g))), z3.Or(h.count - n0 == n, no_use(h, g, h.gw, qs))))
    return hh


class InsertSpec(Ops):
    peel = 0
    def __init__(self, heap, inv, check, goals):
        super().__init__(heap, inv, check, [(heap.g[0], heap.N)])
        self.goals = goals
        self.h = heap

    def witnesses(self):
        n = self.h.N
        return [i for i, m in self.h.c.indices if is_sym(m) and m.eq(n)]

    def candidates(self, entry, now):
        h, c = self.h, self.h.c
        out = []
        S0 = getattr(self.loop, "S0", None)
        n0 = S0["ghost"] if S0 else h.count
        if "frame" not in self.goals:
            return out
        for k, v in now.items():
            r, e = raw(v), raw(entry.get(k))
            if r is None or e is None or sym.kind(r) != "i" or sym.kind(e) != "i" or isinstance(r, bool):
                continue
            cnt = n0 if now is entry or (not is_sym(self.pos) and self.pos == 0) else h.count
            out.append(("%s counts insertions" % k, I(r) + cnt == I(e) + n0))
        n = getattr(self.loop, "n", None)
        S = dict(h.a)

        def earlier(key, pos):
            """Unscheduled requests before pos cannot be scheduled."""
            wits = self.loop.__dict__.setdefault("wits", {})
            wit = wits.setdefault(key, z3.Function(c.name("wit"), INT, INT, INT))

            def assumed(p, nested=True):
                r = h.handler.requests.seq.get(p).id
                inr = AND(I(p) >= 0, I(p) < I(pos), NOT(h.get("sched", r, S)))

                def win(x):
                    q = wit(I(r), I(x))
                    c.register_index(q, h.N)
                    return z3.Implies(inr, no_use(h, r, x, [q], S))
                c.assume_forall(h.L(I(r)), win)
                return True

            def goal(p):
                r = h.handler.requests.seq.get(p).id
                return z3.Implies(AND(I(p) >= 0, I(p) < I(pos), h.gw >= 0, h.gw < h.L(I(r)), NOT(h.get("sched", r))), no_use(h, r, h.gw, self.witnesses()))
            return Univ(h.N, goal, [h.g[0]], assumed)
        if is_sym(n) and n.eq(h.N):
            out.append(("earlier requests cannot be scheduled", earlier("", self.pos)))
        elif n is None:
            for k, v in now.items():
                r, e = raw(v), raw(entry.get(k))
                if r is not None and not isinstance(r, bool) and sym.kind(r) == "i" and isinstance(e, int):
                    c.register_index(I(r), h.N) if is_sym(r) else None
                    out.append(("requests before %s cannot be scheduled" % k, earlier(k, r)))
                    out.append(("%s is not negative" % k, I(r) >= 0))
        elif is_sym(n) and n.num_args() == 1 and n.decl().eq(h.L):
            r, pos = n.arg(0), self.pos
            c.register_index(h.gw, n)
            if not hasattr(self.loop, "wit"):
                self.loop.wit = z3.Function(c.name("wit"), INT, INT, INT)
            wit = self.loop.wit

            def assumed(x):
                q = wit(I(r), I(x))
                c.register_index(q, h.N)
                return z3.Implies(I(x) < I(pos), no_use(h, r, x, [q], S))
            out.append(("earlier windows cannot be used", Univ(n, lambda x: z3.Implies(I(x) < I(pos), no_use(h, r, x, self.witnesses())), [h.gw], assumed)))
        return out
