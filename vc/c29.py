from vc.gl import *

INS = "celest.schedule.insertion_operators"


class Bisect(loops.Spec):
    """Invariant templates over whatever locals the search has: v == X[a], X[a] X[b] <= 0, and the bounds of the interval."""
    allow_while = True
    peel = 1

    def __init__(self, la, l0, r0, n):
        self.la, self.l0, self.r0, self.n = la, l0, r0, n

    def parts(self, env):
        ints, reals = [], []
        for k, v in sorted(env.items()):
            r = raw(v)
            if r is None or isinstance(r, bool) or (is_sym(r) and z3.is_bool(r)):
                continue
            if isinstance(r, int) or (is_sym(r) and r.is_int()):
                ints.append((k, r))
            reals.append((k, r))
        return ints, reals

    def candidates(self, entry, now):
        ints, reals = self.parts(now)
        out = []
        for k, a in ints:
            sym.ctx().register_index(core.to_int(a), self.n)
        for k, a in ints:
            out.append(("%s in the interval" % k, AND(core.to_int(a) >= self.l0, core.to_int(a) <= self.r0)))
            for m, v in reals:
                out.append(("%s is the angle at %s" % (m, k), core.to_real(v) == self.la(core.to_int(a))))
            for m, b in ints:
                if k < m:
                    out.append(("crossing between %s and %s" % (k, m), self.la(core.to_int(a)) * self.la(core.to_int(b)) <= 0))
        return out

    def variants(self, before, after):
        a, b = dict(self.parts(before)[0]), dict(self.parts(after)[0])
        opts = []
        for k in b:
            for m in b:
                if k != m and k in a and m in a:
                    opts.append(AND(core.to_int(b[k]) - core.to_int(b[m]) < core.to_int(a[k]) - core.to_int(a[m]), core.to_int(a[k]) - core.to_int(a[m]) > 0))
        return "the search interval shrinks and stays bounded below", opts


def search(kind, ku):
    def h(c):
        w = world()
        u = w.get("celest.units")
        ua, ud = (unit_like(c, w, "a", u.deg), unit_like(c, w, "d", u.deg)) if ku else (u.deg, u.deg)
        n = length(c)
        l0, r0 = c.index(n, "l0"), c.index(n, "r0")
        c.assume(l0 <= r0)
        q = w.get(Q).Quantity
        J, A = sym_array(c, "jd", n), sym_array(c, "angle", n, kind)
        D = data(c, kind, None, "desired")
        jd = lambda k: core.to_real(el(J, k))
        # times increase
        c.assume_forall(n, lambda j: AND(IMP(core.to_int(j) < l0, jd(j) < jd(l0)), IMP(core.to_int(j) > l0, jd(j) > jd(l0)), IMP(core.to_int(j) < r0, jd(j) < jd(r0)), IMP(core.to_int(j) > r0, jd(j) > jd(r0))), "times increase")
        sa, sd = (rdiv(x.size, size_of(u.deg)) if ku else 1 for x in (ua, ud))
        la = z3.Function(c.name("offset"), z3.IntSort(), z3.RealSort())
        off = lambda k: rsub(rmul(core.to_real(el(A, k)), sa), rmul(core.to_real(raw(D)), sd))
        c.assume_forall(n, lambda j: la(core.to_int(j)) == off(j), "offset")
        spec = Bisect(la, l0, r0, n)
        c.loop_spec = spec
        f = w.get(INS)._look_angle_time
        r = f(q(A, ua), q(D, ud), q(J, u.jd2000), q(wrap(jd(l0)), u.jd2000), q(wrap(jd(r0)), u.jd2000))
        c.loop_spec = None
        c.cover("reached")
        same = la(l0) * la(r0) > 0
        if r is None:
            c.prove("nothing only when both ends are strictly on one side", same)
            return
        c.prove("a time whenever the ends are not strictly on one side", NOT(same))
        if not c.holds("a quantity is returned", isinstance(r, w.get(Q).Quantity)):
            return
        T = rdiv(rmul(raw(r.data), size_of(r.unit)), size_of(u.jd2000))
        opts = [core.to_int(v) for k, v in spec.parts(getattr(spec, "last", {}))[0]] or [l0]
        good = lambda k: [eq(T, jd(k)), AND(k >= l0, k <= r0), z3.Or(la(k) == 0, AND(k + 1 <= r0, la(k) * la(k + 1) <= 0))]
        for k in opts + [l0, r0]:
            c.register_index(k, n)
            c.register_index(fold(z3.simplify(k + 1)), n) if False else None
        for k in opts + [l0, r0]:
            if all(c.try_prove(x) for x in good(k)):
                c.holds("a sample of the interval after which the series crosses the desired angle", True)
                return
        c.undecided("a sample of the interval after which the series crosses the desired angle")
    return h


for kind, nm in (("f", "real"), ("i", "integer")):
    for ku in (0, 1):
        unit("C29", "search, %s angles, %s" % (nm, "any unit" if ku else "degrees"), ["_look_angle_time"])(search(kind, ku))
