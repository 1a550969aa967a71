from vc.gl import *

INS = "celest.schedule.insertion_operators"
WH = "celest.encounter.window_handling"


def setup(c, kinds="fff"):
    w = world()
    u = w.get("celest.units")
    r, s = (data(c, k, None, n) for k, n in zip(kinds, ("rise", "set")))
    c.assume(core.to_real(raw(r)) < core.to_real(raw(s)))
    vtw = w.get(WH).VisibleTimeWindow(r, s, None)
    q = w.get(Q).Quantity
    R, S = core.to_real(raw(r)), core.to_real(raw(s))
    I = w.get(INS)

    def start(un, name, kind="f"):
        v = data(c, kind, None, name)
        t = core.to_real(rdiv(rmul(core.to_real(raw(v)), size_of(un)), size_of(u.jd2000)))
        c.assume(AND(t >= R, t <= S))
        return q(v, un), t
    return w, u, vtw, R, S, I, start


def quality(c, I, vtw, s, what="quality"):
    v = raw(I.image_quality(vtw, s))
    c.holds("the quality is an integer", not isinstance(v, Fraction) and (isinstance(v, int) or v.is_int()), repr(v))
    return v


def value(c, R, S, t, v):
    """The code's number is the floor of a real; name what is known of it."""
    H = (S - R) / 2
    d = core.to_real(rabs(t - (S + R) / 2))
    x = d / H
    c.lemma("lemma: the distance is within half the window", AND(d >= 0, d <= H))
    c.lemma("lemma: so is the ratio", AND(x >= 0, x <= 1))
    return d, x


for kinds in ("fff", "iii"):
    def rng(c, kinds=kinds):
        w, u, vtw, R, S, I, start = setup(c, kinds)
        un = unit_like(c, w, "t", u.jd2000)
        s, t = start(un, "start", kinds[2])
        c.cover("reached")
        v = quality(c, I, vtw, s)
        d, x = value(c, R, S, t, v)
        c.prove("at least 1", rcmp(">=", v, 1))
        c.prove("at most 10", rcmp("<=", v, 10))
        c.lemma("lemma: positive distance", IMP(d > 0, x > 0))
        c.prove("10 exactly at the middle", eq_bool(rcmp("==", v, 10), d == 0))
        m = data(c, "i", None, "minimum")
        b = I.is_image_quality_met(vtw, s, m)
        c.prove("acceptable exactly when the quality reaches the minimum", eq_bool(rb(b), rcmp(">=", v, raw(m))))
        m = data(c, "f", None, "minimum")
        b = I.is_image_quality_met(vtw, s, m)
        c.prove("acceptable exactly when the quality reaches the minimum", eq_bool(rb(b), rcmp(">=", v, raw(m))))
    unit("C30", "range, %s times" % ("real" if kinds == "fff" else "integer"), ["image_quality", "is_image_quality_met", "VisibleTimeWindow.__init__"], partial="prove")(rng)


def rb(b):
    r = raw(b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def eq_bool(a, b):
    a, b = (z3.BoolVal(x) if isinstance(x, bool) else x for x in (a, b))
    return a == b


@unit("C30", "never increases with the distance from the middle", ["image_quality"], partial="prove")
def monotone(c):
    w, u, vtw, R, S, I, start = setup(c)
    (s1, t1), (s2, t2) = start(unit_like(c, w, "t", u.jd2000), "s1"), start(unit_like(c, w, "t2", u.jd2000), "s2")
    c.cover("reached")
    v1, v2 = quality(c, I, vtw, s1), quality(c, I, vtw, s2)
    d1, x1 = value(c, R, S, t1, v1)
    d2, x2 = value(c, R, S, t2, v2)
    c.assume(d1 <= d2)
    c.lemma("lemma: ratios are ordered", x1 <= x2)
    c.prove("a start nearer the middle is no worse", rcmp(">=", v1, v2))


@unit("C30", "symmetric about the middle", ["image_quality"], partial="prove")
def mirror(c):
    w, u, vtw, R, S, I, start = setup(c)
    s1, t1 = start(u.jd2000, "s1")
    v1 = quality(c, I, vtw, s1)
    c.cover("reached")
    q = w.get(Q).Quantity
    v2 = quality(c, I, vtw, q(Num(R + S - t1), u.jd2000))
    c.prove("the mirror image has the same quality", eq(v1, v2))
