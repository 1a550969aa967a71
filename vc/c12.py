from vc.gl import *


def setup(c, kp="f", kv="f", abstract=True):
    w = world()
    u = w.get("celest.units")
    up, uv = unit_like(c, w, "p", u.km, False), unit_like(c, w, "v", u.km / u.s, False)
    n = length(c)
    i = c.index(n)
    P, t, pa = frame3(c, w, "GCRS", n, up, "p", kp)
    V, tv, va = frame3(c, w, "GCRS", n, uv, "v", kv)
    p, v = [core.to_real(el(x, i)) for x in pa], [core.to_real(el(x, i)) for x in va]
    hx = cross(p, v)
    c.assume(rcmp(">", dot(p, p), 0))
    c.assume(rcmp(">", dot(hx, hx), 0))             # not parallel
    return w, u, n, i, P, V, t, tv, pa, va, p, v, hx, up, uv


@unit("C12", "axes", ["_gcrs_to_lvlh_matrix"], partial="prove")
def axes(c):
    w, u, n, i, P, V, t, tv, pa, va, p, v, hx, up, uv = setup(c)
    c.cover("reached")
    a = lambda x: npmodel.NP.array(x).T
    A, B = a(pa), a(va)
    m = w.get(TR)._gcrs_to_lvlh_matrix(A, B)
    if not shape_is(c, "one matrix per time", m, n, 3, 3):
        return
    M = [[el(m, i, j, k) for k in range(3)] for j in range(3)]
    for j in range(3):
        for k in range(j, 3):
            c.prove("rows %d and %d are orthonormal" % (j, k), eq(dot(M[j], M[k]), 1 if j == k else 0))
    x = cross(M[0], M[1])
    for k in range(3):
        c.prove("right-handed", eq(x[k], M[2][k]))
    np_, nh = rsqrt(dot(p, p)), rsqrt(dot(hx, hx))
    for k in range(3):
        c.prove("z is along the negative position", eq(rmul(M[2][k], np_), rneg(p[k])))
        c.prove("y is along the negative orbit normal", eq(rmul(M[1][k], nh), rneg(hx[k])))
        for s, X in ((A, pa), (B, va)):
            c.prove("inputs are not modified", eq(el(s, i, k), el(X[k], i)))


for kp, kv in ("ff", "ii", "fi"):
    def image(c, kp=kp, kv=kv):
        w, u, n, i, P, V, t, tv, pa, va, p, v, hx, up, uv = setup(c, kp, kv)
        c.cover("reached")
        r = w.get(TR)._gcrs_to_lvlh(P, V)
        L = w.get(FR + "lvlh").LVLH
        if not c.holds("two objects in the LVLH frame", isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, L) for x in r)):
            return
        for name, o, un in (("position", r[0], up), ("velocity", r[1], uv)):
            for q in (o.x, o.y, o.z):
                shape_is(c, "one value per time", q.data, n)
                c.holds("unit of the %s carried over" % name, q.unit is un)
            shape_is(c, "one time per sample", o.time.data, n)
            c.prove("times of the %s carried over" % name, eq(el(o.time.data, i), el(t, i)))
            c.holds("times of the %s in Julian days" % name, o.time.unit is u.jd2000)
        lp, lv = xyz(r[0], i), xyz(r[1], i)
        R = rsqrt(dot(p, p))
        c.prove("own position has no x component", eq(lp[0], 0))
        c.prove("own position has no y component", eq(lp[1], 0))
        c.prove("own position is below the origin by its radius", eq(lp[2], rneg(R)))
        c.prove("own velocity has no y component", eq(lv[1], 0))
        # x = |p x v| / |p|
        H = rsqrt(dot(hx, hx))
        c.lemma("x component of the velocity is the orbit normal's length over the radius", eq(rmul(lv[0], R), H))
        c.prove("own velocity has positive x component", rcmp(">", lv[0], 0))
        c.prove("length of the position preserved", eq(dot(lp, lp), dot(p, p)))
        c.prove("length of the velocity preserved", eq(dot(lv, lv), dot(v, v)))
        for o, tt, xa, un in ((P, t, pa, up), (V, tv, va, uv)):
            for q, a in zip((o.x, o.y, o.z, o.time), xa + [tt]):
                c.prove("inputs are not modified", eq(el(q.data, i), el(a, i)))
                c.holds("units of the inputs are not modified", q.unit is (u.jd2000 if q is o.time else un))
    unit("C12", "satellite in its own frame, %s position, %s velocity" % tuple("real" if k == "f" else "integer" for k in (kp, kv)), ["_gcrs_to_lvlh", "_gcrs_to_lvlh_matrix"], partial="prove")(image)


@unit("C12", "inputs of another frame", ["_gcrs_to_lvlh"])
def other(c):
    w, u, n, i, P, V, t, tv, pa, va, p, v, hx, up, uv = setup(c)
    I, _t, _a = frame3(c, w, "ITRS", n, up, "q")
    c.cover("reached")
    f = w.get(TR)._gcrs_to_lvlh
    raises(c, "position in another frame", ValueError, lambda: f(I, V))
    raises(c, "velocity in another frame", ValueError, lambda: f(P, I))
