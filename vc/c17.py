from vc.gl import *


def setup(c, kind="f"):
    w = world()
    u = w.get("celest.units")
    us, ug = unit_like(c, w, "s", u.km), unit_like(c, w, "g", u.km)
    n = length(c)
    pos, t, a = frame3(c, w, "ITRS", n, us, "r", kind)
    loc, g = place(c, w, ug)
    sat = w.get("celest.satellite").Satellite(pos)
    i = c.index(n)
    # the same satellite has been asked about another place before
    other, _ = place(c, w, ug, "other")
    mode, c.partial_mode = c.partial_mode, "ignore"
    sat.distance(other)
    sat.look_angle(other)
    c.partial_mode = mode
    r = [rdiv(rmul(core.to_real(el(x, i)), us.size), size_of(u.km)) for x in a]
    g = [rdiv(rmul(x, ug.size), size_of(u.km)) for x in g]
    return w, u, n, i, sat, loc, r, g, pos, a


for kind in "fi":
    def dist(c, kind=kind):
        w, u, n, i, sat, loc, r, g, pos, a = setup(c, kind)
        c.cover("reached")
        d = sat.distance(loc)
        if not c.holds("a quantity is returned", isinstance(d, w.get(Q).Quantity)):
            return
        shape_is(c, "one distance per time", d.data, n)
        D = rdiv(rmul(el(d.data, i), size_of(d.unit)), size_of(u.km))
        c.prove("not negative", rcmp(">=", D, 0))
        v = sub(r, g)
        c.prove("the square is the sum of the squared differences", eq(rmul(D, D), dot(v, v)))
        c.prove("the position is not modified", AND(*[core.to_bool(eq(el(q.data, i), el(x, i))) if is_sym(eq(el(q.data, i), el(x, i))) else z3.BoolVal(True) for q, x in zip((pos.x, pos.y, pos.z), a)]))
    unit("C17", "distance, %s data" % ("real" if kind == "f" else "integer"), ["Satellite.__init__", "Satellite.distance"], partial="prove")(dist)

    def look(c, kind=kind):
        w, u, n, i, sat, loc, r, g, pos, a = setup(c, kind)
        v = sub(r, g)
        c.assume(rcmp(">", dot(v, v), 0))
        c.assume(rcmp(">", dot(r, r), 0))
        c.cover("reached")
        q = sat.look_angle(loc)
        shape_is(c, "one angle per time", q.data, n)
        ang = rdiv(rmul(el(q.data, i), size_of(q.unit)), size_of(u.deg))
        c.prove("at least 0 degrees", rcmp(">=", ang, 0))
        c.prove("at most 180 degrees", rcmp("<=", ang, 180))
        angle_is(c, "the angle between the directions to the Earth's centre and to the location", ang, scale(-1, r), scale(-1, v))
    unit("C17", "look angle, %s data" % ("real" if kind == "f" else "integer"), ["Satellite.look_angle", "_get_ang"], partial="prove")(look)


@unit("C17", "look angle of a satellite straight overhead", ["Satellite.look_angle", "_get_ang"], partial="prove")
def overhead(c):
    w = world()
    u = w.get("celest.units")
    us, ug = unit_like(c, w, "s", u.km), unit_like(c, w, "g", u.km)
    n = length(c)
    i = c.index(n)
    loc, g = place(c, w, ug)
    m = sym_array(c, "m", n)
    mu = el(m, i)
    c.assume(mu > 1)
    pos = w.get(FR + "itrs").ITRS(sym_array(c, "t", n), *[m * Num(rdiv(rmul(x, ug.size), us.size)) for x in g], us)
    sat = w.get("celest.satellite").Satellite(pos)
    g = [rdiv(rmul(x, ug.size), size_of(u.km)) for x in g]
    G = dot(g, g)
    c.assume(rcmp(">", G, 0))
    r = scale(mu, g)
    v = sub(r, g)
    c.lemma("the satellite is not at the centre", rcmp(">", rmul(rmul(mu, mu), G), 0))
    c.lemma("the satellite is not at the location", rcmp(">", rmul(rmul(mu - 1, mu - 1), G), 0))
    c.lemma("same direction", rcmp(">", rmul(rmul(mu, mu - 1), G), 0))
    c.cover("reached")
    q = sat.look_angle(loc)
    equal(c, dot(r, v), rmul(rsqrt(dot(r, r)), rsqrt(dot(v, v))))
    c.prove("zero", eq(el(q.data, i), 0))
