from vc.gl import *


def setup(c, kind="f", line=False):
    w = world()
    u = w.get("celest.units")
    us, ug = unit_like(c, w, "s", u.km), unit_like(c, w, "g", u.km)
    n = length(c)
    i = c.index(n)
    loc, g0 = place(c, w, ug)
    mu = None
    t = sym_array(c, "t", n)
    if line:
        m = sym_array(c, "m", n)
        mu = el(m, i)
        a = [m * Num(rdiv(rmul(x, ug.size), us.size)) for x in g0]
    else:
        a = [sym_array(c, "r" + k, n, kind) for k in "xyz"]
    pos = w.get(FR + "itrs").ITRS(t, *a, us)
    g = [rdiv(rmul(x, ug.size), size_of(u.km)) for x in g0]
    r = scale(mu, g) if line else [rdiv(rmul(core.to_real(el(x, i)), us.size), size_of(u.km)) for x in a]
    c.assume(rcmp(">", dot(g[:2], g[:2]), 0))           # off the poles
    v = sub(r, g)
    if not line:
        c.assume(rcmp(">", dot(v, v), 0))               # a target that is not the location itself
    return w, u, n, i, pos, loc, r, g, v, mu, t, ug


def angles(c, w, u, n, i, pos, loc, t):
    q = w.get(TR)._itrs_to_azel(pos, loc)
    if not c.holds("an azimuth and elevation object is returned", isinstance(q, w.get(FR + "azel").AzEl)):
        return None
    shape_is(c, "one azimuth per time", q.azimuth.data, n)
    shape_is(c, "one elevation per time", q.elevation.data, n)
    c.prove("times are carried over", eq(el(q.time.data, i), el(t, i)))
    c.holds("the location is carried over", q.location is loc)
    d = lambda x: rdiv(rmul(el(x.data, i), size_of(x.unit)), size_of(u.deg))
    return d(q.azimuth), d(q.elevation)


FS = ["_itrs_to_azel", "_azimuth", "_elevation", "_get_ang"]
for kind in "fi":
    def rng(c, kind=kind):
        w, u, n, i, pos, loc, r, g, v, mu, t, ug = setup(c, kind)
        c.cover("reached")
        x = angles(c, w, u, n, i, pos, loc, t)
        if x is None:
            return
        az, e = x
        c.prove("azimuth at least 0", rcmp(">=", az, 0))
        c.prove("azimuth below 360", rcmp("<", az, 360))
        c.prove("elevation at least -90", rcmp(">=", e, -90))
        c.prove("elevation at most 90", rcmp("<=", e, 90))
    unit("C11", "ranges, %s data" % ("real" if kind == "f" else "integer"), FS, partial="prove")(rng)


@unit("C11", "elevation", ["_elevation", "_get_ang"], partial="prove")
def elevation(c):
    w, u, n, i, pos, loc, r, g, v, mu, t, ug = setup(c)
    c.cover("reached")
    e = el(w.get(TR)._elevation(pos, loc), i)
    angle_is(c, "90 degrees minus the angle between the line of sight and the direction from the centre", rsub(90, e), v, g)


@unit("C11", "azimuth", ["_azimuth"], partial="prove")
def azimuth(c):
    w, u, n, i, pos, loc, r, g, v, mu, t, ug = setup(c)
    G = dot(g, g)
    east = [rneg(g[1]), g[0], Fraction(0)]                      # length rho
    north = [rneg(rmul(g[2], g[0])), rneg(rmul(g[2], g[1])), rsub(G, rmul(g[2], g[2]))]    # length sqrt(G) rho
    E, N = rmul(rsqrt(G), dot(v, east)), dot(v, north)
    c.prove("east, north and up are orthogonal", AND(*[core.to_bool(x) for x in (eq(dot(east, north), 0), eq(dot(east, g), 0), eq(dot(north, g), 0)) if is_sym(x)]))
    c.prove("east and north are scaled alike", eq(dot(north, north), rmul(G, dot(east, east))))
    c.assume(OR(E != 0, N != 0))           # the line of sight is not vertical
    c.cover("reached")
    az = el(w.get(TR)._azimuth(pos, loc), i)
    th = rdiv(rmul(az, PI_Q), 180)
    s, k = sym.rsin(th), sym.rcos(th)
    direction(c, "the angle clockwise from north", s, k, E, N)


for what, sign in (("overhead", 1), ("underfoot", -1)):
    def line(c, what=what, sign=sign):
        w, u, n, i, pos, loc, r, g, v, mu, t, ug = setup(c, line=True)
        c.assume(mu > 1 if sign > 0 else mu < 1)
        G = dot(g, g)
        c.lemma("the location is not at the centre", rcmp(">", G, 0))
        c.lemma("the target is not at the location", rcmp(">", rmul(rmul(mu - 1, mu - 1), G), 0))
        c.lemma("direction", rcmp(">" if sign > 0 else "<", rmul(mu - 1, G), 0))
        c.cover("reached")
        e = el(w.get(TR)._elevation(pos, loc), i)
        equal(c, rmul(sign, dot(v, g)), rmul(rsqrt(dot(v, v)), rsqrt(G)))
        c.prove("elevation is %d" % (90 * sign), eq(e, 90 * sign))
        az = el(w.get(TR)._azimuth(pos, loc), i)
        c.prove("azimuth is within its range", AND(az >= 0, az < 360))
    unit("C11", "target " + what, ["_elevation", "_get_ang", "_azimuth"], partial="prove")(line)
