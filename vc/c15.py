from vc.gl import *

CONST = "celest.constants"


def setup(c, kind=0):
    w = world()
    u = w.get("celest.units")
    a, l = unit_like(c, w, "a", u.deg, False), unit_like(c, w, "l", u.km, False)
    vals = [data(c, k, None, n) for k, n in zip(("fff", "iii", "ffi")[kind], ("lat", "lon", "hgt"))]
    return w, u, a, l, vals, w.get(GLM).GroundLocation


def accepted(kind):
    def h(c):
        w, u, a, l, (lat, lon, hgt), G = setup(c, kind)
        LAT, LON = rdiv(rmul(raw(lat), a.size), size_of(u.deg)), rdiv(rmul(raw(lon), a.size), size_of(u.deg))
        ok = AND(LAT >= -90, LAT <= 90, LON >= -180, LON <= 180)
        c.cover("reached")
        try:
            g = G(lat, lon, hgt, a, l)
        except ValueError:
            c.prove("rejected only when outside the ranges", NOT(ok))
            return
        c.prove("accepted only within the ranges", ok)
        for name, q, v, un in (("latitude", g.latitude, lat, a), ("longitude", g.longitude, lon, a), ("height", g.height, hgt, l)):
            c.prove(name + " is returned", eq(q.data, v))
            c.holds(name + " has the given unit", q.unit is un)
    return h


for k, n in enumerate(("real", "integer", "mixed")):
    unit("C15", "accepted exactly within the ranges, %s numbers" % n, ["GroundLocation.__init__", "GroundLocation.latitude", "GroundLocation.longitude", "GroundLocation.height"])(accepted(k))


@unit("C15", "radius", ["GroundLocation.radius"], partial="prove")
def radius(c):
    w, u, a, l, (lat, lon, hgt), G = setup(c)
    A, B = raw(w.get(CONST).WGS84_MAJOR_AXIS_KM), raw(w.get(CONST).WGS84_MINOR_AXIS_KM)
    phi = rdiv(rmul(raw(lat), a.size), size_of(u.rad))
    H = rdiv(rmul(raw(hgt), l.size), size_of(u.km))
    try:
        g = G(lat, lon, hgt, a, l)
    except ValueError:
        return
    c.cover("reached")
    r = g.radius
    c.holds("the radius is in kilometres", r.unit is u.km)
    R0 = rsub(raw(r.data), H)
    c.prove("the minor axis is smaller", rcmp("<", B, A))
    c.prove("at least the minor axis", rcmp(">=", R0, B))
    c.prove("at most the major axis", rcmp("<=", R0, A))
    c.prove("the major axis at the equator", IMP(SIN(phi) == 0, R0 == core.to_real(A)))
    c.prove("the minor axis at the poles", IMP(COS(phi) == 0, R0 == core.to_real(B)))
    k = c.real("k")
    g2 = G(lat, lon, Num(hgt_plus(hgt, k, l, u)), a, l)
    c.prove("grows one for one with height", eq(rsub(raw(g2.radius.data), raw(r.data)), k))


def hgt_plus(h, k, l, u):
    return radd(raw(h), rdiv(rmul(k, size_of(u.km)), l.size))
