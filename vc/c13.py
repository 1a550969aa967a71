from vc.gl import *

LAT, HGT = [z3.Function(s, *([z3.RealSort()] * 4)) for s in ("geodetic_latitude", "geodetic_height")]


def geodetic(real):
    """Contract of _geodetic_latitude_and_altitude (discharged under C10): each sample on its own."""
    def f(x, y, z):
        a = [npmodel.as_arr(v) for v in (x, y, z)]
        n = a[0]._shape
        r = [v.reader() for v in a]
        g = lambda F: Arr(n, lambda idx: F(*[core.to_real(q(idx)) for q in r]), None, "f")
        return g(LAT), g(HGT)
    return f


def setup(c, src):
    w = world(**{TR + ":_geodetic_latitude_and_altitude": geodetic})
    u = w.get("celest.units")
    n = length(c)
    i = c.index(n)
    un, ua = unit_like(c, w, "d", u.km, False), unit_like(c, w, "a", u.deg, False)
    t = sym_array(c, "jd", n)
    a = [sym_array(c, "r" + k, n) for k in "xyz"]
    F = dict((f, getattr(w.get(FR + f.lower()), f)) for f in ("GCRS", "ITRS", "WGS84", "AzEl", "LVLH"))
    o = F[src](t, *a, ua, un) if src == "WGS84" else F[src](t, *a, un)
    loc, g = place(c, w, unit_like(c, w, "g", u.km))
    return w, u, n, i, t, a, o, F, loc


PARTS = dict(GCRS="xyz", ITRS="xyz", WGS84=("latitude", "longitude", "height"), AzEl=("azimuth", "elevation"))


def same_frame(c, x, y, frame, i, n):
    for p in PARTS[frame]:
        q, r = getattr(x, p), getattr(y, p)
        shape_is(c, "one value per time", q.data, n)
        if not c.holds("dimension of %s" % p, q.dimension == r.dimension):
            continue
        c.prove("%s as composed through ITRS" % p, eq(rmul(el(q.data, i), size_of(q.unit)), rmul(el(r.data, i), size_of(r.unit))))


def conv(src, dst):
    def h(c):
        w, u, n, i, t, a, o, F, loc = setup(c, src)
        T = w.get(TR)
        C = w.get("celest.coordinates.coordinate").Coordinate
        K = C(o)
        # a history of other conversions, of this position and of another one
        loc2, _ = place(c, w, unit_like(c, w, "g2", u.km), "other")
        b = [sym_array(c, "s" + k, n) for k in "xyz"]
        o2 = F[src](t, *b, u.deg, u.km) if src == "WGS84" else F[src](t, *b, u.km)
        for k in (K, C(o2)):
            for f in ("AzEl", "ITRS", dst):
                k.convert_to(F[f], loc2)
        c.cover("reached")
        if dst == "AzEl":
            raises(c, "a missing location is rejected", ValueError, lambda: K.convert_to(F[dst]))
            raises(c, "a missing location is rejected", ValueError, lambda: K.convert_to(F[dst], None))
        r = K.convert_to(F[dst], loc) if dst == "AzEl" else K.convert_to(F[dst])
        if not c.holds("an object of the requested frame", type(r) is F[dst], repr(r)):
            return
        if dst == "AzEl":
            c.holds("the given location", r.location is loc)
        shape_is(c, "one time per sample", r.time.data, n)
        c.prove("times carried over", eq(rmul(el(r.time.data, i), size_of(r.time.unit)), rmul(el(t, i), size_of(u.jd2000))))
        if src == dst:
            e = o
        else:
            m = o if src == "ITRS" else (T._gcrs_to_itrs if src == "GCRS" else T._wgs84_to_itrs)(o)
            e = m if dst == "ITRS" else T._itrs_to_azel(m, loc) if dst == "AzEl" else (T._itrs_to_gcrs if dst == "GCRS" else T._itrs_to_wgs84)(m)
        same_frame(c, r, e, dst, i, n)
        if dst != "AzEl":
            r2 = K.convert_to(F[dst], loc)
            c.holds("a superfluous location does no harm", type(r2) is F[dst])
            same_frame(c, r2, e, dst, i, n)
        for q, x in zip((o._get_x(), o._get_y(), o._get_z(), o.time), a + [t]):
            c.prove("the source keeps its data", eq(el(q.data, i), el(x, i)))
    return h


def reject(c):
    w, u, n, i, t, a, o, F, loc = setup(c, "GCRS")
    K = w.get("celest.coordinates.coordinate").Coordinate
    A = w.get(FR + "attitude").Attitude
    c.cover("reached")
    for what, x in (("AzEl", F["AzEl"](t, a[0], a[1], u.deg, loc)), ("LVLH", F["LVLH"](t, *a, u.km)), ("attitude", A(t, *a, u.deg, loc)), ("location", loc), ("array", a[0]), ("nothing", None), ("frame class", F["ITRS"]), ("number", 3), ("text", "ITRS")):
        raises(c, "a coordinate of %s is rejected" % what, ValueError, lambda: K(x))


FS = ["Coordinate.__init__", "Coordinate.convert_to", "Coordinate._convert_from_gcrs", "Coordinate._convert_from_itrs", "Coordinate._convert_from_wgs84", "_itrs_to_wgs84"]
for s in ("GCRS", "ITRS", "WGS84"):
    for d in ("GCRS", "ITRS", "WGS84", "AzEl"):
        unit("C13", "%s to %s" % (s, d), FS)(conv(s, d))
unit("C13", "anything else is rejected", ["Coordinate.__init__"])(reject)
