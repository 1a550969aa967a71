from vc.gl import *

AQ = "celest.coordinates.astronomical_quantities"
CONST = "celest.constants"
A_KM, FLAT = F("6378.137"), 1 / F("298.257223563")
E2_WGS84 = FLAT * (2 - FLAT)


def ellipsoid(w):
    k = w.get(CONST)
    return raw(k.WGS84_MAJOR_AXIS_KM), rmul(raw(k.WGS83_FIRST_ECCENTRICITY), raw(k.WGS83_FIRST_ECCENTRICITY))


def W(e2, s):
    return rsqrt(rsub(1, rmul(e2, rmul(s, s))))


def point(a, e2, phi, lam, h):
    """The point at height h along the normal of the ellipsoid at geodetic latitude phi and longitude lam."""
    s, k = sym.rsin(phi), sym.rcos(phi)
    n = rdiv(a, W(e2, s))
    r = rmul(radd(n, h), k)
    return [rmul(r, sym.rcos(lam)), rmul(r, sym.rsin(lam)), rmul(radd(rmul(n, rsub(1, e2)), h), s)]


@unit("C10", "the ellipsoid is that of WGS84", ["celest.constants"])
def constants(c):
    a, e2 = ellipsoid(world())
    c.holds("major axis", a == A_KM)
    c.holds("eccentricity", abs(e2 - E2_WGS84) <= F("1e-11"))
    c.cover("reached")
    s = c.real("s")
    c.prove("the radius of curvature is defined at every latitude", IMP(AND(s >= -1, s <= 1), rcmp(">", rsub(1, rmul(e2, rmul(s, s))), 0)))


def setup(c, kinds="fff"):
    w = world()
    u = w.get("celest.units")
    ua, ul = unit_like(c, w, "a", u.deg, False), unit_like(c, w, "l", u.km, False)
    return w, u, ua, ul


for kinds, nm in (("fff", "real"), ("iii", "integer")):
    def to_itrs(c, kinds=kinds):
        w, u, ua, ul = setup(c)
        n = length(c)
        i = c.index(n)
        t = sym_array(c, "t", n)
        v = [sym_array(c, k, n, x) for k, x in zip(("lat", "lon", "hgt"), kinds)]
        o = w.get(FR + "wgs84").WGS84(t, *v, ua, ul)
        keep = [el(x, i) for x in v]
        c.cover("reached")
        r = w.get(TR)._wgs84_to_itrs(o)
        if not c.holds("an ITRS object is returned", isinstance(r, w.get(FR + "itrs").ITRS)):
            return
        a, e2 = ellipsoid(w)
        P = point(a, e2, rdiv(rmul(keep[0], ua.size), size_of(u.rad)), rdiv(rmul(keep[1], ua.size), size_of(u.rad)), rdiv(rmul(keep[2], ul.size), size_of(u.km)))
        for k, p in zip("xyz", P):
            q = getattr(r, k)
            shape_is(c, "one value per time", q.data, n)
            c.prove("%s of the point on the ellipsoid normal" % k, eq(rmul(el(q.data, i), size_of(q.unit)), rmul(p, size_of(u.km))))
        shape_is(c, "one time per sample", r.time.data, n)
        c.prove("times carried over", eq(rmul(el(r.time.data, i), size_of(r.time.unit)), rmul(el(t, i), size_of(u.jd2000))))
        for q, k, un in ((o.latitude, keep[0], ua), (o.longitude, keep[1], ua), (o.height, keep[2], ul)):
            c.prove("the input keeps its data", eq(el(q.data, i), k))
            c.holds("the input keeps its units", q.unit is un)
    unit("C10", "WGS84 to ITRS, %s data" % nm, ["_wgs84_to_itrs"], partial="prove")(to_itrs)

    def location(c, kinds=kinds):
        w, u, ua, ul = setup(c)
        v = [data(c, k, None, m) for k, m in zip(kinds, ("lat", "lon", "hgt"))]
        a, e2 = ellipsoid(w)
        phi, lam = (rdiv(rmul(raw(x), ua.size), size_of(u.rad)) for x in v[:2])
        P = point(a, e2, phi, lam, rdiv(rmul(raw(v[2]), ul.size), size_of(u.km)))
        try:
            g = w.get(GLM).GroundLocation(*v, ua, ul)
        except ValueError:
            return
        c.cover("reached")
        for k, p in zip("xyz", P):
            q = getattr(g, "itrs_" + k)
            c.holds("itrs_%s is a length" % k, q.dimension == u.km.dimension)
            c.prove("itrs_%s of the point on the ellipsoid normal" % k, eq(rmul(raw(q.data), size_of(q.unit)), rmul(p, size_of(u.km))))
    unit("C10", "ITRS coordinates of a ground location, %s numbers" % nm, ["GroundLocation.itrs_x", "GroundLocation.itrs_y", "GroundLocation.itrs_z", "radius_of_curvature_in_prime_vertical"], partial="prove")(location)


TOL = F("1e-7")


def lemmas(c, e2):
    """|s/W(s) - s'/W(s')| <= 1.1 |s - s'|, and products of bounded factors are bounded."""
    W1, W2 = c.real("W1"), c.real("W2")
    s1, s2, q1, q2 = [c.real(q) for q in ("s1", "s2", "q1", "q2")]
    root = lambda W_, s_: AND(W_ > 0, W_ * W_ == 1 - rat(e2) * s_ * s_, s_ >= -1, s_ <= 1)
    hyp = AND(root(W1, s1), root(W2, s2))
    ok = c.prove("lemma: W lies between 0.99 and 1", IMP(root(W1, s1), AND(W1 >= F("0.99"), W1 <= 1)))
    b = AND(W1 >= F("0.99"), W2 >= F("0.99"), W1 <= 1, W2 <= 1, s1 >= -1, s1 <= 1, s2 >= -1, s2 <= 1)
    dW, ds = W2 - W1, s1 - s2
    ok &= c.prove("lemma: W2^2 - W1^2", IMP(hyp, dW * (W1 + W2) == rat(e2) * ds * (s1 + s2)))
    ok &= c.prove("lemma: W is Lipschitz", IMP(AND(b, ds >= 0, dW * (W1 + W2) == rat(e2) * ds * (s1 + s2)), AND(dW <= F("0.01") * ds, dW >= -F("0.01") * ds)))
    ok &= c.prove("lemma: s W' - s' W", IMP(AND(b, ds >= 0, dW <= F("0.01") * ds, dW >= -F("0.01") * ds), AND(s1 * W2 - s2 * W1 <= F("1.02") * ds, s1 * W2 - s2 * W1 >= -F("1.02") * ds)))
    ok &= c.prove("lemma: quotients", IMP(AND(b, q1 * W1 == s1, q2 * W2 == s2, ds >= 0, s1 * W2 - s2 * W1 <= F("1.02") * ds, s1 * W2 - s2 * W1 >= -F("1.02") * ds), AND(q1 - q2 <= F("1.1") * ds, q2 - q1 <= F("1.1") * ds)))
    k1, k2, k3 = c.real("k1"), c.real("k2"), c.real("k3")
    one = lambda q: AND(q >= -1, q <= 1)
    ok &= c.prove("lemma: product of bounded factors", IMP(AND(one(k1), one(k2), k3 <= TOL, -TOL <= k3), AND(k1 * k2 * k3 <= TOL, k1 * k2 * k3 >= -TOL)))
    return ok


class Fixpoint(loops.Spec):
    allow_while = True
    peel = 1


def to_wgs84(kind):
    def h(c):
        c.alg.condition = None                                              # cosines of arctangents stay as they are
        w, u, ua, ul = setup(c)
        n = length(c)
        i = c.index(n)
        us = unit_like(c, w, "s", u.km)
        pos, t, v = frame3(c, w, "ITRS", n, us, "r", kind)
        keep = [el(x, i) for x in v]
        x, y, z = (rdiv(rmul(core.to_real(k), us.size), size_of(u.km)) for k in keep)
        a, e2 = ellipsoid(w)
        if not lemmas(c, e2):
            return
        p2 = radd(rmul(x, x), rmul(y, y))
        p = rsqrt(p2)
        c.assume(rcmp(">=", radd(p2, rmul(z, z)), 3000 ** 2))            # outside the core
        c.loop_spec = spec = Fixpoint()
        r = w.get(TR)._itrs_to_wgs84(pos)
        c.loop_spec = None
        c.cover("reached")
        if not c.holds("a WGS84 object is returned", isinstance(r, w.get(FR + "wgs84").WGS84)):
            return
        for m in ("latitude", "longitude", "height"):
            shape_is(c, "one %s per time" % m, getattr(r, m).data, n)
        shape_is(c, "one time per sample", r.time.data, n)
        c.prove("times carried over", eq(rmul(el(r.time.data, i), size_of(r.time.unit)), rmul(el(t, i), size_of(u.jd2000))))
        for q, k in zip((pos.x, pos.y, pos.z), keep):
            c.prove("the input keeps its data", eq(el(q.data, i), k))
            c.holds("the input keeps its units", q.unit is us)
        lat, lon = (rdiv(rmul(el(q.data, i), size_of(q.unit)), size_of(u.rad)) for q in (r.latitude, r.longitude))
        hgt = rdiv(rmul(el(r.height.data, i), size_of(r.height.unit)), size_of(u.km))
        D = lambda q: rmul(q, rdiv(size_of(u.rad), size_of(u.deg)))
        c.prove("latitude within [-90, 90] degrees", AND(D(lat) >= -90, D(lat) <= 90))
        c.prove("longitude within [-180, 180] degrees", AND(D(lon) >= -180, D(lon) <= 180))
        # the last step of the iteration: lat = atan2(z + e2 N(phi) sin(phi), p) for a phi within the tolerance of lat
        found = None
        for name, o in sorted(getattr(spec, "last", {}).items()):
            if isinstance(o, Arr) and o.ndim == 1 and o._dtype == "f":
                phi = core.to_real(el(o, i))
                num = radd(z, rdiv(rmul(rmul(e2, a), SIN(phi)), W(e2, SIN(phi))))
                if c.alg.is_zero(core.to_real(lat) - ATAN2(core.to_real(num), core.to_real(p))) and c.try_prove(AND(lat - phi <= F("1e-9"), phi - lat <= F("1e-9"))):
                    found = phi, num
                    break
        if found is None:
            return c.undecided("the returned latitude is a fixed point of the iteration")
        phi, num = found
        s, S, C = SIN(phi), SIN(core.to_real(lat)), COS(core.to_real(lat))
        c.assume(AND(s - S <= rabs(phi - lat), S - s <= rabs(phi - lat)))     # sine is 1-Lipschitz
        w1, w2 = W(e2, s), W(e2, S)
        N, N1 = rdiv(a, w1), rdiv(a, w2)
        Q1, Q2 = rdiv(s, w1), rdiv(S, w2)
        c.prove("lemma: roots", AND(w1 > 0, w1 * w1 == 1 - rat(e2) * s * s, w2 > 0, w2 * w2 == 1 - rat(e2) * S * S))
        c.assume(AND(w1 >= F("0.99"), w1 <= 1, w2 >= F("0.99"), w2 <= 1))
        c.assume(AND(Q1 - Q2 <= F("1.1") * F("1e-9"), Q2 - Q1 <= F("1.1") * F("1e-9")))
        c.lemma("the numerator or the distance from the axis is positive", z3.Or(core.to_real(p) > 0, core.to_real(num) > 0, core.to_real(num) < 0))
        hyp2 = rsqrt(radd(rmul(p, p), rmul(num, num)))
        c.lemma("cosine of the latitude", eq(rmul(hyp2, C), p))
        c.lemma("sine of the latitude", eq(rmul(hyp2, S), num))
        c.lemma("the latitude points along the fixed point", eq(rmul(p, S), rmul(num, C)))
        Rr = rsub(rmul(p, S), rmul(radd(z, rmul(rmul(N1, e2), S)), C))
        c.lemma("defect of the normal equation", eq(Rr, rmul(rmul(rmul(e2, a), C), rsub(Q1, Q2))))
        c.lemma("the defect is small", AND(Rr <= TOL, Rr >= -TOL))
        c.lemma("height", eq(hgt, rsub(radd(rmul(p, C), rmul(z, S)), rmul(a, w2))))
        rad = rmul(radd(N1, hgt), C)
        c.lemma("distance from the axis", eq(rsub(rad, p), rmul(-S, Rr)))
        cl, sl = COS(core.to_real(lon)), SIN(core.to_real(lon))
        c.lemma("x from the longitude", eq(rmul(p, cl), x))
        c.lemma("y from the longitude", eq(rmul(p, sl), y))
        b = w.get(TR)._wgs84_to_itrs(r)
        X, Y, Z = (rdiv(rmul(el(q.data, i), size_of(q.unit)), size_of(u.km)) for q in (b.x, b.y, b.z))
        c.lemma("x there and back", eq(rsub(X, x), rmul(rmul(-S, cl), Rr)))
        c.lemma("y there and back", eq(rsub(Y, y), rmul(rmul(-S, sl), Rr)))
        c.lemma("z there and back", eq(rsub(Z, z), rmul(C, Rr)))
        for nm, q, q0, f in (("x", X, x, rmul(-S, cl)), ("y", Y, y, rmul(-S, sl)), ("z", Z, z, C)):
            fs = ((-S, cl), (-S, sl), (C, 1))["xyz".index(nm)]
            if c.prove("lemma: factors", AND(*[AND(core.to_real(g) >= -1, core.to_real(g) <= 1) for g in fs])):
                e = core.to_real(rmul(f, Rr))
                c.assume(AND(e <= TOL, e >= -TOL))                             # product of bounded factors
            c.prove("%s returns to within 0.1 mm" % nm, AND(q - q0 <= TOL, q0 - q <= TOL))
    return h


for kind in "fi":
    unit("C10", "ITRS to WGS84 and back, %s data" % ("real" if kind == "f" else "integer"), ["_itrs_to_wgs84", "_geodetic_latitude_and_altitude", "_wgs84_to_itrs"], partial="prove", timeout=400)(to_wgs84(kind))


@unit("C10", "altitude", ["_altitude", "_geodetic_latitude_and_altitude"], timeout=300)
def altitude(c):
    """The altitude is the height above the ellipsoid at a fixed point of the latitude iteration."""
    c.alg.condition = None
    w, u, ua, ul = setup(c)
    n = length(c)
    i = c.index(n)
    us = unit_like(c, w, "s", u.km)
    pos, t, v = frame3(c, w, "ITRS", n, us, "r")
    x, y, z = (rdiv(rmul(core.to_real(el(k, i)), us.size), size_of(u.km)) for k in v)
    a, e2 = ellipsoid(w)
    p = rsqrt(radd(rmul(x, x), rmul(y, y)))
    c.loop_spec = spec = Fixpoint()
    r = w.get(TR)._altitude(pos)
    c.loop_spec = None
    c.cover("reached")
    shape_is(c, "one altitude per time", r, n)
    vals = [core.to_real(el(o, i)) for k, o in sorted(getattr(spec, "last", {}).items()) if isinstance(o, Arr) and o.ndim == 1 and o._dtype == "f"]
    for lat in vals:
        hgt = rsub(radd(rmul(p, COS(lat)), rmul(z, SIN(lat))), rmul(a, W(e2, SIN(lat))))
        for phi in vals:
            num = radd(z, rdiv(rmul(rmul(e2, a), SIN(phi)), W(e2, SIN(phi))))
            if c.alg.is_zero(lat - ATAN2(core.to_real(num), core.to_real(p))) and c.try_prove(AND(lat - phi <= F("1e-9"), phi - lat <= F("1e-9"))):
                return c.prove("the height at the fixed point", eq(el(r, i), hgt))
    c.undecided("the height at the fixed point")


@unit("C10", "other frames are rejected", ["_wgs84_to_itrs", "_itrs_to_wgs84", "_altitude"])
def reject(c):
    w, u, ua, ul = setup(c)
    n = length(c)
    c.cover("reached")
    T = w.get(TR)
    t = sym_array(c, "t", n)
    fr = dict(ITRS=frame3(c, w, "ITRS", n, u.km, "r")[0], GCRS=frame3(c, w, "GCRS", n, u.km, "s")[0],
              WGS84=w.get(FR + "wgs84").WGS84(t, t, t, t, u.deg, u.km))
    for k, o in fr.items():
        if k != "WGS84":
            raises(c, "only WGS84 converts to ITRS", ValueError, lambda: T._wgs84_to_itrs(o))
        if k != "ITRS":
            raises(c, "only ITRS converts to WGS84", ValueError, lambda: T._itrs_to_wgs84(o))
    raises(c, "only ITRS converts to WGS84", ValueError, lambda: T._itrs_to_wgs84(t))
