from vc.gl import *

SAT = "celest.satellite"
ROT = {}


def rot(k):
    """Component k of the GCRS vector of an ITRS vector, a function of time and vector (contract of _itrs_to_gcrs: C09)."""
    return ROT.setdefault(k, z3.Function("gcrs_" + k, *([z3.RealSort()] * 5)))


def itrs_to_gcrs(real):
    def f(itrs):
        if type(itrs).__name__ != "ITRS":
            raise ValueError("not in the ITRS frame")
        w = WORLD[0]
        r = [npmodel.as_arr(q.data).reader() for q in (itrs.time, itrs.x, itrs.y, itrs.z)]
        n = npmodel.as_arr(itrs.x.data)._shape
        g = lambda k: Arr(n, lambda idx: rot(k)(*[core.to_real(q(idx)) for q in r]), None, "f")
        return w.get(FR + "gcrs").GCRS(itrs.time.data, g("x"), g("y"), g("z"), itrs.x.unit)
    return f


def lvlh_matrix(real):
    """Contract of _gcrs_to_lvlh_matrix (C12): axes of the position p and velocity v."""
    def f(P, V):
        P, V = npmodel.as_arr(P), npmodel.as_arr(V)
        c = sym.ctx()
        n = P._shape[0]
        m = [[z3.Function(c.name("axis"), z3.IntSort(), z3.RealSort()) for k in range(3)] for j in range(3)]
        rp, rv = P.reader(), V.reader()

        def fact(j):
            p, v = [[core.to_real(q((j, k))) for k in range(3)] for q in (rp, rv)]
            M = [[x(core.to_int(j)) for x in row] for row in m]
            h = cross(p, v)
            R, H = rsqrt(dot(p, p)), rsqrt(dot(h, h))
            E = [core.to_bool(eq(dot(M[a], M[b]), 1 if a == b else 0)) for a in range(3) for b in range(a, 3)]
            E += [core.to_bool(eq(x, y)) for x, y in zip(cross(M[0], M[1]), M[2])]
            E += [core.to_bool(eq(rmul(M[2][k], R), rneg(p[k]))) for k in range(3)]
            E += [core.to_bool(eq(rmul(M[1][k], H), rneg(h[k]))) for k in range(3)]
            E += [core.to_bool(eq(dot(M[a], p), (0, 0, rneg(R))[a])) for a in range(3)]
            return IMP(core.to_bool(rcmp(">", dot(h, h), 0)), AND(*E))
        c.assume_forall(raw(n), fact, "axes")
        A = Arr((n, 3, 3), lambda idx: pick(m, idx), None, "f")
        LAST.append((A, P, V))
        return A
    return f


def pick(m, idx):
    i, j, k = idx
    if not is_sym(j) and not is_sym(k):
        return m[int(j)][int(k)](core.to_int(i))
    raise Unsupported("symbolic axis index")


LAST, WORLD, RHO = [], [None], []


def lvlh(real):
    """Contract of _gcrs_to_lvlh (C12): the own position is (0, 0, -|r|)."""
    def f(gp, gv):
        if type(gp).__name__ != "GCRS" or type(gv).__name__ != "GCRS":
            raise ValueError("not in the GCRS frame")
        w, c = WORLD[0], sym.ctx()
        u = w.get("celest.units")
        r = [npmodel.as_arr(q.data).reader() for q in (gp.x, gp.y, gp.z)]
        v = [npmodel.as_arr(q.data).reader() for q in (gv.x, gv.y, gv.z)]
        n = npmodel.as_arr(gp.x.data)._shape
        L = w.get(FR + "lvlh").LVLH
        t = gp.time.to(u.jd2000)
        rho = z3.Function(c.name("radius"), z3.IntSort(), z3.RealSort())
        RHO.append(rho)

        def fact(j):
            p = [core.to_real(q((j,))) for q in r]
            return AND(rho(core.to_int(j)) >= 0, core.to_bool(eq(rmul(rho(core.to_int(j)), rho(core.to_int(j))), dot(p, p))), core.to_bool(eq(rho(core.to_int(j)), rsqrt(dot(p, p)))))
        c.assume_forall(raw(n[0]), fact, "radius")
        zero = Arr(n, lambda idx: Fraction(0), None, "f")
        P = L(t, zero, zero, Arr(n, lambda idx: rneg(rho(core.to_int(idx[0]))), None, "f"), gp.x.unit)
        vx, vz = (z3.Function(c.name("lvlh_v"), z3.IntSort(), z3.RealSort()) for _ in "xz")
        g = lambda h: Arr(n, lambda idx: h(core.to_int(idx[0])), None, "f")
        return P, L(t, g(vx), zero, g(vz), gv.x.unit)
    return f


def sat_world():
    del LAST[:], RHO[:]
    w = world(**{TR + ":_itrs_to_gcrs": itrs_to_gcrs, TR + ":_gcrs_to_lvlh_matrix": lvlh_matrix, TR + ":_gcrs_to_lvlh": lvlh})
    WORLD[0] = w
    return w


def setup(c, kind="f", below=False):
    w = sat_world()
    u = w.get("celest.units")
    us, uv, ug = unit_like(c, w, "s", u.km), unit_like(c, w, "v", u.km / u.s), unit_like(c, w, "g", u.km)
    n = length(c)
    i = c.index(n)
    loc, g = place(c, w, ug)
    pos, t, p = frame3(c, w, "ITRS", n, us, "r", kind)
    vel, tv, v = frame3(c, w, "ITRS", n, uv, "v", kind, t=t)
    T = core.to_real(el(t, i))
    km = lambda un: rdiv(un.size, size_of(u.km))
    R = [rmul(rot(k)(T, *[core.to_real(el(x, i)) for x in p]), km(us)) for k in "xyz"]
    V = [rmul(rot(k)(T, *[core.to_real(el(x, i)) for x in v]), rdiv(uv.size, size_of(u.m / u.s))) for k in "xyz"]
    G = [rot(k)(T, *[core.to_real(rmul(x, km(ug))) for x in g]) for k in "xyz"]
    h = cross(R, V)
    c.assume(rcmp(">", dot(R, R), 0))
    c.assume(rcmp(">", dot(h, h), 0))
    return w, u, n, i, pos, vel, loc, t, R, V, G


def attitude(c, w, u, n, i, pos, vel, loc, t, R, G):
    sat = w.get(SAT).Satellite(pos, vel)
    a = sat.attitude(loc)
    for r in RHO:
        c.alg.declare_nonneg(r(i))
    c.alg.declare_nonneg(pos.x.unit.size)
    if not c.holds("an attitude is returned", isinstance(a, w.get(FR + "attitude").Attitude)):
        return None
    for m in ("roll", "pitch", "yaw"):
        shape_is(c, "one %s per time" % m, getattr(a, m).data, n)
    shape_is(c, "one time per attitude", a.time.data, n)
    c.prove("tagged with the satellite's times", eq(rmul(el(a.time.data, i), size_of(a.time.unit)), rmul(el(t, i), size_of(u.jd2000))))
    c.holds("tagged with the location", a.location is loc)
    if len(LAST) != 1:
        c.undecided("one set of axes")
        return None
    M = [[core.to_real(el(LAST[0][0], i, j, k)) for k in range(3)] for j in range(3)]
    los = sub(G, R)
    d = [dot(M[j], los) for j in range(3)]
    return [rdiv(rmul(el(q.data, i), size_of(q.unit)), size_of(u.rad)) for q in (a.roll, a.pitch, a.yaw)], M, d


for kind in "fi":
    def pointing(c, kind=kind):
        c.alg.condition = None
        w, u, n, i, pos, vel, loc, t, R, V, G = setup(c, kind)
        c.cover("reached")
        r = attitude(c, w, u, n, i, pos, vel, loc, t, R, G)
        if r is None:
            return
        (ro, pi, ya), M, d = r
        A, P, W = LAST[0]
        for k in range(3):
            c.lemma("the axes are those of the satellite's position", eq(el(P, i, k), R[k]))
            c.lemma("the axes are those of the satellite's velocity", eq(el(W, i, k), V[k]))
        rho = rmul(RHO[0](i), rdiv(pos.x.unit.size, size_of(u.km)))
        own = [0, 0, rneg(rho)]
        e = [rsub(dot(M[j], G), own[j]) for j in range(3)]
        for j in range(3):
            c.lemma("the line of sight in the satellite's axes", eq(d[j], e[j]))
        D = rsqrt(dot(e, e))
        c.assume(rcmp(">", dot(e, e), 0))                     # not at the location
        g = [rdiv(x, D) for x in e]
        c.lemma("the line of sight is a unit vector", eq(dot(g, g), 1))
        c.assume(rcmp(">", g[2], -1))                         # not exactly behind
        gx, gy, gz = (core.to_real(x) for x in g)
        c.lemma("components of a unit vector", AND(gy >= -1, gy <= 1, gz <= 1))
        RO, PI_, YA = ASIN(gy), ATAN2(-gx, gz), ATAN2(-gx * gy / (1 + gz), 1 - gy * gy / (1 + gz))
        c.prove("roll is the arcsine of the y component", eq(ro, RO))
        c.prove("pitch is the arctangent of the other two", eq(pi, PI_))
        c.prove("yaw is that of the shortest rotation", eq(ya, YA))
        mu = c.real("mu")                                     # straight below: the same direction from the centre (conversions are linear: C09)
        c.assume(mu > 1)
        for k in range(3):
            c.assume(core.to_real(R[k]) == mu * G[k])
        for j in range(2):
            c.lemma("axes across the position", eq(dot(M[j], R), 0))
            c.lemma("scaled", eq(dot(M[j], R), rmul(mu, dot(M[j], G))))
            c.prove("straight below: the line of sight is along nadir", eq(e[j], 0))
    unit("C18", "angles, %s data" % ("real" if kind == "f" else "integer"), ["Satellite.attitude"], timeout=300)(pointing)


@unit("C18", "lemma: these angles point along the unit line of sight without twist", ["lemma"])
def lemma(c):
    """For any unit vector g with g_z > -1."""
    gx, gy, gz = (c.real("g" + m) for m in "xyz")
    c.assume(AND(gx * gx + gy * gy + gz * gz == 1, gz > -1))
    c.cover("reached")
    RO, PI_, YA = ASIN(gy), ATAN2(-gx, gz), ATAN2(-gx * gy / (1 + gz), 1 - gy * gy / (1 + gz))
    c.alg.condition = None
    c.lemma("y component in range", AND(gy >= -1, gy <= 1))
    c.prove("y: sin(roll)", SIN(RO) == gy)
    c.lemma("cosine of the roll", AND(COS(RO) >= 0, COS(RO) * COS(RO) == gx * gx + gz * gz))
    h = SQRT(gx * gx + gz * gz)
    c.lemma("cosine of the roll is the length of the rest", COS(RO) == h)
    c.prove("x: -cos(roll) sin(pitch)", -COS(RO) * SIN(PI_) == gx)
    c.prove("z: cos(roll) cos(pitch)", COS(RO) * COS(PI_) == gz)
    c.assume(AND(gx == 0, gy == 0))
    c.lemma("straight below", gz == 1)
    c.lemma("straight below: sine", SIN(RO) == 0)
    c.prove("straight below: no roll", RO == 0)
    c.prove("straight below: no pitch", PI_ == 0)
    c.prove("straight below: no yaw", YA == 0)


@unit("C18", "lemma: yaw adds no twist", ["lemma"])
def twist(c):
    """The rotation with these angles is the shortest one, R = 1 + [v] + [v]^2/(1 + c), v = nadir x line of sight."""
    c.alg.condition = None
    gx, gy, gz = (c.real("g" + m) for m in "xyz")
    c.assume(AND(gx * gx + gy * gy + gz * gz == 1, gz > -1, gy * gy < 1))
    c.cover("reached")
    YA = ATAN2(-gx * gy / (1 + gz), 1 - gy * gy / (1 + gz))
    vx, vy = -gy, gx
    direction(c, "yaw is the direction of the second column of the shortest rotation", SIN(YA), COS(YA), vx * vy / (1 + gz), 1 - vx * vx / (1 + gz))


@unit("C18", "velocity is required", ["Satellite.attitude", "Satellite.__init__"])
def novel(c):
    w, u, n, i, pos, vel, loc, t, R, V, G = setup(c)
    c.cover("reached")
    raises(c, "attitude without velocity", ValueError, lambda: w.get(SAT).Satellite(pos).attitude(loc))
    raises(c, "attitude without velocity", ValueError, lambda: w.get(SAT).Satellite(pos, None).attitude(loc))


for frame in ("ITRS", "GCRS", "WGS84"):
    def built(c, frame=frame):
        w = world(**{TR + ":_gcrs_to_itrs": lambda real: lambda g: ("converted", g)})
        u = w.get("celest.units")
        n = length(c)
        t = sym_array(c, "t", n)
        ok = frame3(c, w, "ITRS", n, u.km, "o")[0]
        a = [sym_array(c, "r" + k, n) for k in "xyz"]
        f = w.get(FR + "wgs84").WGS84(t, *a, u.deg, u.km) if frame == "WGS84" else frame3(c, w, frame, n, u.km, "r")[0]
        c.cover("reached")
        S = w.get(SAT).Satellite
        if frame == "WGS84":
            for bad in (f, t, None):
                raises(c, "position in another frame", ValueError, lambda: S(bad))
                if bad is not None:
                    raises(c, "velocity in another frame", ValueError, lambda: S(ok, bad))
            return
        conv = (lambda x: x is f) if frame == "ITRS" else (lambda x: isinstance(x, tuple) and x[0] == "converted" and x[1] is f)
        c.holds("position as given or converted", conv(S(f).position))
        c.holds("no velocity", S(f).velocity is None)
        c.holds("position as given or converted", conv(S(f, ok).position))
        c.holds("velocity as given or converted", conv(S(ok, f).velocity) and S(ok, f).position is ok)
    unit("C18", "satellite from %s data" % frame, ["Satellite.__init__"])(built)
