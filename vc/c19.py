"""Visible time windows for any number of samples and any pattern of visibility and lighting."""
from vc.sl import *

WG = "celest.encounter.window_generator"
CO = "celest.coordinates.coordinate"
SA = "celest.satellite"
EPH = z3.Function("ephemeris", INT, INT, INT, REAL, REAL)


class Kernel:
    """The ephemeris: for every pair of bodies and every time a vector, nothing else known of it."""

    def __init__(self, load):
        class Segment:
            def __init__(self, a, b):
                self.a, self.b = raw(a), raw(b)

            def compute(self, t):
                t = npmodel.as_arr(t)
                r = t.reader()
                return Arr((3, t._shape[0]), lambda idx: EPH(I(self.a), I(self.b), I(idx[0]), core.to_real(r((idx[1],)))), None, "f")
        self.Segment = Segment

    def __getitem__(self, k):
        return self.Segment(*k)

    def close(self):
        pass


class Runs(loops.Spec):
    """The windows are collected by a loop over candidate runs; q is an arbitrary one."""
    allow_for = lists = True

    def __init__(self, q):
        self.q, self.over = q, None

    def watch(self, s):
        c = core.CTX
        if self.over is not None:
            raise Unsupported("windows collected in another way")
        self.over = s
        c.assume(AND(*[AND(q >= 0, q < I(s.n)) for q in self.q]))
        return self.q


def first_last(g):
    m = raw(g._shape[0])
    return I(m), I(raw(g.at(0))), I(raw(g.at(isub(m, 1))))


def isub(a, b):
    return arr.isub(a, b)


def problem(c, sun=True):
    """A satellite with n samples, its elevation and the Sun's at a location."""
    n = length(c)
    i = c.index(n)
    fr = {}
    E = {k: z3.Function(c.name(k), INT, REAL) for k in ("elevation", "sun_elevation")}
    token = object()

    def convert(real):
        """Contract of Coordinate.convert_to (C13): the azimuth and elevation of the base position from the location."""
        def convert_to(self, frame, location=None):
            base = next((v for v in vars(self).values() if hasattr(v, "time")), None)
            if not c.holds("azimuth and elevation are asked for", frame is fr["AzEl"]) or not c.holds("as seen from the location", location is fr["loc"]):
                raise PathEnd()
            if base is fr["pos"]:
                k = "elevation"
            else:
                k = "sun_elevation"
                the_sun(c, fr, base, n, i)
            s = fr["unit"]
            a = lambda f: Arr((n,), lambda idx: f(I(idx[0])), None, "f")
            return frame(base.time.to(fr["u"].jd2000), a(z3.Function(c.name("azimuth"), INT, REAL)), a(E[k]), s, location)
        return convert_to

    def att(real):
        def attitude(self, location):
            c.holds("the attitude towards the location", location is fr["loc"])
            return token
        return attitude

    def add(real):
        """Contract of WindowCollection.add_window for visible time windows (C20)."""
        def add_window(self, window):
            if type(window).__name__ != "VisibleTimeWindow":
                c.fail("only visible time windows are collected", type(window).__name__)
                raise PathEnd()
            self._window_data.append(window)
        return add_window
    w = world(**{CO + ":Coordinate.convert_to": convert, SA + ":Satellite.attitude": att, WH + ":WindowCollection.add_window": add})
    load.SPKModel.open = staticmethod(lambda *a: Kernel(None))
    u = w.get("celest.units")
    fr.update(u=u, AzEl=w.get(FR + "azel").AzEl, unit=unit_like(c, w, "a", u.deg))
    fr["pos"], T, _ = frame3(c, w, "ITRS", n, unit_like(c, w, "d", u.km), "p")
    fr["T"] = T
    vel, _, _ = frame3(c, w, "ITRS", n, unit_like(c, w, "v", u.km / u.s), "v", t=T)
    fr["loc"], _ = place(c, w, unit_like(c, w, "g", u.km))
    sat = w.get(SA).Satellite(fr["pos"], vel)
    return w, u, n, i, T, E, fr, sat, vel


def the_sun(c, fr, base, n, i):
    """The other position is the Sun's from the Earth's centre, in GCRS."""
    u = fr["u"]
    if not c.holds("the Sun's position is in the celestial frame", type(base).__name__ == "GCRS"):
        raise PathEnd()
    t = core.to_real(el(fr["T"], i))
    for k, q in enumerate((base.x, base.y, base.z)):
        shape_is(c, "one Sun position per sample", q.data, n)
        want = EPH(0, 10, k, t) - (EPH(0, 3, k, t) + EPH(3, 399, k, t))
        c.prove("the Sun's position from the Earth's centre", eq(rdiv(rmul(el(q.data, i), size_of(q.unit)), size_of(u.km)), want))
    c.prove("at the time of the sample", eq(rdiv(rmul(el(base.time.data, i), size_of(base.time.unit)), size_of(u.jd2000)), t))


def places(c, n):
    """The positions of the qualifying samples, and those of the gaps between them."""
    P = [p for p in c.made if is_sym(p.n0) and c.implied(I(p.n0) == n)]
    C = [p for p in c.made if is_sym(p.n0) and not c.implied(I(p.n0) == n)]
    if not P or not C:
        raise Unsupported("runs found in another way")
    return P[-1], C[-1]


def find(c, P, j):
    """Where position j stands, if it is one."""
    k = c.int("where")
    c.register_index(j, P.n0)
    c.assume(k == P.g(j))
    P.at(k)
    return k


def generated(c, light):
    w, u, n, i, T, E, fr, sat, _ = problem(c)
    m = w.get(WG)
    L = getattr(m.Lighting, light)
    thr = c.real("threshold")
    c.assume(AND(thr >= 0, thr <= 90))
    s = size_of(fr["unit"])
    deg = lambda f, j: core.to_real(rdiv(rmul(f(I(j)), s), size_of(u.deg)))

    def ok(j):
        v = deg(E["elevation"], j) > thr
        x = deg(E["sun_elevation"], j)
        return v if light == "ANYTIME" else AND(v, x > 0 if light == "DAYTIME" else x < 0)
    q1, q2 = c.int("run"), c.int("later")
    spec = c.loop_spec = Runs([q1, q2])
    out = m.generate_vtws(sat, fr["loc"], wrap(thr), L)
    c.loop_spec = None
    c.cover("generated")
    if not c.holds("a window collection is returned", isinstance(out, w.get(WH).WindowCollection)):
        raise PathEnd()
    lst = out._window_data
    fill = getattr(lst, "filled", None)
    S = spec.over
    if fill is None or fill.rank is None or S is None or lst.seq is not fill.start:
        raise Unsupported("windows collected in another way")
    c.prove("collections start empty", eq(fill.base.n, 0))
    if not isinstance(S.get(q1), Arr) or not getattr(c, "made", None):
        raise Unsupported("runs in another form")
    return n, S, ok, q1, q2, fill, T, u


def windows(light):
    def h(c):
        n, S, ok, q1, q2, fill, T, u = generated(c, light)
        g = S.get(q1)
        x = c.int("between")
        ln, a, b = first_last(g)
        t = lambda j: core.to_real(el(T, j))
        mine = [v for j, v in fill.known if is_sym(j) and j.eq(q1)]
        if not mine:
            c.prove("only an empty run contributes no window", ln <= 0)
            c.prove("an empty run contributes nothing", fill.rank(q1 + 1) == fill.before(q1))
        else:
            c.prove("an empty run contributes no window", ln > 0)
            o = mine[0]
            c.prove("a run consists of samples", AND(a >= 0, a <= b, b < n))
            P, C = places(c, n)
            for j in (a - 1, b + 1):
                c.register_index(j, n)
                find(c, P, j)
            for k in (P.g(a) - 1, P.g(b)):
                P.at(k)
                P.at(k + 1)
                find(c, C, k)
            q = lambda v: core.to_real(rdiv(rmul(raw(v.data), size_of(v.unit)), size_of(u.jd2000)))
            c.prove("the window ends at the run's last sample", q(o.set_time) == t(b))
            c.prove("the window starts at the sample before the run", IMP(a > 0, q(o.rise_time) == t(a - 1)))
            c.prove("the window starts at the first sample if the run does", IMP(a == 0, q(o.rise_time) == t(a)))
            c.prove("the run starts and ends with a qualifying sample", AND(ok(a), ok(b)))
            c.prove("the run cannot be extended backwards", z3.Or(a == 0, NOT(ok(a - 1))))
            c.prove("the run cannot be extended forwards", z3.Or(b == n - 1, NOT(ok(b + 1))))
            c.assume(AND(x >= a, x <= b))
            c.register_index(x, n)
            find(c, C, P.rank(x) - 1)
            c.prove("every sample of a run qualifies", ok(x))
    return h


def order(light):
    def h(c):
        n, S, ok, q1, q2 = generated(c, light)[:5]
        P, C = places(c, n)
        l1, a1, b1 = first_last(S.get(q1))
        l2, a2, b2 = first_last(S.get(q2))
        c.assume(AND(q1 < q2, l1 > 0, l2 > 0))
        c.cover("two runs")
        c.prove("windows are in increasing order of their runs, which are disjoint", b1 < a2)
    return h


def complete(light):
    def h(c):
        n, S, ok = generated(c, light)[:3]
        P, C = places(c, n)
        r = c.int("start")
        c.assume(AND(r >= 0, r < n))
        c.register_index(r, n)
        c.register_index(r - 1, n)
        c.assume(AND(ok(r), z3.Or(r == 0, NOT(ok(r - 1)))))
        c.cover("a run starts")
        k = find(c, P, r)
        P.at(k - 1)
        j = find(c, C, k - 1)
        q = c.int("its_run")
        c.assume(q == z3.If(k == 0, z3.IntVal(0), j + 1))
        c.prove("there is an iteration for every run", AND(q >= 0, q < I(S.n)))
        c.assume(AND(q >= 0, q < I(S.n)))
        g = S.get(q)
        ln, a, b = first_last(g)
        c.prove("no run is empty", ln > 0)
        c.prove("every maximal run is considered", a == r)
    return h


for light in ("ANYTIME", "DAYTIME", "NIGHTTIME"):
    unit("C19", "runs and windows, %s" % light.lower(), ["generate_vtws", "_lighting_constraint_indices", "_get_sun_elevation", "_get_sun_gcrs"])(windows(light))
    unit("C19", "order of the windows, %s" % light.lower(), ["generate_vtws"])(order(light))
    unit("C19", "no run is missed, %s" % light.lower(), ["generate_vtws"])(complete(light))


@unit("C19", "a satellite without velocity", ["generate_vtws"])
def no_velocity(c):
    w, u, n, i, T, E, fr, sat, vel = problem(c)
    m = w.get(WG)
    s = w.get(SA).Satellite(fr["pos"])
    c.cover("without velocity")
    raises(c, "satellites without velocity are rejected", Exception, lambda: m.generate_vtws(s, fr["loc"], wrap(c.real("threshold")), m.Lighting.ANYTIME))


@unit("C19", "thresholds", ["generate_vtws"])
def threshold(c):
    w, u, n, i, T, E, fr, sat, vel = problem(c)
    m = w.get(WG)
    t = c.real("threshold")
    c.assume(z3.Or(t < 0, t > 90))
    c.cover("outside")
    raises(c, "thresholds outside [0, 90] degrees are rejected", ValueError, lambda: m.generate_vtws(sat, fr["loc"], wrap(t)))


@unit("C19", "lighting conditions", ["generate_vtws", "_lighting_constraint_indices"])
def unknown(c):
    w, u, n, i, T, E, fr, sat, vel = problem(c)
    m = w.get(WG)
    t = c.real("threshold")
    c.assume(AND(t >= 0, t <= 90))
    for x in (5, -1, 0, 1, "day", None, "DAYTIME", 2.5, m.Lighting):
        raises(c, "unknown lighting is rejected", (ValueError, TypeError), lambda: m.generate_vtws(sat, fr["loc"], wrap(t), x))
    c.cover("rejected")
