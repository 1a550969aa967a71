"""C19: visible time windows are exactly the visibility intervals."""
import itertools
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "every visibility pattern of up to 5 samples and random longer ones, x sun patterns x lighting condition x threshold (incl. exactly an elevation), and invalid arguments; distinct by pattern, lighting, threshold kind"


def cases(rng, tier):
    for th in (-1e-9, -5, 90.0000001, 180, -90):
        yield dict(k="bad", th=th)
    yield dict(k="lighting")
    yield dict(k="novel")
    for n in range(1, 6 if tier == "quick" else 8):
        for p in itertools.product((0, 1), repeat=n):
            yield dict(k="ok", vis=list(p), sun=None, light="ANYTIME", th=10, loc=rand_loc(rng, pole=False), seed=rng.randint(0, 10**6))
    for n in range(1, 4):
        for p in itertools.product((0, 1), repeat=n):
            for s in itertools.product((0, 1), repeat=n):
                for l in ("DAYTIME", "NIGHTTIME"):
                    yield dict(k="ok", vis=list(p), sun=list(s), light=l, th=rng.choice([0, 10, 45, 80]), loc=rand_loc(rng, pole=False), seed=rng.randint(0, 10**6))
    for i in range(900 if tier == "quick" else 15000):
        n = rng.choice([1, 2, 4, 7, 12, 30])
        q = rng.choice([.2, .5, .8, 1, 0])
        q2 = rng.choice([.3, .7, 1, 0])
        l = rng.choice(["ANYTIME", "DAYTIME", "NIGHTTIME", "DAYTIME", "NIGHTTIME"])
        yield dict(k="ok", vis=[int(rng.random() < q) for _ in range(n)], sun=None if l == "ANYTIME" else [int(rng.random() < q2) for _ in range(n)], light=l,
                   th=rng.choice([0, 0.5, 10, 30, 60, 89, "exact", "exact"]), loc=rand_loc(rng, pole=False), seed=rng.randint(0, 10**6))


class Kernel:
    def __init__(self, sun, r):
        n = sun.shape[1]
        e, m = r.uniform(-1e8, 1e8, (3, n)), r.uniform(-4e5, 4e5, (3, n))
        self.d = {(0, 10): sun + e + m, (0, 3): e, (3, 399): m}

    def __getitem__(self, key):
        d = self.d[key]

        class Seg:
            def compute(self, jd, *a):
                return d
        return Seg()

    def close(self):
        pass


def check(c):
    F = frames()
    Sat = need("celest.satellite", "Satellite")
    gen, Light = need("celest.encounter.window_generator", "generate_vtws", "Lighting")
    WC = need("celest.encounter.window_handling", "WindowCollection")
    Co = need("celest.coordinates.coordinate", "Coordinate")
    from celest import units as u
    loc = location(c.get("loc", [43.65, -79.38, 0, "deg", "km"]))
    r = np.random.RandomState(c.get("seed", 0))
    vis = c.get("vis", [1, 0, 1])
    n = len(vis)
    th = c.get("th", 10)
    g = np.array([float(q.to(u.km)) for q in (loc.itrs_x, loc.itrs_y, loc.itrs_z)])
    up = g / np.linalg.norm(g)
    north = np.array([0, 0, 1.]) - up[2] * up
    north /= np.linalg.norm(north)
    east = np.cross(north, up)

    def place(az, el, d):
        az, el = np.radians(az), np.radians(el)
        return g + d * (np.cos(el) * (np.sin(az) * east + np.cos(az) * north) + np.sin(el) * up)
    t = np.cumsum(r.uniform(1e-4, 1e-2, n)) + 2455368.75
    base = 40.0 if th == "exact" else float(th)
    P, E = [], []
    for v in vis:
        el = base + r.uniform(.01, max(.02, 90 - base)) * .99 if v else max(base - r.uniform(.01, 60), -89)
        P.append(place(r.uniform(0, 360), el, r.uniform(500, 3000)))
    P = np.array(P)
    p, _ = make3(F["ITRS"], t, P, "km")
    v, _ = make3(F["ITRS"], t, r.uniform(-7, 7, (n, 3)), "km/s")
    if c["k"] == "novel":
        try:
            gen(Sat(p), loc, 10, Light.ANYTIME)
        except (Exception, Warning):
            return c["k"]
        raise Bad("a satellite without velocity is accepted")
    s = Sat(p, v)
    if c["k"] == "bad":
        raises(ValueError, lambda: gen(s, loc, th, Light.ANYTIME), "threshold %r" % th)
        return c["k"], th
    if c["k"] == "lighting":
        for b in (7, "DAY", None, 2):
            try:
                gen(s, loc, 10, b)
            except Exception:
                continue
            raise Bad("lighting %r is accepted" % (b,))
        return c["k"]
    ok = list(vis)
    if th == "exact":
        el = np.asarray(Co(s.position).convert_to(F["AzEl"], loc).elevation.to(u.deg), float)
        cand = [x for x in el if 0 <= x <= 90]
        if not cand:
            raise Skip("nothing above the horizon")
        th = float(cand[r.randint(len(cand))])
        ok = [int(x > th) for x in el]
    if c["light"] != "ANYTIME":
        import importlib
        wg = importlib.import_module("celest.encounter.window_generator")
        sun = np.array([place(r.uniform(0, 360), (r.uniform(1, 80) if r.rand() < .6 else r.uniform(1e-3, 1)) * (1 if q else -1), 1.5e8) for q in c["sun"]])
        sg, _ = make3(F["ITRS"], t, sun, "km")
        sun = xyz(Co(sg).convert_to(F["GCRS"]), "km").T
        ok = [a and (q if c["light"] == "DAYTIME" else 1 - q) for a, q in zip(ok, c["sun"])]
        if not hasattr(wg, "SPK"):
            raise Skip("the ephemeris is not read through SPK")

        class SPK:
            @staticmethod
            def open(path):
                return Kernel(sun, r)

            @staticmethod
            def close(k):
                pass
        old = wg.SPK
        wg.SPK = SPK
        try:
            W = call("generate_vtws", gen, s, loc, th, getattr(Light, c["light"]))
        finally:
            wg.SPK = old
    else:
        W = call("generate_vtws", gen, s, loc, th, Light.ANYTIME)
        W2 = call("generate_vtws", gen, s, loc, th)
        expect(len(W2) == len(W), "the default lighting differs from ANYTIME")
    want = []
    for k in range(n):
        if ok[k] and (k == 0 or not ok[k - 1]):
            e = k
            while e + 1 < n and ok[e + 1]:
                e += 1
            want.append((t[max(k - 1, 0)], t[e]))
    expect(isinstance(W, WC), "generate_vtws returns a %r", type(W))
    got = [(float(w.rise_time.to(u.jd2000)), float(w.set_time.to(u.jd2000))) for w in list(W)]
    idx = lambda L: [tuple(int(np.argmin(np.abs(t - x))) for x in w) for w in L]
    expect(got == want, "threshold %r %s: qualifying samples %r (visible %r, Sun up %r) give windows (samples) %r, expected %r", th, c["light"], ok, vis, c["sun"], idx(got), idx(want))
    expect(np.array_equal(times(s.position), t), "the satellite was modified")
    return str(ok) if n < 6 else n, len(want), c["light"], c["th"] == "exact"
