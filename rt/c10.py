"""C10: geodetic and Earth-fixed coordinates describe the same point."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "latitude/longitude/height arrays (poles, equator, date line, negative and huge heights, mixed) in every angle and length unit, and ITRS points from all octants and axes; distinct by direction, units and octant"


def cases(rng, tier):
    N = 1500 if tier == "quick" else 20000
    lats = [0, 90, -90, 45, -45, 1e-9, 89.9999999, -89.9999999, 30, -60]
    lons = [0, 180, -180, 90, -90, 45, -135, 179.999999]
    hs = [0, -0.5, -1000, 400, 35786, 1e6, 8.848, 1]
    for i in range(N):
        n = rng.choice([1, 1, 2, 3, 5])
        P = [[rng.choice(lats + [rng.uniform(-90, 90)] * 8), rng.choice(lons + [rng.uniform(-180, 180)] * 8), rng.choice(hs + [rng.uniform(-1000, 50000)] * 4)] for _ in range(n)]
        yield dict(k="W", p=P, au=rng.choice(list(ANG)), lu=rng.choice(list(LEN)))
    for i in range(N):
        n = rng.choice([1, 1, 2, 3, 5])
        P = []
        for _ in range(n):
            d = rand_dir(rng) if rng.random() < .6 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [.6, .8, 0], [-.6, 0, .8], [0, -.6, -.8], [1e-7, 0, 1], [0, -1e-9, -1]])
            r = rng.choice([5400, 6378.137, 6356.752314245, 6378, 6371, 7000, 42164, 1e6, rng.uniform(5400, 8000)])
            P.append([r * x for x in d])
        yield dict(k="I", p=P, lu=rng.choice(["km", "m", "mi", "ft"]), kind=rng.choice("fffi"))


def check(c):
    F = frames()
    Co = need("celest.coordinates.coordinate", "Coordinate")
    from celest import units as u
    if c["k"] == "W":
        lat, lon, h = np.array(c["p"], float).T
        t = 2451545.0 + np.arange(len(lat))
        w = call("WGS84", F["WGS84"], t, lat / ANG[c["au"]], lon / ANG[c["au"]], h / LEN[c["lu"]], U(c["au"]), U(c["lu"]))
        keep = [np.array(x.data) for x in (w.time, w.latitude, w.longitude, w.height)]
        i = call("convert_to", lambda: Co(w).convert_to(F["ITRS"]))
        expect(isinstance(i, F["ITRS"]) and np.array_equal(times(i), t), "conversion to ITRS lost the frame or times")
        want, got = ecef(lat, lon, h), xyz(i, "km")
        tol = 1e-9 * (np.abs(h) + A_KM)
        expect(got.shape == want.shape and np.all(np.abs(got - want) <= tol[:, None]), "WGS84 %r -> ITRS %r, expected %r", c["p"], got.tolist(), want.tolist())
        check_same_arrays([x.data for x in (w.time, w.latitude, w.longitude, w.height)], keep, "conversion")
        for k, (la, lo, hh) in enumerate(c["p"]):
            g = location([la, lo, hh, c["au"] if abs(la) < 90 and abs(lo) < 180 else "deg", c["lu"]])
            gx = [float(x.to(u.km)) for x in (g.itrs_x, g.itrs_y, g.itrs_z)]
            expect(near(gx, got[k], tol[k]), "ground location %r is at %r but WGS84 gives %r", [la, lo, hh], gx, got[k].tolist())
        return c["k"], c["au"], c["lu"], len(lat)
    P = np.array(c["p"], float) / LEN[c["lu"]]
    if c["kind"] == "i":
        P = np.trunc(P)
        if c["lu"] == "mi" and np.any(np.linalg.norm(P * LEN["mi"], axis=1) < 5360):
            raise Skip("rounded into the core")
    t = 2451545.0 + np.arange(len(P))
    p, arrs = make3(F["ITRS"], t, P, c["lu"], c["kind"])
    keep = [a.copy() for a in arrs]
    w = call("convert_to", lambda: Co(p).convert_to(F["WGS84"]))
    expect(isinstance(w, F["WGS84"]) and np.array_equal(times(w), t), "conversion to WGS84 lost the frame or times")
    lat, lon, h = (np.asarray(x, float) for x in (w.latitude.to(u.deg), w.longitude.to(u.deg), w.height.to(u.km)))
    K = np.array(keep[1:], float).T * LEN[c["lu"]]
    if c["lu"] == "ft":
        K = np.array(keep[1:], float).T * U("ft").scale / 1000
    r = np.linalg.norm(K, axis=1)
    expect(lat.shape == (len(P),) and np.all(np.abs(lat) <= 90 + 1e-9) and np.all(np.abs(lon) <= 180 + 1e-9), "ITRS %r gives latitude %r longitude %r", c["p"], lat.tolist(), lon.tolist())
    back = ecef(lat, lon, h)
    expect(near(back, K, (2e-9 * r + 1e-8)[:, None]), "ITRS %r -> WGS84 %r which is the point %r", K.tolist(), [lat.tolist(), lon.tolist(), h.tolist()], back.tolist())
    lib = xyz(Co(w).convert_to(F["ITRS"]), "km")
    expect(near(lib, K, (2e-9 * r + 1e-8)[:, None]), "ITRS %r there and back gives %r", K.tolist(), lib.tolist())
    check_same_arrays(arrs, keep, "conversion")
    Sat = need("celest.satellite", "Satellite")
    a = call("altitude", lambda: np.asarray(Sat(p).altitude().to(u.km), float))
    expect(near(a, h, 1e-6 + 1e-9 * r), "altitude of %r is %r but the geodetic height is %r", c["p"], a.tolist(), h.tolist())
    k = len(P) - 1
    one, _ = make3(F["ITRS"], t[k:], P[k:], c["lu"], c["kind"])
    w1 = Co(one).convert_to(F["WGS84"])
    expect(abs(float(w1.latitude.to(u.deg)[0]) - lat[k]) < 1e-8 and abs(float(w1.height.to(u.km)[0]) - h[k]) < 1e-6, "sample %d of %r converts differently alone", k, c["p"])
    return c["k"], c["lu"], c["kind"], tuple(np.sign(np.round(P[0])).tolist()), len(P)
