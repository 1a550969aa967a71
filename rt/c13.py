"""C13: frame conversion returns the requested frame, faithfully."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "all source and target frames x random data arrays and locations, the same-frame case, missing location, and invalid bases; distinct by frame pair and array length"


def cases(rng, tier):
    for b in ("None", "5", "array", "AzEl", "LVLH", "Attitude", "tuple", "class"):
        yield dict(k="bad", b=b)
    for i in range(1200 if tier == "quick" else 15000):
        n = rng.choice([1, 1, 2, 3, 5])
        P = [[rng.choice([6900, 42164, 7000, 6378]) * x for x in rand_dir(rng)] for _ in range(n)]
        yield dict(k="ok", src=rng.choice(["GCRS", "ITRS", "WGS84"]), t=[rand_t(rng) for _ in range(n)], p=P, loc=rand_loc(rng, pole=False), loc2=rand_loc(rng, pole=False), order=rng.sample(["GCRS", "ITRS", "WGS84", "AzEl", "AzEl2", "AzEl"], 6), lu=rng.choice(["km", "m"]), au=rng.choice(["deg", "rad"]))


def vals(f):
    from celest import units as u
    n = type(f).__name__
    if n == "WGS84":
        lat, lon, h = (np.asarray(q, float) for q in (f.latitude.to(u.deg), f.longitude.to(u.deg), f.height.to(u.km)))
        return ecef(lat, lon, h)
    if n == "AzEl":
        a, e = np.radians(np.asarray(f.azimuth.to(u.deg), float)), np.radians(np.asarray(f.elevation.to(u.deg), float))
        return 1e3 * np.array([np.cos(e) * np.sin(a), np.cos(e) * np.cos(a), np.sin(e)]).T
    return xyz(f, "km")


def check(c):
    F = frames()
    Co = need("celest.coordinates.coordinate", "Coordinate")
    from celest import units as u
    z = np.zeros(2)
    if c["k"] == "bad":
        loc = location([10, 20, 0, "deg", "km"])
        b = dict(AzEl=lambda: F["AzEl"](z, z, z, u.deg, loc), LVLH=lambda: F["LVLH"](z, z, z, z, u.km), Attitude=lambda: F["Attitude"](z, z, z, z, u.deg, loc),
                 array=lambda: np.zeros((2, 3)), tuple=lambda: (z, z, z), **{"None": lambda: None, "5": lambda: 5, "class": lambda: F["GCRS"]})[c["b"]]()
        raises(ValueError, lambda: Co(b), "Coordinate(%s)" % c["b"])
        return c["b"]
    t = np.array(c["t"])
    if c["src"] == "WGS84":
        P = np.array(c["p"])
        lat = np.degrees(np.arcsin(P[:, 2] / np.linalg.norm(P, axis=1)))
        lon = np.degrees(np.arctan2(P[:, 1], P[:, 0]))
        p = F["WGS84"](t, lat / ANG[c["au"]], lon / ANG[c["au"]], (np.linalg.norm(P, axis=1) - 6300) / LEN[c["lu"]], U(c["au"]), U(c["lu"]))
        get = lambda: [np.array(q.data) for q in (p.time, p.latitude, p.longitude, p.height)]
    else:
        p, _ = make3(F[c["src"]], t, np.array(c["p"]) / LEN[c["lu"]], c["lu"])
        get = lambda: [np.array(q.data) for q in (p.time, p.x, p.y, p.z)]
    keep = get()
    loc = location(c["loc"])
    itrs = p if c["src"] == "ITRS" else call("to ITRS", lambda: Co(p).convert_to(F["ITRS"]))
    for dst in ("GCRS", "ITRS", "WGS84", "AzEl"):
        r = call("%s to %s" % (c["src"], dst), lambda: Co(p).convert_to(F[dst], loc) if dst == "AzEl" else Co(p).convert_to(F[dst]))
        what = "%s to %s" % (c["src"], dst)
        expect(type(r) is F[dst], "%s returns a %s", what, type(r).__name__)
        expect(np.array_equal(times(r), keep[0]), "%s: times %r became %r", what, keep[0].tolist(), times(r).tolist())
        a = vals(r)
        expect(a.shape == (len(t), 3), "%s: %d samples became %r", what, len(t), a.shape)
        if dst == c["src"]:
            for x, y in zip(get(), keep):
                expect(np.array_equal(x, y), "%s changed the data", what)
            q = [r.latitude, r.longitude, r.height] if dst == "WGS84" else [r.x, r.y, r.z]
            expect(all(np.array_equal(x.data, y) for x, y in zip(q, keep[1:])), "%s does not return the same data", what)
            expect(repr(q[0].unit) == repr((p.latitude if dst == "WGS84" else p.x).unit), "%s changes the unit", what)
        elif dst == "ITRS":
            pass
        else:
            b = Co(itrs).convert_to(F[dst], loc) if dst == "AzEl" else Co(itrs).convert_to(F[dst])
            tol = 1e-9 * np.linalg.norm(vals(b), axis=1)[:, None] + (1e-4 if dst == "AzEl" else 1e-6)
            expect(near(a, vals(b), tol), "%s of %r differs from the conversion through ITRS: %r, %r", what, c["p"], a.tolist(), vals(b).tolist())
        if dst == "AzEl":
            expect(r.location is loc or vars(r.location) == vars(loc), "%s carries another location", what)
        expect(all(np.array_equal(x, y) for x, y in zip(get(), keep)), "%s modified its input", what)
    raises(ValueError, lambda: Co(p).convert_to(F["AzEl"]), "%s to AzEl without location" % c["src"])
    # one coordinate object, converted again and again
    one, loc2 = Co(p), location(c["loc2"])
    for dst in c["order"]:
        l = loc2 if dst.endswith("2") else loc
        d = dst.rstrip("2")
        a = call("%s to %s" % (c["src"], d), lambda: one.convert_to(F[d], l) if d == "AzEl" else one.convert_to(F[d]))
        b = Co(p).convert_to(F[d], l) if d == "AzEl" else Co(p).convert_to(F[d])
        expect(type(a) is F[d] and np.array_equal(vals(a), vals(b)) and np.array_equal(times(a), times(b)), "%s to %s after other conversions of the same object (%r) differs from a fresh conversion", c["src"], d, c["order"])
        if d == "AzEl":
            expect(a.location is l or vars(a.location) == vars(l), "AzEl after other conversions carries another location")
    # the conversion agrees with the geometry
    if c["src"] == "WGS84":
        expect(near(vals(itrs), ecef(lat, lon, np.linalg.norm(P, axis=1) - 6300), 1e-4), "WGS84 %r to ITRS is %r", keep[1:], vals(itrs).tolist())
    else:
        w = Co(p).convert_to(F["WGS84"])
        expect(near(vals(w), xyz(itrs, "km"), 1e-4), "%s to WGS84 is another point than its ITRS position", c["src"])
    return c["src"], len(t), c["lu"]
