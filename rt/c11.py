"""C11: azimuth and elevation have the right range and meaning everywhere."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "locations (both hemispheres, equator, date line, near poles, any unit) x target arrays (all directions, cardinal, overhead, underfoot, close and far); distinct by location quadrant and azimuth/elevation octant"


def cases(rng, tier):
    for i in range(4000 if tier == "quick" else 50000):
        loc = rand_loc(rng, pole=False)
        if rng.random() < .1:
            loc[0], loc[3] = rng.choice([1e-9, -1e-9, 89.99, -89.99]), "deg"
        T = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.random()
            if k < .15:
                T.append(["up", rng.choice([1.0, 1.5, 2, 0.5, 0.25, 6, -1.0])])
            elif k < .6:
                T.append(["enu", rng.choice([0.01, 45, 90, 135, 180, 225, 270, 315, 359.99, rng.uniform(0, 360)]), rng.choice([0.0, 10, -30, 80, 89.9, -89, rng.uniform(-89, 89)]), rng.choice([1, 500, 40000])])
            else:
                T.append(["xyz"] + [rng.choice([7000, 42000, 400, 6378]) * x for x in rand_dir(rng)])
        yield dict(loc=loc, t=T, unit=rng.choice(["km", "m", "km"]))


def check(c):
    F = frames()
    Co = need("celest.coordinates.coordinate", "Coordinate")
    from celest import units as u
    loc = location(c["loc"])
    g = np.array([float(q.to(u.km)) for q in (loc.itrs_x, loc.itrs_y, loc.itrs_z)])
    expect(near(g, loc_xyz(c["loc"]), 1e-5), "ground location %r is at %r", c["loc"], g.tolist())
    up = g / np.linalg.norm(g)
    north = np.array([0, 0, 1.]) - up[2] * up
    north /= np.linalg.norm(north)
    east = np.cross(north, up)
    P, exact = [], []
    for t in c["t"]:
        exact.append(0)
        if t[0] == "up":
            P.append(g * (1 + t[1]))
            exact[-1] = 1 if t[1] > 0 else -1
        elif t[0] == "enu":
            a, e = np.radians(t[1]), np.radians(t[2])
            P.append(g + t[3] * (np.cos(e) * (np.sin(a) * east + np.cos(a) * north) + np.sin(e) * up))
        else:
            P.append(np.array(t[1:]))
    P = np.array(P)
    if c["unit"] == "m":
        P = P * 1000
    f, arrs = make3(F["ITRS"], 2451545.0 + np.arange(len(P)), P, c["unit"])
    keep = [a.copy() for a in arrs]
    r = call("convert_to(AzEl)", lambda: Co(f).convert_to(F["AzEl"], loc))
    az, el = np.asarray(r.azimuth.to(u.deg), float), np.asarray(r.elevation.to(u.deg), float)
    expect(az.shape == el.shape == (len(P),) and np.array_equal(times(r), keep[0]), "%d targets give shapes %r %r", len(P), az.shape, el.shape)
    check_same_arrays(arrs, keep, "conversion")
    los = (P / 1000 if c["unit"] == "m" else P) - g
    d = np.linalg.norm(los, axis=1)
    we = 90 - angle(los, np.broadcast_to(up, los.shape))
    e_, n_ = los @ east, los @ north
    wa = np.degrees(np.arctan2(e_, n_)) % 360
    for k in range(len(P)):
        if d[k] < 1e-3:
            continue
        who = "target %r from %r" % (c["t"][k], c["loc"])
        expect(np.isfinite(el[k]) and -90 <= el[k] <= 90, "%s has elevation %r", who, el[k])
        expect(abs(el[k] - we[k]) < 1e-5, "%s has elevation %r, expected %r", who, el[k], we[k])
        hor = np.hypot(e_[k], n_[k]) / d[k]
        # -1e-17 % 360 is 360.0 in machine arithmetic: not counted
        edge = 1e-9 if hor < 1e-9 or min(wa[k], 360 - wa[k]) < 1e-6 else 0
        expect(np.isfinite(az[k]) and 0 <= az[k] < 360 + edge, "%s has azimuth %r", who, az[k])
        if hor > 1e-5:
            dd = abs(az[k] - wa[k]) % 360
            expect(min(dd, 360 - dd) < 1e-6 / hor, "%s has azimuth %r, expected %r", who, az[k], wa[k])
    return int(np.sign(c["loc"][0])), int(c["loc"][1] // 90), int(az[0] // 45), int(el[0] // 30), len(P), exact[0]
