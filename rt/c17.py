"""C17: distance and look angle follow Euclidean geometry."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "satellite position arrays (frames, units, integer data) x locations (any unit), including overhead and underfoot; distinct by frame, unit, data kind and angle bin"


def cases(rng, tier):
    for i in range(4000 if tier == "quick" else 40000):
        n = rng.choice([1, 1, 2, 4])
        P = []
        for _ in range(n):
            if rng.random() < .2:
                P.append(["up", rng.choice([1.05, 1.1, 2, 6.6, .5, 1.001, -1.1])])
            else:
                P.append([rng.choice([7000, 42164, 6800, 6400, 400]) * x for x in rand_dir(rng)])
        yield dict(loc=rand_loc(rng), p=P, frame=rng.choice(["ITRS", "ITRS", "GCRS"]), unit=rng.choice(["km", "m", "mi"]), kind=rng.choice("fffi"))


def check(c):
    F = frames()
    Sat = need("celest.satellite", "Satellite")
    from celest import units as u
    loc = location(c["loc"])
    g = np.array([float(q.to(u.km)) for q in (loc.itrs_x, loc.itrs_y, loc.itrs_z)])
    expect(near(g, loc_xyz(c["loc"]), 1e-5), "location %r is at %r", c["loc"], g.tolist())
    P = np.array([g * p[1] if p[0] == "up" else p for p in c["p"]], float)
    sc = U(c["unit"]).scale / 1000
    f, arrs = make3(F[c["frame"]], 2451545.0 + np.arange(len(P)), P / sc, c["unit"], c["kind"])
    keep = [a.copy() for a in arrs]
    K = np.array(keep[1:], float).T * sc
    s = call("Satellite", Sat, f)
    if c["frame"] == "GCRS":
        Co = need("celest.coordinates.coordinate", "Coordinate")
        K = xyz(Co(f).convert_to(F["ITRS"]), "km")
    if len(c["p"]) % 2:     # the same satellite has been asked about another place
        other = location([-33.9, 151.2, 0.05, "deg", "km"])
        call("distance", lambda: s.distance(other))
        call("look_angle", lambda: s.look_angle(other))
    d = call("distance", lambda: s.distance(loc))
    want = np.linalg.norm(K - g, axis=1)
    expect(near(d.to(u.km), want, 1e-9 * want + 1e-6), "distance from %r (%s %s) to %r is %r, expected %r", c["p"], c["frame"], c["unit"], c["loc"], np.asarray(d.to(u.km)).tolist(), want.tolist())
    a = call("look_angle", lambda: s.look_angle(loc))
    A = np.asarray(a.to(u.deg), float)
    expect(A.shape == (len(P),), "%d times give look angles of shape %r", len(P), A.shape)
    W = angle(g - K, -K)
    for k in range(len(P)):
        if want[k] < 1e-3 or np.linalg.norm(K[k]) < 1:
            continue
        expect(np.isfinite(A[k]) and 0 <= A[k] <= 180 and abs(A[k] - W[k]) < 1e-5, "look angle from %r (%s %s) to %r is %r, expected %r", c["p"][k], c["frame"], c["unit"], c["loc"], A[k], W[k])
    check_same_arrays(arrs, keep, "distance/look_angle")
    return c["frame"], c["unit"], c["kind"], c["loc"][3], c["loc"][4], int(A[0] // 20) if np.isfinite(A[0]) else -1
