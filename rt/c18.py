"""C18: attitude angles point the satellite at the target."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "satellite states (frames, units) x locations near and away from nadir, straight below, behind; distinct by frame, units, quadrant of the line of sight"


def cases(rng, tier):
    for f in ("ITRS", "GCRS"):
        yield dict(k="novel", frame=f)
    for i in range(3000 if tier == "quick" else 30000):
        n = rng.choice([1, 1, 2, 4])
        loc = rand_loc(rng)
        P, V = [], []
        for _ in range(n):
            k = rng.random()
            if k < .25:
                P.append(["over", rng.choice([1.1, 1.05, 6.6])])
            elif k < .75:
                P.append(["off", rng.choice([1.05, 1.1, 1.5, 6.6]), rng.uniform(-.3, .3), rng.uniform(-.3, .3)])
            else:
                P.append([rng.choice([7000, 42164]) * x for x in rand_dir(rng)])
            V.append([rng.choice([7.5, 3.0]) * x for x in rand_dir(rng)])
        yield dict(k="ok", loc=loc, p=P, v=V, frame=rng.choice(["ITRS", "ITRS", "GCRS"]), pu=rng.choice(["km", "m"]), vu=rng.choice(["km/s", "m/s"]))


def check(c):
    F = frames()
    Sat = need("celest.satellite", "Satellite")
    Co = need("celest.coordinates.coordinate", "Coordinate")
    from celest import units as u
    if c["k"] == "novel":
        f, _ = make3(F[c["frame"]], [2451545.0], [[7000, 0, 0]], "km")
        s = call("Satellite", Sat, f)
        raises(ValueError, lambda: s.attitude(location([10, 20, 0, "deg", "km"])), "attitude without velocity")
        return c["k"], c["frame"]
    loc = location(c["loc"])
    g = loc_xyz(c["loc"])
    up = g / np.linalg.norm(g)
    e1 = np.cross(up, [0, 0, 1.] if abs(up[2]) < .9 else [1., 0, 0])
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(up, e1)
    P = np.array([g * p[1] if p[0] == "over" else ((up + p[2] * e1 + p[3] * e2) * np.linalg.norm(g) * p[1] if p[0] == "off" else p) for p in c["p"]], float)
    V = np.array(c["v"], float)
    for k in range(len(P)):
        if np.linalg.norm(np.cross(P[k], V[k])) < 1e-2 * np.linalg.norm(P[k]) * np.linalg.norm(V[k]):
            raise Skip("velocity along the position")
    t = 2455000.25 + np.arange(len(P)) * 37.3
    ip, _ = make3(F["ITRS"], t, P, "km")
    iv, _ = make3(F["ITRS"], t, V, "km/s")
    gp, gv = Co(ip).convert_to(F["GCRS"]), Co(iv).convert_to(F["GCRS"])
    ig, _ = make3(F["ITRS"], t, [g.tolist()] * len(P), "km")
    R, W, G = xyz(gp), xyz(gv), xyz(Co(ig).convert_to(F["GCRS"]))
    if c["frame"] == "ITRS":
        a, b = P, V
    else:
        a, b = R, W
    sp, pa = make3(F[c["frame"]], t, a * (1000 if c["pu"] == "m" else 1), c["pu"])
    sv, va = make3(F[c["frame"]], t, b * (1000 if c["vu"] == "m/s" else 1), c["vu"])
    keep = [x.copy() for x in pa + va]
    s = call("Satellite", Sat, sp, sv)
    if len(P) % 2:          # the same satellite has been asked about another place
        call("attitude", lambda: s.attitude(location([-33.9, 151.2, 0.05, "deg", "km"])))
    at = call("attitude", lambda: s.attitude(loc))
    expect(isinstance(at, F["Attitude"]) and np.array_equal(times(at), t), "attitude is not tagged with the satellite's times")
    expect(at.location is loc or vars(at.location) == vars(loc), "attitude is tagged with another location")
    ro, pi, ya = (np.asarray(q.to(u.rad), float) for q in (at.roll, at.pitch, at.yaw))
    expect(ro.shape == pi.shape == ya.shape == (len(P),), "%d times give shapes %r", len(P), ro.shape)
    for k in range(len(P)):
        z = -R[k] / np.linalg.norm(R[k])
        h = np.cross(R[k], W[k])
        y = -h / np.linalg.norm(h)
        x = np.cross(y, z)
        los = G[k] - R[k]
        L = np.array([x @ los, y @ los, z @ los]) / np.linalg.norm(los)
        if 1 + L[2] < 1e-4:
            continue
        got = np.array([-np.cos(ro[k]) * np.sin(pi[k]), np.sin(ro[k]), np.cos(ro[k]) * np.cos(pi[k])])
        expect(near(got, L, 1e-6), "satellite %r velocity %r location %r: roll %r pitch %r point at %r, line of sight %r", c["p"][k], c["v"][k], c["loc"], ro[k], pi[k], got.tolist(), L.tolist())
        if abs(L[1]) < .999:
            w = np.arctan2(-L[0] * L[1] / (1 + L[2]), 1 - L[1] ** 2 / (1 + L[2]))
            dy = abs(ya[k] - w) % (2 * np.pi)
            expect(min(dy, 2 * np.pi - dy) < 1e-5 / (1 + L[2]), "satellite %r velocity %r location %r: yaw %r, the shortest rotation has %r", c["p"][k], c["v"][k], c["loc"], ya[k], w)
        if c["p"][k][0] == "over":
            expect(max(abs(ro[k]), abs(pi[k]), abs(ya[k])) < 1e-6, "straight above %r the attitude is %r %r %r", c["loc"], ro[k], pi[k], ya[k])
    check_same_arrays(pa + va, keep, "attitude")
    return c["frame"], c["pu"], c["vu"], c["loc"][3], tuple(np.sign(np.round([ro[0], pi[0]], 5)).tolist()), len(P)
