"""C15: ground locations are validated and lie on the ellipsoid model."""
import math
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "latitudes and longitudes inside, outside and next to the limits in every angle unit, heights in every length unit; distinct by unit, side of the limits, latitude bin"


def cases(rng, tier):
    for au in ANG:
        for la in (0, 90, -90, 90 + 1e-6, -90 - 1e-6, 91, -91, 89.999, 180, -180, 270, 1.6, 1e6, float("nan")):
            for lo in (0, 180, -180, 180 + 1e-6, -180 - 1e-6, 181, -181, 179.999, 360, -360, 90, 3.2, float("nan")):
                yield dict(lat=la, lon=lo, h=0, au=au, lu="km")
    for i in range(4000 if tier == "quick" else 50000):
        yield dict(lat=rng.choice([0, 90, -90, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-200, 200)]),
                   lon=rng.choice([0, 180, -180, rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(-400, 400)]),
                   h=rng.choice([0, 1, -0.4, 8.8, 400, rng.uniform(-10, 1000)]), au=rng.choice(list(ANG)), lu=rng.choice(list(LEN)))


def check(c):
    GL = need("celest.coordinates.ground_location", "GroundLocation")
    from celest import units as u
    la, lo, au, lu = c["lat"], c["lon"], c["au"], c["lu"]
    s = U(au).scale
    lsc = U(lu).scale / 1000
    a, o, h = la / s, lo / s, c["h"] / lsc
    for x, lim in ((la, 90), (lo, 180)):
        if abs(abs(x) - lim) < 1e-8 and au != "deg":
            raise Skip("rounding at the limit")
    ok = abs(la) <= 90 and abs(lo) <= 180
    if not ok:
        raises(ValueError, lambda: GL(a, o, h, U(au), U(lu)), "GroundLocation(%r, %r) %s" % (a, o, au))
        return "rejected", au, la > 90, la < -90, lo > 180, lo < -180
    g = call("GroundLocation(%r, %r, %r, %s, %s)" % (a, o, h, au, lu), GL, a, o, h, U(au), U(lu))
    for q, v, un in ((g.latitude, a, au), (g.longitude, o, au), (g.height, h, lu)):
        expect(q.data == v and str(q.unit) == un, "location %r holds %s", c, q)
    R = float(call("radius", lambda: g.radius.to(u.km)))
    h0 = GL(a, o, 0, U(au), U(lu))
    R0 = float(h0.radius.to(u.km))
    expect(close(R - R0, c["h"], 1e-9, 1e-8), "radius at height %r km is %r, at zero height %r", c["h"], R, R0)
    expect(B_KM - 1e-7 <= R0 <= A_KM + 1e-7, "radius at latitude %r is %r", la, R0)
    if la == 0:
        expect(abs(R0 - A_KM) < 1e-6, "equatorial radius is %r", R0)
    if abs(la) == 90:
        expect(abs(R0 - B_KM) < 1e-6, "polar radius at %r is %r", la, R0)
    pos = np.linalg.norm(ecef(la, lo, 0))
    expect(abs(R0 - pos) < 1e-3, "radius at latitude %r is %r but the surface point is %r from the centre", la, R0, pos)
    return "ok", au, lu, int(la // 15), int(lo // 90)
