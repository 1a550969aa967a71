import numpy as np
from rt.base import need, Bad, Skip, call, expect, close

METHODS = dict(true_solar_time=1, mean_solar_time=1, true_hour_angle=1, mean_hour_angle=1, ut1=0, gmst=0, lmst=1, gast=0, last=1)
EDGES = [2451545, 2451545.0, 2451545.5, 2451545.25, 2451544.75, 2451545.499999, 2451545.500001, 2451544.999999, 2451545.000001,
         0.0, -0.5, 1721425.5, 2299160.5, 5373484.49, 2415020.5, 2460000.125, -1234567.8, 1e7, 2440000]


def rand_jd(rng):
    k = rng.random()
    if k < .5:
        return rng.uniform(2400000, 2500000)
    if k < .65:
        return rng.randint(2400000, 2500000) + rng.choice([0, .5, .25, .75])
    if k < .75:
        return rng.choice(EDGES)
    if k < .85:
        return rng.randint(2400000, 2500000)
    return rng.uniform(-1e6, 8e6)


def rand_lon(rng):
    return rng.choice([0, 15.0, -15.0, 90, -90, 180, -180, 179.999, rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(-2000, 2000)])


def make(c):
    Time = need("celest.time", "Time")
    jd = c["jd"]
    a = jd[0] if c.get("kind") == "scalar" else (np.array(jd) if c.get("kind") == "array" else list(jd))
    return call("Time(%r, %r)" % (jd, c["off"]), Time, a, c["off"]) if c["off"] or c.get("kind") == "list" else call("Time(%r)" % (jd,), Time, a)


def run(T, m, lon):
    f = getattr(T, m, None)
    if f is None:
        raise Skip("no method " + m)
    if METHODS[m]:
        return f(np.array(lon) if isinstance(lon, list) else lon)
    return f()


def hours(q, m):
    from celest import units as u
    expect(str(q.unit) == "hourangle", "%s is returned in %s", m, q.unit)
    return np.asarray(q.data, dtype=float)


def angdiff(a, b, mod=24.0):
    d = (a - b) % mod
    return np.minimum(d, mod - d)
