"""C05: hour-valued times stay within [0, 24)."""
import numpy as np
from rt.base import *
from rt.tlib import *

RULE = "Julian times (float/int, scalar/array, negative to far future, solar noon and midnight edges) x offsets x longitudes (scalar / per time, any turn); distinct by method, argument kinds and hour reached"


def cases(rng, tier):
    for m in METHODS:
        for jd in EDGES:
            for lon in (0, 180, -180, 90.0, 359.5, -720, 1e4, -14.999):
                yield dict(m=m, jd=[jd], off=0, lon=lon, kind="scalar")
    for i in range(5000 if tier == "quick" else 50000):
        n = rng.choice([1, 1, 2, 3, 5, 17])
        off = rng.choice([0, 0, 0.5, 2430000, -1234.75, rng.uniform(-1e4, 1e4)])
        jd = [rand_jd(rng) - off for _ in range(n)]
        lon = rand_lon(rng) if rng.random() < .6 else [rand_lon(rng) for _ in range(n)]
        yield dict(m=rng.choice(list(METHODS)), jd=jd, off=off, lon=lon, kind=rng.choice(["list", "array", "scalar" if n == 1 else "array"]))


def check(c):
    T = make(c)
    n = len(c["jd"])
    expect(len(T) == n, "len(Time) is %r for %d times", len(T), n)
    call("Time.%s" % c["m"], run, T, c["m"], 123.25)
    q = call("Time.%s(%r)" % (c["m"], c["lon"]), run, T, c["m"], c["lon"])
    v = hours(q, c["m"])
    expect(v.shape == (n,), "%s of %d times has shape %r", c["m"], n, v.shape)
    expect(bool(np.all((v >= 0) & (v < 24))), "%s(%r) of julian %r + %r is %r", c["m"], c["lon"], c["jd"], c["off"], v.tolist())
    single = [hours(run(make(dict(c, jd=[j], kind="array")), c["m"], c["lon"][k] if isinstance(c["lon"], list) else c["lon"]), c["m"])[0] for k, j in enumerate(c["jd"])]
    expect(all(angdiff(a, b) < 1e-6 for a, b in zip(single, v)), "%s of the array %r differs from the single values: %r and %r", c["m"], c["jd"], v.tolist(), single)
    return c["m"], n, isinstance(c["lon"], list), int(v[0]), c["kind"]
