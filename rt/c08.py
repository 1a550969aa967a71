"""C08: day of year counts days since 1 January."""
import numpy as np
from rt.base import *
from rt.cal import *

RULE = "every day from 1 January 1583 to 31 December 9999 (in blocks, at varying times of day), then mixed arrays and scalars; distinct by block, kind"
FIRST, LAST = 2299239, 5373484


def cases(rng, tier):
    for s in range(FIRST, LAST, 65536):
        yield dict(k="block", a=s, b=min(LAST, s + 65536), f=rng.choice([-.5, -.25, 0, .25, .499, -.4999]))
    for i in range(1500 if tier == "quick" else 20000):
        n = rng.choice([1, 1, 2, 4])
        jd = [rng.randint(FIRST, LAST) + rng.choice([-.5, 0, .4, rng.uniform(-.5, .499)]) for _ in range(n)]
        if rng.random() < .4:
            y = rng.choice([1600, 1700, 1900, 2000, 2100, 2023, 2024, 1999, 2400, 3000, 4000])
            jd[0] = float(greg_jdn(y, rng.choice([1, 2, 3, 12]), 1)) + rng.choice([-1, 0, 27, 28, 30]) + rng.choice([-.5, 0, .25])
        yield dict(k="array" if n > 1 or rng.random() < .5 else "scalar", jd=jd)


def oracle(jd):
    n = np.floor(np.asarray(jd, float) + .5).astype(np.int64)
    y = ((n - 1721060) / 365.2425).astype(np.int64)
    y = np.where(greg_jdn(y + 1, 1, 1) <= n, y + 1, y)
    y = np.where(greg_jdn(y, 1, 1) > n, y - 1, y)
    return n - greg_jdn(y, 1, 1) + 1


def check(c):
    f = need("celest.coordinates.astronomical_quantities", "day_of_year")
    from celest.units import Quantity
    from celest import units as u
    if c["k"] == "block":
        jd = np.arange(c["a"], c["b"]) + c["f"]
        arg = jd
    else:
        jd = np.array(c["jd"])
        arg = jd if c["k"] == "array" else c["jd"][0]
    r = np.atleast_1d(np.asarray(call("day_of_year", f, Quantity(arg, u.jd2000))))
    w = oracle(jd)
    expect(r.shape == w.shape, "%d dates give shape %r", len(jd), r.shape)
    bad = np.where(r != w)[0]
    if len(bad):
        raise Bad("day of year of julian date %r (entry %d of %d) is %r, expected %d" % (jd[bad[0]], bad[0], len(jd), r[bad[0]], w[bad[0]]))
    return c["k"], len(jd), int(jd[0] // 3652)
