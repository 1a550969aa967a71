"""C07: Julian date to calendar date conversion is exact."""
import datetime as dt
import numpy as np
from rt.base import *
from rt.cal import *

RULE = "every day number from 0 to year 9999 (in blocks), then mixed arrays, scalars and boundary instants; distinct by century block, era mix and argument kind"
LAST = 5373484


def cases(rng, tier):
    for s in range(0, LAST, 65536):
        yield dict(k="block", a=s, b=min(LAST, s + 65536), f=rng.choice([0, .25, .5, .499, .501, .75, .999]), i=rng.random() < .3)
    edges = [0, 0.4999999, 0.5, 1721423.5, 1721425.5, 2299159.5, 2299160.4999999, 2299160.5, 2299161, 2299161.5, 2415020.5, 2451544.5,
             2451545, 2451604.5, 2451603.5, 2451605.5, 2341972.5, 2341971.5, 2305507.5, 5373483.9, 2378496.5, 2415078.5, 2415079.5]
    for e in edges:
        yield dict(k="scalar", jd=e)
        yield dict(k="scalar", jd=float(e))
        yield dict(k="mix", jd=[e, 2451545.25, 100.0])
    for i in range(1500 if tier == "quick" else 20000):
        n = rng.choice([1, 2, 3, 6])
        jd = [rand(rng) for _ in range(n)]
        yield dict(k=rng.choice(["mix", "mix", "scalar", "dt", "dt"]), jd=jd if n > 1 else jd[0]) if n > 1 else dict(k="scalar", jd=jd[0])
    for i in range(1500 if tier == "quick" else 20000):
        yield dict(k="dt", jd=[rng.choice([rng.uniform(2299160.5, 5373484.4), rng.randint(2299161, LAST) + rng.choice([.5, 0, .49999999, .4999999999, .50000001])]) for _ in range(rng.choice([1, 2, 4]))])


def rand(rng):
    return rng.choice([rng.uniform(0, LAST), rng.uniform(2299000, 2299300), rng.randint(0, LAST) + .5, rng.randint(0, LAST), rng.uniform(2400000, 2500000), float(rng.randint(0, 400))])


def verify(jd, y, m, d, what):
    jd = np.atleast_1d(np.asarray(jd, dtype=float))
    y, m, d = (np.atleast_1d(np.asarray(v)) for v in (y, m, d))
    expect(y.shape == m.shape == d.shape == jd.shape, "%s: %d dates give shapes %r %r %r", what, len(jd), y.shape, m.shape, d.shape)
    yi, mi = np.asarray(y).astype(np.int64), np.asarray(m).astype(np.int64)

    def show(bad):
        k = int(np.where(bad)[0][0])
        raise Bad("%s: julian date %r (entry %d) gives year %r month %r day %r" % (what, jd[k], k, y[k], m[k], d[k]))
    bad = (yi != y) | (mi != m) | (mi < 1) | (mi > 12) | ~np.isfinite(d.astype(float))
    if np.any(bad):
        show(bad)
    di = np.floor(d.astype(float)).astype(np.int64)
    greg = np.floor(jd + .5) >= G0
    bad = (di < 1) | (di > mlen(yi, mi, greg))
    if np.any(bad):
        show(bad)
    n = np.where(greg, greg_jdn(yi, mi, di), jul_jdn(yi, mi, di))
    err = np.abs(n - .5 + (d - di) - jd)
    bad = err > 2e-8
    if np.any(bad):
        show(bad)


def check(c):
    fj = need("celest.coordinates.astronomical_quantities", "from_julian")
    from celest.units import Quantity
    from celest import units as u
    if c["k"] == "block":
        jd = np.arange(c["a"], c["b"])
        if not c["i"]:
            jd = jd + c["f"]
        y, m, d = call("from_julian", fj, Quantity(jd, u.jd2000))
        verify(jd, y, m, d, "block")
        return c["k"], c["a"]
    jd = c["jd"]
    if c["k"] == "dt":
        Time = need("celest.time", "Time")
        jd = [j for j in jd if 2299160.5 <= j < 5373484.49]
        if not jd:
            return None
        r = call("Time(%r).datetime()" % (jd,), lambda: Time(np.array(jd)).datetime())
        expect(len(r) == len(jd), "%d datetimes for %d times", len(r), len(jd))
        for j, t in zip(jd, r):
            expect(isinstance(t, dt.datetime), "datetime() gives %r", t)
            whole = int(np.floor(j + .5))
            got = (t - dt.datetime(1, 1, 1)) // dt.timedelta(microseconds=1)
            want = (whole - 1721426) * 86400 * 10**6 + round((j + .5 - whole) * 86400 * 10**6)
            expect(abs(got - want) <= 200, "julian date %r gives %s", j, t)
        return c["k"], len(jd), int(jd[0] // 36525)
    arg = np.array(jd) if isinstance(jd, list) else jd
    keep = np.array(jd, copy=True)
    y, m, d = call("from_julian(%r)" % (jd,), fj, Quantity(arg, u.jd2000))
    expect(np.array_equal(np.asarray(arg), keep), "from_julian changed its argument")
    verify(jd, y, m, d, "from_julian(%r)" % (jd,))
    first = np.ravel(jd)[0]
    return c["k"], np.size(jd), int(first // 36525), bool(np.any(np.asarray(jd) < 2299160.5))
