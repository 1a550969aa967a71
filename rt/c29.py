"""C29: look-angle search finds a crossing inside the window."""
import numpy as np
from rt.base import *
from rt.sch import limit

RULE = "series (monotone, oscillating, constant, touching) x intervals (whole, inner, two samples, one sample) x desired angles between, at and beyond samples x angular units; distinct by length, interval, sign pattern"


def cases(rng, tier):
    for n in (1, 2, 3, 4, 5):
        for m in range(3 ** n):
            s = [(m // 3 ** k) % 3 - 1 for k in range(n)]
            l = rng.randint(0, n - 1)
            for a, b in {(0, n - 1), (l, rng.randint(l, n - 1))}:
                yield dict(s=s, d=0, a=a, b=b, su="deg", du="deg")
    for i in range(6000 if tier == "quick" else 60000):
        n = rng.choice([2, 3, 4, 6, 9, 17, 40, 100])
        k = rng.random()
        if k < .3:
            s = [rng.choice([1, -1]) * (j - rng.uniform(0, n)) for j in range(n)]
        elif k < .5:
            s0, sg = rng.uniform(-30, 30), rng.choice([1, -1, .3])
            s = [s0 + sg * j for j in range(n)]
        elif k < .7:
            s = [rng.randint(-3, 3) for _ in range(n)]
        elif k < .75:
            s = [rng.choice([0, 2, -1])] * n
        else:
            s = [30 * np.sin(rng.uniform(0, .3) + j * .37) for j in range(n)]
        a = rng.randint(0, n - 1)
        b = rng.randint(a, n - 1)
        if rng.random() < .5:
            a, b = 0, n - 1
        d = rng.choice([0, 1, s[a], s[b], s[(a + b) // 2], rng.uniform(-30, 30), rng.uniform(-30, 30), 90, -90])
        su, du = ("deg", "deg") if rng.random() < .5 else (rng.choice(["deg", "rad", "arcmin"]), rng.choice(["deg", "rad", "arcsec"]))
        yield dict(s=[float(x) for x in s], d=float(d), a=a, b=b, su=su, du=du)


def check(c):
    f = need("celest.schedule.insertion_operators", "_look_angle_time")
    from celest import units as u
    from rt.geo import ANG
    Q = u.Quantity
    s = np.array(c["s"], float) / ANG[c["su"]]
    d = c["d"] / ANG[c["du"]]
    exact = c["su"] == c["du"] == "deg"
    x = s * ANG[c["su"]] - d * ANG[c["du"]]
    a, b = c["a"], c["b"]
    if not exact and np.any(np.abs(x[a:b + 1]) < 1e-9):
        raise Skip("too close in machine arithmetic")
    t = 2460000.0 + np.arange(len(s)) / 1024
    keep = s.copy()
    with limit(10, "search of %r for %r" % (c["s"], c["d"])):
        r = call("_look_angle_time", f, Q(s, U1(c["su"])), Q(d, U1(c["du"])), Q(t, u.jd2000), Q(t[a], u.jd2000), Q(t[b], u.jd2000))
    what = "search of %r from %d to %d for %r" % (c["s"], a, b, c["d"])
    expect(np.array_equal(s, keep), "%s changed the series", what)
    if x[a] * x[b] > 0:
        expect(r is None, "%s returns %s although both ends lie on the same side", what, r)
        return len(s) if len(s) < 7 else 9, "none", a == b
    expect(r is not None, "%s returns nothing", what)
    k = np.where(t == float(r.to(u.jd2000)))[0]
    expect(len(k) == 1 and a <= k[0] <= b, "%s returns %s, not a sample of the interval", what, r)
    k = int(k[0])
    ok = x[k] == 0 or (k + 1 < len(x) and x[k] * x[k + 1] <= 0)
    expect(ok, "%s returns sample %d where the series does not cross", what, k)
    return len(s), a, b, k, c["su"], c["du"]


def U1(n):
    from celest import units as u
    return getattr(u, n)
