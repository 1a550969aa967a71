"""C14: frames hold consistent one-dimensional data."""
import itertools
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "all frame classes x all assignments of lengths from {0,1,2,3,5} and dimensions 0..3 to the arrays, and valid data of every unit; distinct by class and shapes"
SHAPES = [[], [0], [1], [2], [3], [2, 1], [1, 2], [1, 1], [3, 1], [1, 1, 1], [0, 2]]


def cases(rng, tier):
    for f, k in (("GCRS", 4), ("ITRS", 4), ("LVLH", 4), ("WGS84", 4), ("Attitude", 4), ("AzEl", 3)):
        for s in ([3], [1], [0], [2]):
            for pos in range(k):
                for o in SHAPES:
                    sh = [s] * k
                    sh[pos] = o
                    yield dict(f=f, sh=sh)
            for a, b in itertools.combinations(range(k), 2):
                for o in ([1], [2], [4], [2, 1], [0]):
                    sh = [s] * k
                    sh[a] = sh[b] = o
                    yield dict(f=f, sh=sh)
        for o in SHAPES:
            yield dict(f=f, sh=[o] * k)
    for i in range(600 if tier == "quick" else 20000):
        f = rng.choice(["GCRS", "ITRS", "LVLH", "WGS84", "Attitude", "AzEl"])
        k = 3 if f == "AzEl" else 4
        n = rng.choice([1, 2, 3, 7])
        sh = [[n]] * k if rng.random() < .6 else [rng.choice(SHAPES) for _ in range(k)]
        yield dict(f=f, sh=sh, u=rng.choice(["km", "m", "mi", "m/s"]), a=rng.choice(list(ANG)), o=rng.choice(["km", "m", "ft"]), oa=rng.choice(list(ANG)), kind=rng.choice("ffi"), seed=rng.randint(0, 999))


def check(c):
    F = frames()
    f, k = c["f"], len(c["sh"])
    r = np.random.RandomState(c.get("seed", 0))
    A = [np.array(r.uniform(-100, 100, size=s)) if c.get("kind", "f") == "f" else np.array(r.randint(-100, 100, size=s)) for s in c["sh"]]
    A = [np.asarray(a) for a in A]
    for a in A:
        if a.size and r.rand() < .5:
            a.flat[0 if r.rand() < .6 else r.randint(a.size)] = 0
        if a.size and r.rand() < .15:
            a[...] = 0
    lu, au = U(c.get("u", "km")), U(c.get("a", "deg"))
    loc = location([10, 20, 0, "deg", "km"])
    tail = dict(GCRS=[lu], ITRS=[lu], LVLH=[lu], WGS84=[au, U("km")], Attitude=[au, loc], AzEl=[au, loc])[f]
    ok = all(len(s) == 1 for s in c["sh"]) and len({s[0] for s in c["sh"] if s}) == 1
    mk = lambda: F[f](*A, *tail)
    if not ok:
        raises(ValueError, mk, "%s of arrays with shapes %r" % (f, c["sh"]))
        return f, "bad", str(c["sh"])
    keep = [a.copy() for a in A]
    p = call("%s of shapes %r" % (f, c["sh"]), mk)
    names = dict(WGS84=["latitude", "longitude", "height"], AzEl=["azimuth", "elevation"], Attitude=["roll", "pitch", "yaw"]).get(f, ["x", "y", "z"])
    for name, a, key in zip(["time"] + names, A, keep):
        q = getattr(p, name)
        unit = U("jd2000") if name == "time" else (tail[1] if name == "height" else tail[0])
        expect(np.array_equal(np.asarray(q.data), key), "%s.%s is %r, was built with %r", f, name, q.data, key)
        expect(repr(q.unit) == repr(unit), "%s.%s has unit %s, was built with %s", f, name, q.unit, unit)
    if f in ("AzEl", "Attitude"):
        expect(p.location is loc or vars(p.location) == vars(loc), "%s.location is another location", f)
    if f == "WGS84":
        return f, "ok", c["sh"][0][0]
    if f in ("AzEl", "Attitude"):
        out, ratio = U(c.get("oa", "rad")), ANG[c.get("a", "deg")] / ANG[c.get("oa", "rad")]
    else:
        if "/" in c.get("u", "km"):
            out, ratio = U("km/s"), 1e-3
        else:
            out = U(c.get("o", "m"))
            ratio = U(c.get("u", "km")).scale / out.scale
    m = call("to_numpy", p.to_numpy, out)
    n = c["sh"][0][0]
    expect(isinstance(m, np.ndarray) and m.shape == (n, k - 1), "%s.to_numpy of %d samples has shape %r", f, n, np.shape(m))
    want = np.array(keep[1:], float).T * ratio
    expect(near(m, want, 1e-9 * np.abs(want) + 1e-300), "%s.to_numpy(%s) of %r is %r", f, out, [x.tolist() for x in keep[1:]], m.tolist())
    expect(all(np.array_equal(a, b) for a, b in zip(A, keep)), "building or exporting changed the input")
    return f, "ok", n, c.get("kind"), str(out)
