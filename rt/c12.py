"""C12: the LVLH frame is the proper orbital frame."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "position/velocity pairs (orbital, axis-aligned, nearly radial, retrograde, integer data, any unit); distinct by data kind, units, octant"


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 30000):
        n = rng.choice([1, 1, 2, 3, 5])
        r, v = [], []
        for _ in range(n):
            a = rand_dir(rng) if rng.random() < .7 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [-1, 0, 0]])
            while True:
                b = rand_dir(rng) if rng.random() < .8 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, -1, 0]])
                if np.linalg.norm(np.cross(a, b)) > 1e-2:
                    break
            r.append([rng.choice([7000, 42164, 6800.5]) * x for x in a])
            v.append([rng.choice([7.5, 3.07, 1e-3, 7500]) * x for x in b])
        kind = rng.choice("ffi")
        if kind == "i":
            r, v = [[int(x) for x in q] for q in r], [[int(x * 1000) for x in q] for q in v]
            if any(np.linalg.norm(np.cross(a, b)) < 1e-2 * np.linalg.norm(a) * np.linalg.norm(b) or not any(b) for a, b in zip(r, v)):
                continue
        yield dict(r=r, v=v, ru=rng.choice(["km", "m"]), vu=rng.choice(["km/s", "m/s"]), kind=kind)


def check(c):
    F = frames()
    f, = [need("celest.coordinates.transforms", "_gcrs_to_lvlh")]
    t = 2451545.0 + np.arange(len(c["r"]))
    p, pa = make3(F["GCRS"], t, c["r"], c["ru"], c["kind"])
    v, va = make3(F["GCRS"], t, c["v"], c["vu"], c["kind"])
    kp, kv = [a.copy() for a in pa], [a.copy() for a in va]
    lp, lv = call("_gcrs_to_lvlh", f, p, v)
    R, V = np.array(kp[1:], float).T, np.array(kv[1:], float).T
    n = len(t)
    for q, a, w in ((lp, p, "position"), (lv, v, "velocity")):
        expect(isinstance(q, F["LVLH"]), "LVLH %s is a %r", w, type(q))
        expect(np.array_equal(times(q), t), "LVLH %s: times not carried over", w)
        expect(repr(q.x.unit) == repr(a.x.unit), "LVLH %s: unit %s became %s", w, a.x.unit, q.x.unit)
        expect(xyz(q).shape == (n, 3), "LVLH %s has shape %r", w, xyz(q).shape)
    nr, nv = np.linalg.norm(R, axis=1), np.linalg.norm(V, axis=1)
    want = np.array([0 * nr, 0 * nr, -nr]).T
    expect(near(xyz(lp), want, 1e-9 * nr[:, None]), "LVLH position of %r is %r", c["r"], xyz(lp).tolist())
    L = xyz(lv)
    h = np.cross(R, V)
    vx, vz = np.linalg.norm(h, axis=1) / nr, -(R * V).sum(1) / nr
    expect(near(L, np.array([vx, 0 * vx, vz]).T, 1e-9 * nv[:, None]), "LVLH velocity of r=%r v=%r is %r", c["r"], c["v"], L.tolist())
    for q, k in ((p, kp), (v, kv)):
        check_same_arrays([q.time.data, q.x.data, q.y.data, q.z.data], k, "_gcrs_to_lvlh")
    check_same_arrays(pa + va, kp + kv, "_gcrs_to_lvlh")
    try:
        m = need("celest.coordinates.transforms", "_gcrs_to_lvlh_matrix")
        M = m(R.copy(), V.copy())
        shape_ok = np.shape(M) == (n, 3, 3)
    except (Skip, TypeError):
        shape_ok = False
    if shape_ok:
        z = -R / nr[:, None]
        y = -h / np.linalg.norm(h, axis=1)[:, None]
        x = np.cross(y, z)
        expect(near(M, np.stack([x, y, z], axis=1), 1e-9), "LVLH axes of r=%r v=%r are %r", c["r"], c["v"], np.asarray(M).tolist())
    return c["kind"], c["ru"], c["vu"], tuple(np.sign(R[0]).tolist()), n
