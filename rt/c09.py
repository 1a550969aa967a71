"""C09: GCRS and ITRS conversions are inverse rigid rotations."""
import numpy as np
from rt.base import *
from rt.geo import *

RULE = "arrays of 3-vectors (several at equal times, several epochs from antiquity to the far future, float and integer data, any unit) converted both ways; distinct by direction, data kind, unit, epoch bin"


def cases(rng, tier):
    for i in range(1500 if tier == "quick" else 20000):
        k = rng.choice([1, 1, 2, 3])
        t, v = [], []
        for _ in range(k):
            tt = rand_t(rng)
            for _ in range(rng.choice([1, 3, 3])):
                t.append(tt)
                s = rng.choice([1, 7000, 42000, 1e6, 7.5])
                d = rand_dir(rng) if rng.random() < .8 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1]])
                v.append([s * x for x in d])
        kind = rng.choice("ffi")
        if kind == "i":
            v = [[int(x * 10) for x in r] for r in v]
        yield dict(dir=rng.choice(["G", "I"]), t=t, v=v, unit=rng.choice(["km", "m", "m/s", "km/s", "mi"]), kind=kind)


def check(c):
    F = frames()
    Co = need("celest.coordinates.coordinate", "Coordinate")
    A, B = (F["GCRS"], F["ITRS"]) if c["dir"] == "G" else (F["ITRS"], F["GCRS"])
    p, arrs = make3(A, c["t"], c["v"], c["unit"], c["kind"])
    keep = [a.copy() for a in arrs]
    q = call("conversion", lambda: Co(p).convert_to(B))
    expect(isinstance(q, B), "conversion to %s gives %r", B.__name__, type(q))
    n = len(c["t"])
    expect(samples(q) == n and np.array_equal(times(q), arrs[0]), "times are not carried over")
    a, b = np.array(keep[1:], float).T, xyz(q)
    expect(b.shape == a.shape and np.all(np.isfinite(b)), "%d samples give shape %r", n, b.shape)
    expect(q.x.unit is p.x.unit or repr(q.x.unit) == repr(p.x.unit), "unit %s became %s", p.x.unit, q.x.unit)
    L = np.linalg.norm(a, axis=1)
    expect(near(np.linalg.norm(b, axis=1), L, 1e-9 * L + 1e-12), "lengths %r became %r", L.tolist(), np.linalg.norm(b, axis=1).tolist())
    groups = {}
    for k, t in enumerate(c["t"]):
        groups.setdefault(t, []).append(k)
    for g in groups.values():
        for i in g:
            for j in g:
                if i < j:
                    expect(abs(a[i] @ a[j] - b[i] @ b[j]) <= 1e-9 * (L[i] * L[j]) + 1e-12, "inner product of %r and %r changed from %r to %r at %r", a[i].tolist(), a[j].tolist(), a[i] @ a[j], b[i] @ b[j], c["t"][i])
        for s in range(0, len(g) - 2, 3):
            i = g[s:s + 3]
            d0, d1 = np.linalg.det(a[i]), np.linalg.det(b[i])
            expect(abs(d0 - d1) <= 1e-8 * L[i[0]] * L[i[1]] * L[i[2]] + 1e-12, "handedness: triple product %r became %r", d0, d1)
    check_same_arrays([p.time.data, p.x.data, p.y.data, p.z.data], keep, "conversion")
    check_same_arrays(arrs, keep, "conversion")
    r = call("conversion back", lambda: Co(q).convert_to(A))
    expect(near(xyz(r), a, 1e-9 * L[:, None] + 1e-12), "there and back of %r gives %r", a.tolist(), xyz(r).tolist())
    expect(np.array_equal(times(r), keep[0]), "times are not carried over on the way back")
    # the rotation at a time does not depend on the other samples
    k = n - 1
    one, _ = make3(A, [c["t"][k]], [c["v"][k]], c["unit"], c["kind"])
    expect(near(xyz(Co(one).convert_to(B))[0], b[k], 1e-9 * L[k] + 1e-12), "sample %d converts differently alone", k)
    return c["dir"], c["kind"], c["unit"], int(c["t"][0] // 50000), n
