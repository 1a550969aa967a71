"""Unit expressions built from the library's units, with an independent size and dimension."""
from fractions import Fraction
import numpy as np
from rt.base import need, Bad, call, expect, close

NAMES = dict(m="L", mm="L", cm="L", km="L", inch="L", ft="L", yd="L", mi="L", s="T", min="T", hr="T", dy="T",
             jd2000="D", deg="A", rad="A", arcsec="A", arcmin="A", hourangle="A")
# physical sizes (m, s, day, degree); the library rounds feet and yards
TRUE = dict(m=1, mm=1e-3, cm=1e-2, km=1e3, inch=.0254, ft=.3048, yd=.9144, mi=1609.344, s=1, min=60, hr=3600, dy=86400,
            jd2000=1, deg=1, rad=57.29577951308232, arcsec=1 / 3600, arcmin=1 / 60, hourangle=15)
BYDIM = {}
for _n, _d in NAMES.items():
    BYDIM.setdefault(_d, []).append(_n)


def lib():
    return need("celest.units", "Quantity"), __import__("celest.units", fromlist=["m"])


def named(n):
    import celest.units as u
    if not hasattr(u, n):
        raise Bad("unit %s is missing" % n)
    return getattr(u, n)


def build(t):
    k = t[0]
    if k == "u":
        return named(t[1])
    if k == "mul":
        return build(t[1]) * build(t[2])
    if k == "div":
        return build(t[1]) / build(t[2])
    if k == "pow":
        return build(t[1]) ** t[2]
    if k == "scale":
        return t[1] * build(t[2])
    if k == "rscale":
        return build(t[2]) * t[1]
    if k == "inv":
        return 1 / build(t[1])
    raise ValueError(k)


def size(t):
    """Size of the expression from the sizes of the named units."""
    k = t[0]
    if k == "u":
        s = named(t[1]).scale
        expect(close(s, TRUE[t[1]], 2e-3), "unit %s has size %r, physically %r", t[1], s, TRUE[t[1]])
        return s
    if k == "mul":
        return size(t[1]) * size(t[2])
    if k == "div":
        return size(t[1]) / size(t[2])
    if k == "pow":
        return size(t[1]) ** t[2]
    if k in ("scale", "rscale"):
        return t[1] * size(t[2])
    if k == "inv":
        return 1 / size(t[1])


def expo(t):
    """Base unit exponents of the expression."""
    k = t[0]
    if k == "u":
        return {t[1]: 1}
    if k in ("mul", "div"):
        r = dict(expo(t[1]))
        for b, p in expo(t[2]).items():
            r[b] = r.get(b, 0) + (p if k == "mul" else -p)
    elif k == "pow":
        r = {b: p * t[2] for b, p in expo(t[1]).items()}
    elif k == "inv":
        r = {b: -p for b, p in expo(t[1]).items()}
    else:
        r = expo(t[2])
    return {b: p for b, p in r.items() if p != 0}


def dims(t):
    r = {}
    for b, p in expo(t).items():
        r[NAMES[b]] = r.get(NAMES[b], 0) + p
    return {d: p for d, p in r.items() if p != 0}


def struct_size(unit):
    """Size of a unit object as its public structure states it."""
    from celest.units.core import CompoundUnit
    if not isinstance(unit, CompoundUnit):
        return unit.scale
    s = unit.scale
    for b, p in zip(unit.bases, unit.powers):
        s = s * struct_size(b) ** p
    return s


def snapshot(unit):
    return (type(unit).__name__, unit.scale, [id(b) for b in unit.bases], list(unit.powers), str(unit), unit.dimension)


POWERS = [2, 3, -1, -2, 0.5, 1, 0.25, -0.5, -3, 1.5, 2.0, -1.0]
SCALES = [2, 3.5, 0.5, 1000, 1e-3, 7, 1.0, 1, 60, 12.25]


def rand_expr(rng, depth, names=None):
    names = names or list(NAMES)
    if depth == 0 or rng.random() < .15:
        return ["u", rng.choice(names)]
    k = rng.random()
    if k < .3:
        return ["mul", rand_expr(rng, depth - 1, names), rand_expr(rng, depth - 1, names)]
    if k < .55:
        return ["div", rand_expr(rng, depth - 1, names), rand_expr(rng, depth - 1, names)]
    if k < .75:
        return ["pow", rand_expr(rng, depth - 1, names), rng.choice(POWERS)]
    if k < .85:
        return ["scale", rng.choice(SCALES), rand_expr(rng, depth - 1, names)]
    if k < .95:
        return ["rscale", rng.choice(SCALES), rand_expr(rng, depth - 1, names)]
    return ["inv", rand_expr(rng, depth - 1, names)]


def sibling(rng, t):
    """An expression of the same dimension: other named units, another shape."""
    k = t[0]
    if k == "u":
        r = ["u", rng.choice(BYDIM[NAMES[t[1]]])]
    elif k == "mul":
        a, b = sibling(rng, t[1]), sibling(rng, t[2])
        r = ["mul", b, a] if rng.random() < .5 else ["mul", a, b]
        if rng.random() < .2:
            r = ["div", a, ["inv", b]]
    elif k == "div":
        a, b = sibling(rng, t[1]), sibling(rng, t[2])
        r = ["div", a, b] if rng.random() < .6 else ["mul", ["pow", b, -1], a]
    elif k == "pow":
        a = sibling(rng, t[1])
        r = ["pow", a, t[2]]
        if t[2] == 2 and rng.random() < .5:
            r = ["mul", a, sibling(rng, t[1])]
        elif t[2] == 3 and rng.random() < .5:
            r = ["mul", a, ["pow", sibling(rng, t[1]), 2]]
        elif t[2] == -2 and rng.random() < .5:
            r = ["inv", ["mul", a, sibling(rng, t[1])]]
    elif k in ("scale", "rscale"):
        r = sibling(rng, t[2])
    else:
        r = ["pow", sibling(rng, t[1]), -1]
    x = rng.random()
    if x < .1:
        r = ["scale", rng.choice(SCALES), r]
    elif x < .15:
        b = rng.choice(list(NAMES))
        r = ["div", ["mul", r, ["u", b]], ["u", b]]
    elif x < .2:
        b = rng.choice(list(NAMES))
        r = ["mul", ["div", ["u", rng.choice(BYDIM[NAMES[b]])], ["u", b]], r]
    return r


def fixed_pairs():
    U = lambda n: ["u", n]
    for d, ns in BYDIM.items():
        for a in ns:
            for b in ns:
                yield U(a), U(b)
    kmph = ["div", U("km"), U("hr")]
    mps = ["div", U("m"), U("s")]
    yield kmph, mps
    yield ["mul", U("km"), U("s")], ["mul", U("s"), U("km")]
    yield ["mul", U("km"), U("km")], ["pow", U("m"), 2]
    yield ["pow", U("km"), 2], ["mul", U("m"), U("cm")]
    yield ["scale", 1000, U("m")], U("km")
    yield U("km"), ["scale", 1000, U("m")]
    yield ["scale", 2, U("km")], ["scale", 3, U("km")]
    yield ["scale", 2, ["scale", 3, U("km")]], U("m")
    yield ["pow", ["scale", 2, U("km")], 2], ["pow", U("m"), 2]
    yield ["pow", ["scale", 4, ["pow", U("km"), 2]], .5], U("m")
    yield ["div", ["scale", 2, U("km")], ["scale", 5, U("s")]], mps
    yield ["div", U("km"), U("km")], ["div", U("m"), U("mm")]
    yield ["div", U("km"), U("m")], ["div", U("m"), U("m")]
    yield ["div", kmph, U("s")], ["div", U("m"), ["pow", U("s"), 2]]
    yield ["div", U("s"), ["mul", U("s"), U("hr")]], ["inv", U("s")]
    yield ["inv", U("min")], ["pow", U("s"), -1]
    yield ["pow", kmph, -2], ["div", ["pow", U("s"), 2], ["pow", U("m"), 2]]
    yield ["pow", kmph, 2], ["div", ["pow", U("m"), 2], ["pow", U("s"), 2]]
    yield ["mul", kmph, U("hr")], U("m")
    yield ["div", U("deg"), U("s")], ["div", U("hourangle"), U("hr")]
    yield ["div", ["u", "deg"], ["u", "dy"]], ["mul", ["inv", ["u", "s"]], ["u", "rad"]]
    yield ["pow", ["pow", U("km"), 2], .5], U("mi")
    yield ["pow", ["scale", 2, kmph], 3], ["pow", mps, 3]
    yield ["mul", ["scale", 2, U("km")], ["scale", 3, U("hr")]], ["mul", U("s"), U("m")]
    yield ["pow", U("km"), 0], ["div", U("s"), U("s")]
    yield ["mul", ["pow", U("km"), 2], ["mul", U("m"), ["pow", U("km"), -1]]], ["pow", U("m"), 2]


def data_of(d):
    if d[0] == "f":
        return float(d[1])
    if d[0] == "i":
        return int(d[1])
    if d[0] == "np":
        return np.float64(d[1])
    a = np.array(d[1], dtype=dict(A=float, I=int)[d[0]])
    if len(d) > 2:
        a = a.reshape(d[2])
    return a


def rand_data(rng):
    k = rng.random()
    v = lambda: rng.choice([0.0, 1.0, -2.5, 1e-7, 123456.789, rng.uniform(-1e3, 1e3), -1e9])
    if k < .35:
        return ["f", v()]
    if k < .5:
        return ["i", rng.choice([0, 1, -3, 7, 12345])]
    if k < .75:
        return ["A", [v() for _ in range(rng.choice([1, 2, 3, 5]))]]
    if k < .9:
        return ["I", [rng.randint(-9, 9) for _ in range(rng.choice([1, 2, 4]))]]
    return ["A", [v() for _ in range(6)], [2, 3]]


def shape_kind(d):
    return d[0] + ("2" if len(d) > 2 else "")


def ops_of(t):
    if t[0] == "u":
        return t[1]
    return t[0] + "(" + ",".join(ops_of(x) if isinstance(x, list) else "" for x in t[1:]) + ")"


def okdata(q, want, rel=1e-9):
    got = np.asarray(q, dtype=float)
    want = np.asarray(want, dtype=float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= rel * np.abs(want) + 1e-300))


def same_data(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) and a.dtype == b.dtype if isinstance(a, np.ndarray) else a == b)
