"""C04: unit products, quotients and powers form a consistent algebra."""
from rt.base import *
from rt.ulib import *

RULE = "fixed and random unit expressions up to depth 4 with nested scaled compounds; distinct by expression shape"


def cases(rng, tier):
    for a, b in fixed_pairs():
        yield dict(a=a, b=b)
    for i in range(9000 if tier == "quick" else 90000):
        a = rand_expr(rng, rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([None, ["m", "km", "s"], ["deg", "rad", "s", "hr"]]))
        yield dict(a=a, b=sibling(rng, a) if rng.random() < .7 else rand_expr(rng, 2))


def subs(t):
    yield t
    for x in t[1:]:
        if isinstance(x, list):
            yield from subs(x)


def record(t, made):
    """Build, remembering every intermediate unit and how it looked when it was made."""
    k = t[0]
    if k == "u":
        r = named(t[1])
    elif k == "mul":
        r = record(t[1], made) * record(t[2], made)
    elif k == "div":
        r = record(t[1], made) / record(t[2], made)
    elif k == "pow":
        r = record(t[1], made) ** t[2]
    elif k == "scale":
        r = t[1] * record(t[2], made)
    elif k == "rscale":
        r = record(t[2], made) * t[1]
    else:
        r = 1 / record(t[1], made)
    made.append((t, r, snapshot(r)))
    return r


def check(c):
    lib()
    for t in (c["a"], c["b"]):
        made = []
        try:
            want = size(t)
            if not 1e-150 < abs(want) < 1e150 or isinstance(want, complex):
                raise Skip("size out of range")
        except (OverflowError, ZeroDivisionError):
            raise Skip("size out of range")
        x = call("building %s" % ops_of(t), record, t, made)
        got = struct_size(x)
        expect(close(got, want), "%s has size %r, expected %r", x, got, want)
        names = [b.short_name for b in x.bases]
        e = {}
        for b, p in zip(x.bases, x.powers):
            e[b.short_name] = e.get(b.short_name, 0) + p
        we = expo(t)
        if type(x).__name__ != "CompoundUnit":
            e, we = {}, {}
        expect(set(e) == set(we) and all(close(e[k], we[k]) for k in we), "%s has exponents %r, expected %r", x, e, we)
        expect(len(set(names)) == len(names), "%s repeats a base unit", x)
        expect(len(x.bases) == len(x.powers), "%s has %d bases and %d powers", x, len(x.bases), len(x.powers))
        for s, r, snap in made:
            expect(snapshot(r) == snap, "building %s changed %s, which it was built from, from %r to %r", x, ops_of(s), snap, snapshot(r))
    same = dims(c["a"]) == dims(c["b"])
    da, db = build(c["a"]).dimension, build(c["b"]).dimension
    expect((da == db) == same, "dimensions %r and %r for expressions with exponents %r and %r", da, db, dims(c["a"]), dims(c["b"]))
    return ops_of(c["a"]), same
