"""C01: unit conversion preserves the physical value and never mutates."""
import numpy as np
from rt.base import *
from rt.ulib import *

RULE = ("pairs of unit expressions (all named pairs, fixed compound shapes, then random expressions of depth up to 3 and a "
        "differently built expression of the same dimension) x scalar, integer and array data; a case is distinct by unit shapes and data kind")


def cases(rng, tier):
    for a, b in fixed_pairs():
        yield dict(a=a, b=b, c=sibling(rng, b), data=rand_data(rng))
        yield dict(a=b, b=a, c=a, data=rand_data(rng))
    for i in range(6000 if tier == "quick" else 60000):
        a = rand_expr(rng, rng.choice([0, 1, 1, 2, 2, 3]))
        if rng.random() < .15:
            b = rand_expr(rng, 1)
        else:
            b = sibling(rng, a)
        yield dict(a=a, b=b, c=sibling(rng, a), data=rand_data(rng))


def check(c):
    Q, u = lib()
    a, b = build(c["a"]), build(c["b"])
    data = data_of(c["data"])
    import copy
    keep = copy.deepcopy(data)
    q = call("Quantity", Q, data, a)
    ua, ub = snapshot(a), snapshot(b)
    if dims(c["a"]) != dims(c["b"]):
        raises(ValueError, lambda: q.convert_to(b), "converting %s to %s" % (a, b))
        raises(ValueError, lambda: q.to(b), "converting %s to %s" % (a, b))
        expect(same_data(q.data, keep) and q.unit is a, "a failed conversion changed the quantity")
        return "mismatch", ops_of(c["a"]), ops_of(c["b"])
    try:
        ratio = size(c["a"]) / size(c["b"])
        sc = size(c["c"])
    except (OverflowError, ZeroDivisionError):
        raise Skip("size out of range")
    want = np.asarray(keep, dtype=float) * ratio
    if not np.all(np.isfinite(want)) or not 1e-150 < abs(ratio) < 1e150:
        raise Skip("size out of range")
    r = call("convert_to", q.convert_to, b)
    expect(okdata(r.data, want), "%r %s converted to %s is %r, expected %r", keep, a, b, r.data, want)
    expect(close(struct_size(r.unit), size(c["b"])) , "the converted quantity is in %s, not in %s", r.unit, b)
    expect(r.unit.dimension == b.dimension, "the converted quantity has dimension %s", r.unit.dimension)
    d = call("to", q.to, b)
    expect(okdata(d, want), "%r %s .to(%s) is %r, expected %r", keep, a, b, d, want)
    # nothing was modified
    expect(same_data(q.data, keep), "converting changed the data from %r to %r", keep, q.data)
    expect(same_data(data, keep), "converting changed the caller's array")
    expect(q.unit is a, "converting changed the unit of the source")
    expect(snapshot(a) == ua and snapshot(b) == ub, "converting changed a unit")
    if isinstance(r.data, np.ndarray):
        expect(not np.shares_memory(r.data, data), "the result shares its array with the source")
        r.data[...] = 7
        expect(same_data(data, keep), "writing the result changed the source")
        if isinstance(d, np.ndarray):
            expect(not np.shares_memory(d, data), "the result of to() shares its array with the source")
    # round trip and chain
    r = q.convert_to(b)
    back = call("round trip", r.convert_to, a)
    expect(okdata(back.data, keep), "round trip of %r %s via %s gives %r", keep, a, b, back.data)
    if dims(c["c"]) == dims(c["a"]) and 1e-150 < abs(sc) < 1e150:
        cc = build(c["c"])
        expect(okdata(r.convert_to(cc).data, q.to(cc)), "conversion %s -> %s -> %s differs from the direct one", a, b, cc)
    # the data of the quantity changed since it was last converted
    if isinstance(q.data, np.ndarray) and q.data.dtype.kind == "f" and q.data.flags.writeable:
        q.data[...] = 3 * q.data
        expect(okdata(q.to(b), 3 * want), "after the data of a quantity was multiplied by 3, %r %s .to(%s) is %r, expected %r", keep, a, b, q.to(b), 3 * want)
    return ops_of(c["a"]), ops_of(c["b"]), shape_kind(c["data"])
