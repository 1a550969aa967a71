"""C02: quantity arithmetic acts on physical values."""
import copy
import numpy as np
from rt.base import *
from rt.ulib import *

RULE = "operators x unit expression pairs of equal and different dimension x scalar, integer, array data and plain numbers; distinct by operator, unit shapes and data kinds"
OPS = ["add", "sub", "mul", "div", "neg"]


def cases(rng, tier):
    fp = list(fixed_pairs())
    for a, b in fp:
        for op in OPS:
            yield dict(op=op, a=a, b=b, x=rand_data(rng), y=rand_data(rng), n=rng.choice([2, -3, .5, 0, 7.25]))
            yield dict(op=op, a=b, b=a, x=["f", 3.5], y=["f", -1.25], n=rng.choice([2, -3, .5, 1]))
    for i in range(6000 if tier == "quick" else 60000):
        a = rand_expr(rng, rng.choice([0, 0, 1, 1, 2]))
        b = sibling(rng, a) if rng.random() < .6 else rand_expr(rng, rng.choice([0, 1, 2]))
        x, y = rand_data(rng), rand_data(rng)
        yield dict(op=rng.choice(OPS), a=a, b=b, x=x, y=y, n=rng.choice([2, -3, .5, 0, 7.25, 1, 1.0, -0.125]))


def phys(q):
    return np.asarray(q.data, dtype=float) * struct_size(q.unit)


def isdim(q, want):
    names = {}
    for b, p in zip(q.unit.bases, q.unit.powers):
        d = NAMES[b.short_name]
        names[d] = names.get(d, 0) + p
    return {d: p for d, p in names.items() if abs(p) > 1e-12} == want


def near(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol))


def check(c):
    Q, u = lib()
    a, b = build(c["a"]), build(c["b"])
    x, y, n = data_of(c["x"]), data_of(c["y"]), c["n"]
    try:
        np.broadcast(np.asarray(x), np.asarray(y))
    except ValueError:
        x = np.asarray(x).ravel()[0].item()
    p, q = Q(x, a), Q(y, b)
    kx, ky = copy.deepcopy(x), copy.deepcopy(y)
    sa, sb = snapshot(a), snapshot(b)
    za, zb = size(c["a"]), size(c["b"])
    if not (1e-60 < abs(za) < 1e60 and 1e-60 < abs(zb) < 1e60):
        raise Skip("size out of range")
    X, Y = np.asarray(x, float) * za, np.asarray(y, float) * zb
    da, db = dims(c["a"]), dims(c["b"])
    op = c["op"]
    what = "%r %s %s %r %s" % (x, a, op, y, b)

    def unchanged():
        expect(same_data(p.data, kx) and same_data(q.data, ky), "%s modified an operand", what)
        expect(p.unit is a and q.unit is b and snapshot(a) == sa and snapshot(b) == sb, "%s modified an operand's unit", what)

    if op == "neg":
        r = call(what, lambda: -p)
        expect(near(phys(r), -X, 1e-9 * np.abs(X) + 1e-300), "-(%r %s) is %s", x, a, r)
        expect(isdim(r, da), "-(%s) has unit %s", a, r.unit)
    elif op in ("add", "sub"):
        sg = 1 if op == "add" else -1
        tol = 1e-9 * (np.abs(X) + np.abs(Y)) + 1e-300
        if da != db:
            f = (lambda: p + q) if sg == 1 else (lambda: p - q)
            raises(ArithmeticError, f, what)
        else:
            r = call(what, (lambda: p + q) if sg == 1 else (lambda: p - q))
            expect(isinstance(r, Q) and near(phys(r), X + sg * Y, tol), "%s is %s, physically %r expected %r", what, r, phys(r), X + sg * Y)
            expect(isdim(r, da), "%s has unit %s", what, r.unit)
        N = n * za
        tol = 1e-9 * (np.abs(X) + abs(N)) + 1e-300
        r = call(what, (lambda: p + n) if sg == 1 else (lambda: p - n))
        expect(near(phys(r), X + sg * N, tol), "%r %s %s %r is %s", x, a, op, n, r)
        expect(isdim(r, da), "%s has unit %s", what, r.unit)
        r = call(what, (lambda: n + p) if sg == 1 else (lambda: n - p))
        expect(near(phys(r), N + sg * X, tol), "%r %s %r %s is %s", n, op, x, a, r)
        expect(isdim(r, da), "%s has unit %s", what, r.unit)
    elif op == "mul":
        r = call(what, lambda: p * q)
        dd = {k: da.get(k, 0) + db.get(k, 0) for k in {**da, **db}}
        expect(near(phys(r), X * Y, 1e-9 * np.abs(X * Y) + 1e-300), "%s is %s, physically %r expected %r", what, r, phys(r), X * Y)
        expect(isdim(r, {k: v for k, v in dd.items() if abs(v) > 1e-12}), "%s has unit %s", what, r.unit)
        for r in (call(what, lambda: p * n), call(what, lambda: n * p)):
            expect(near(phys(r), X * n, 1e-9 * np.abs(X * n) + 1e-300) and isdim(r, da), "%r %s times %r is %s", x, a, n, r)
    else:
        dd = {k: da.get(k, 0) - db.get(k, 0) for k in {**da, **db}}
        if np.all(np.asarray(y) != 0):
            r = call(what, lambda: p / q)
            expect(near(phys(r), X / Y, 1e-9 * np.abs(X / Y) + 1e-300), "%s is %s, physically %r expected %r", what, r, phys(r), X / Y)
            expect(isdim(r, {k: v for k, v in dd.items() if abs(v) > 1e-12}), "%s has unit %s", what, r.unit)
            r = call(what, lambda: n / q)
            expect(near(phys(r), n / Y, 1e-9 * np.abs(n / Y) + 1e-300), "%r / (%r %s) is %s", n, y, b, r)
            expect(isdim(r, {k: -v for k, v in db.items()}), "%s has unit %s", what, r.unit)
        if n != 0:
            r = call(what, lambda: p / n)
            expect(near(phys(r), X / n, 1e-9 * np.abs(X / n) + 1e-300) and isdim(r, da), "%r %s / %r is %s", x, a, n, r)
    unchanged()
    return op, ops_of(c["a"]), ops_of(c["b"]), shape_kind(c["x"]), shape_kind(c["y"])
