"""C03: quantity comparisons agree with physical order."""
from rt.base import *
from rt.ulib import *

RULE = "pairs of scalar quantities: equal (exactly representable), nearly equal, ordered both ways, in equal and different units, mismatched dimension, and non-quantities; distinct by relation, unit shapes, data kind"
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
OTHERS = ["5", "1.5", "None", "'km'", "[1]", "object()", "u.m", "(1,)", "True"]


def cases(rng, tier):
    fp = list(fixed_pairs())
    for o in OTHERS:
        for n in ("m", "hr", "deg"):
            yield dict(kind="other", a=["u", n], x=1, o=o)
    for a, b in fp:
        for x in (1, 2.0, -4, 0, 0.5):
            yield dict(kind="exact", a=a, b=b, x=x)
        for _ in range(6):
            yield dict(kind="order", a=a, b=b, x=rng.choice([1.0, -3.5, 1000.0, 1e-3, 7]), f=rng.choice([1 + 1e-7, 1 - 1e-7, 2, .5, -1, 1000, 0]))
        yield dict(kind="same", a=a, b=a, x=rng.uniform(-9, 9))
    for i in range(8000 if tier == "quick" else 80000):
        a = rand_expr(rng, rng.choice([0, 0, 1, 2]))
        k = rng.random()
        if k < .15:
            yield dict(kind="mismatch", a=a, b=rand_expr(rng, rng.choice([0, 1])), x=rng.uniform(-5, 5), y=rng.uniform(-5, 5))
        elif k < .25:
            yield dict(kind="same", a=a, b=a, x=rng.uniform(-9, 9))
        elif k < .35:
            yield dict(kind="exact", a=a, b=sibling(rng, a), x=rng.choice([1, 2, 4, -1, 0, .5]))
        else:
            yield dict(kind="order", a=a, b=sibling(rng, a), x=rng.uniform(-1e4, 1e4), f=rng.choice([1 + 1e-7, 1 - 1e-7, 2, .5, -1, 1000, 0, 1e-4]))


def check(c):
    Q, u = lib()
    a = build(c["a"])
    k = c["kind"]
    if k == "other":
        q, o = Q(c["x"], a), eval(c["o"], dict(u=u))
        for n, r, want in (("==", call("==", lambda: q == o), False), ("!=", call("!=", lambda: q != o), True),
                           ("reflected ==", call("==", lambda: o == q), False), ("reflected !=", call("!=", lambda: o != q), True)):
            expect(r is want, "%s %s %s is %r", q, n, c["o"], r)
        return k, c["o"]
    b = build(c["b"])
    if dims(c["a"]) != dims(c["b"]):
        p, q = Q(c["x"], a), Q(c.get("y", 1.0), b)
        for n, f in OPS.items():
            raises(ArithmeticError, lambda: f(p, q), "%s %s %s" % (p, n, q))
        return "mismatch", ops_of(c["a"]), ops_of(c["b"])
    za, zb = size(c["a"]), size(c["b"])
    if not (1e-60 < abs(za) < 1e60 and 1e-60 < abs(zb) < 1e60):
        raise Skip("size out of range")
    x = c["x"]
    if k == "mismatch":
        k, c = "order", dict(c, f=2)
    if k == "same":
        y, rel = x, 0
    elif k == "exact":
        # the same physical value, when it is represented exactly whichever way it is converted
        y = x * (za / zb)
        names = [t[1] for t in (c["a"], c["b"]) if t[0] == "u"]
        ways = {y, x * za / zb, x / zb * za, x / (zb / za)}
        back = {y * (zb / za), y * zb / za, y / za * zb, y / (za / zb)}
        if len(names) != 2 or ways != {y} or back != {float(x)}:
            raise Skip("not exactly representable")
        rel = 0
    else:
        if x == 0:
            raise Skip("zero")
        y = x * (za / zb) * c["f"]
        X, Y = x * za, y * zb
        rel = (X > Y) - (X < Y)
        if abs(X - Y) < 1e-8 * max(abs(X), abs(Y)):
            raise Skip("too close for machine arithmetic")
    p, q = Q(x, a), Q(y, b)
    want = {"==": rel == 0, "!=": rel != 0, "<": rel < 0, "<=": rel <= 0, ">": rel > 0, ">=": rel >= 0}
    for n, f in OPS.items():
        r = call(n, f, p, q)
        expect(bool(r) == want[n], "%s %s %s is %r", p, n, q, r)
        back = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n, n)
        r = call(back, OPS[back], q, p)
        expect(bool(r) == want[n], "%s %s %s is %r", q, back, p, r)
    expect(p.data == x and q.data == y and p.unit is a and q.unit is b, "comparison modified an operand")
    return k, rel, ops_of(c["a"]), ops_of(c["b"])
