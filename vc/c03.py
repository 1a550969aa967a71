from vc.ul import *
import operator

FS = ["Quantity.__eq__", "Quantity.__ne__", "Quantity.__lt__", "Quantity.__le__", "Quantity.__gt__", "Quantity.__ge__"]
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def build(c, kx, ky, alike):
    w = world()
    q = w.get(Q).Quantity
    A = contract_units(w)
    a, b = new_unit(c, A, {"L": 1}, "a", True), new_unit(c, A, {"L": 1} if alike else {"T": 1}, "b", True)
    return q(data(c, kx, 1, "x"), a), q(data(c, ky, 1, "y"), b)


def cmp(op, kx, ky):
    def h(c):
        p, q = build(c, kx, ky, True)
        dp, dq = p.data, q.data
        X, Y = phys(p, 0), phys(q, 0)
        c.cover("reached")
        r = OPS[op](p, q)
        want = rcmp(op, X, Y)
        g = raw(r)
        if not c.holds("a truth value is returned", isinstance(g, bool) or isinstance(g, z3.BoolRef), repr(r)):
            return
        c.prove("truth of the physical comparison", g == want if is_sym(g) else (want if g else z3.Not(core.to_bool(want))))
        c.holds("operands not modified", p.data is dp and q.data is dq)
    return h


def bad(op):
    def h(c):
        p, q = build(c, "f", "f", False)
        c.cover("reached")
        raises(c, "different dimension", ArithmeticError, lambda: OPS[op](p, q))
    return h


for op in OPS:
    for kx, ky in (("f", "f"), ("i", "f"), ("f", "i"), ("i", "i")):
        unit("C03", "%s, data %s %s" % (op, kx, ky), FS)(cmp(op, kx, ky))
    unit("C03", "%s of different dimensions" % op, FS)(bad(op))


@unit("C03", "not a quantity", FS)
def other(c):
    p, q = build(c, "f", "f", True)
    c.cover("reached")
    for o in (5, Num(c.real("o")), None, "km", [1], (1,), object(), True, p.unit, {}):
        for n, r, want in (("q == x", p == o, False), ("q != x", p != o, True), ("x == q", o == p, False), ("x != q", o != p, True)):
            c.holds("never equal to something else", r is want, "%s is %r for %r" % (n, r, o))
