from vc.ul import *

FS = ["Quantity.__neg__", "Quantity.__add__", "Quantity.__radd__", "Quantity.__sub__", "Quantity.__rsub__", "Quantity.__mul__", "Quantity.__rmul__", "Quantity.__truediv__", "Quantity.__rtruediv__"]
L, T = {"L": 1}, {"T": 1}


def same(c, name, q, d0, u0, i, e0):
    c.holds(name, q.unit is u0 and q.data is d0)
    c.prove(name, eq(elem(q.data, i), e0))


def result(c, w, name, r, i, want, dims, n):
    if not c.holds(name + ": a quantity is returned", isinstance(r, w.get(Q).Quantity), repr(type(r))):
        return
    if n is not None and isinstance(r.data, Arr):
        c.prove(name + ": one value per element", rcmp("==", raw(r.data.shape[0]), n))
    c.holds(name + ": dimension", r.unit.dims == dims, str(r.unit.dims))
    c.prove(name + ": physical value", eq(phys(r, i), want))


def pair(op, kx, ky, alike):
    def h(c):
        w = world()
        q = w.get(Q).Quantity
        A = contract_units(w)
        a, b = new_unit(c, A, {"L": 1, "T": -2}, "a"), new_unit(c, A, {"L": 1, "T": -2} if alike else {"A": 2, "T": 1}, "b")
        n = length(c)
        arrays = "A" in kx + ky or "I" in kx + ky
        i = c.index(n) if arrays else 0
        dx, dy = data(c, kx, n, "x"), data(c, ky, n, "y")
        x, y = elem(dx, i), elem(dy, i)
        p, r = q(dx, a), q(dy, b)
        X, Y = rmul(x, a.size), rmul(y, b.size)
        c.cover("reached")
        if op in "+-":
            f = (lambda: p + r) if op == "+" else (lambda: p - r)
            if not alike:
                raises(c, "different dimension", ArithmeticError, f)
            else:
                result(c, w, op, f(), i, (radd if op == "+" else rsub)(X, Y), a.dims, n if arrays else None)
        elif op == "*":
            result(c, w, op, p * r, i, rmul(X, Y), merge(a.dims, b.dims, 1), n if arrays else None)
        else:
            if "A" in ky or "I" in ky:
                c.assume_forall(n, lambda k: rcmp("!=", elem(dy, k), 0))
            else:
                c.assume(rcmp("!=", y, 0))
            result(c, w, op, p / r, i, rdiv(X, Y), merge(a.dims, b.dims, -1), n if arrays else None)
        same(c, "left operand not modified", p, dx, a, i, x)
        same(c, "right operand not modified", r, dy, b, i, y)
        c.holds("units not modified", a.dims == {"L": 1, "T": -2} and a.label == "a" and b.label == "b")
    return h


for op, nm in (("+", "sum"), ("-", "difference"), ("*", "product"), ("/", "quotient")):
    for alike in (True, False):
        for kx, ky in (("f", "f"), ("i", "f"), ("i", "i"), ("A", "A"), ("A", "f"), ("f", "A"), ("I", "A"), ("I", "I")):
            unit("C02", "%s, %s dimension, data %s %s" % (nm, "same" if alike else "different", kx, ky), FS)(pair(op, kx, ky, alike))


def plain(kx, kn):
    def h(c):
        w = world()
        q = w.get(Q).Quantity
        A = contract_units(w)
        a = new_unit(c, A, {"L": 1, "T": -2}, "a")
        n = length(c)
        i = c.index(n) if kx in "AI" else 0
        dx = data(c, kx, n, "x")
        x = elem(dx, i)
        m = data(c, kn, n, "m")
        N = raw(m)
        p = q(dx, a)
        X, M = rmul(x, a.size), rmul(N, a.size)
        nn = n if kx in "AI" else None
        c.cover("reached")
        result(c, w, "-q", -p, i, rneg(X), a.dims, nn)
        result(c, w, "q + n", p + m, i, radd(X, M), a.dims, nn)
        result(c, w, "n + q", m + p, i, radd(X, M), a.dims, nn)
        result(c, w, "q - n", p - m, i, rsub(X, M), a.dims, nn)
        result(c, w, "n - q", m - p, i, rsub(M, X), a.dims, nn)
        result(c, w, "q * n", p * m, i, rmul(X, N), a.dims, nn)
        result(c, w, "n * q", m * p, i, rmul(X, N), a.dims, nn)
        same(c, "operand not modified", p, dx, a, i, x)
        if c.branch(to_real(N) != 0):
            result(c, w, "q / n", p / m, i, rdiv(X, N), a.dims, nn)
        if nn is not None:
            c.assume_forall(n, lambda k: rcmp("!=", elem(dx, k), 0))
        else:
            c.assume(rcmp("!=", x, 0))
        result(c, w, "n / q", m / p, i, rdiv(N, X), merge({}, a.dims, -1), nn)
        same(c, "operand not modified", p, dx, a, i, x)
    return h


for kx in "fiAI":
    for kn in "fi":
        unit("C02", "plain number %s with data %s" % (kn, kx), FS)(plain(kx, kn))
