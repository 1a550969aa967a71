"""Units and quantities through their contracts.

AbsUnit stands for an arbitrary unit of the library: a non-zero size and dimension exponents, and the operations as
their contracts (C04) describe them.  Quantity.convert_to is used through its contract (C01)."""
from vc.lib import *

Q = "celest.units.quantity"
CORE = "celest.units.core"


def canon(d):
    return "|".join("%s^%s" % (k, d[k]) for k in sorted(d)) or "1"


def merge(a, b, s):
    r = dict(a)
    for k, p in b.items():
        r[k] = r.get(k, 0) + s * p
    return {k: p for k, p in r.items() if p != 0}


def contract_units(w):
    """The class of units known only by contract."""
    core = w.get(CORE)

    class AbsUnit(core.BaseUnit):
        def __init__(self, size, dims, name):
            self.size, self.dims, self.label = size, dict(dims), name

        dimension = property(lambda self: canon(self.dims))

        def __str__(self):
            return self.label

        def __repr__(self):
            return 'Unit("%s")' % self.label

        def __mul__(self, o):
            if isinstance(o, AbsUnit):
                return AbsUnit(rmul(self.size, o.size), merge(self.dims, o.dims, 1), "(%s)(%s)" % (self.label, o.label))
            if load.b_isinstance(o, (load.T_INT, load.T_FLOAT)):
                return AbsUnit(rmul(self.size, raw(o)), self.dims, "n(%s)" % self.label)
            return NotImplemented

        __rmul__ = __mul__

        def __truediv__(self, o):
            if isinstance(o, AbsUnit):
                return AbsUnit(rdiv(self.size, o.size), merge(self.dims, o.dims, -1), "(%s)/(%s)" % (self.label, o.label))
            return NotImplemented

        def __rtruediv__(self, o):
            if o == 1:
                return AbsUnit(rdiv(1, self.size), merge({}, self.dims, -1), "1/(%s)" % self.label)
            return NotImplemented

        def __pow__(self, p):
            if not load.b_isinstance(p, (load.T_INT, load.T_FLOAT)):
                raise TypeError("Units must be raised to scalar powers.")
            if raw(p) == 0:
                return AbsUnit(1, {}, "1")
            return AbsUnit(sym.rpow(self.size, raw(p)), {k: v * raw(p) for k, v in self.dims.items()}, "(%s)^%s" % (self.label, raw(p)))

        def is_unity(self):
            return not self.dims and self.size == 1
    return AbsUnit


def new_unit(c, A, dims, name, positive=False):
    s = c.real("size_" + name)
    c.assume(s > 0 if positive else s != 0)
    return A(s, dims, name)


def convert_contract(real):
    """Contract of Quantity.convert_to (discharged under C01)."""
    def convert_to(self, new_unit):
        u = self.unit
        if u.dimension != new_unit.dimension:
            raise ValueError("New unit has a different dimension then the current unit.")
        return type(self)(self.data * wrap(rdiv(u.size, new_unit.size)), new_unit)
    return convert_to


def world():
    return World({Q + ":Quantity.convert_to": convert_contract})


def data(c, kind, n, name):
    if kind == "f":
        return Num(c.real(name))
    if kind == "i":
        return SymInt(c.int(name))
    return sym_array(c, name, n, "f" if kind == "A" else "i")


def elem(d, i):
    return el(d, i) if isinstance(d, Arr) else raw(d)


def phys(q, i):
    return rmul(elem(q.data, i), q.unit.size)
