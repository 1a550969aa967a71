"""Frames, locations and satellites: arbitrary units by contract, positions as arbitrary arrays."""
from vc.ul import *

GLM = "celest.coordinates.ground_location"
TR = "celest.coordinates.transforms"
FR = "celest.coordinates.frames."


def size_of(un):
    """Size of a unit: that of its definition (for units known by contract, a symbol)."""
    if hasattr(un, "size"):
        return un.size
    z = raw(un.scale)
    if type(un).__name__ == "CompoundUnit":
        for b, p in zip(un.bases, un.powers):
            z = rmul(z, sym.rpow(raw(b.scale), raw(p)))
    return z


def convert(real):
    """Contract of Quantity.convert_to (discharged under C01)."""
    def convert_to(self, new_unit):
        un = self.unit
        if un.dimension != new_unit.dimension:
            raise ValueError("New unit has a different dimension then the current unit.")
        d = self.data
        f = rdiv(size_of(un), size_of(new_unit))
        if isinstance(d, Arr):
            d = d.copy() if f == 1 and not is_sym(f) else d * wrap(f)
        elif not (f == 1 and not is_sym(f)):
            d = d * wrap(f)
        return type(self)(d, new_unit)
    return convert_to


def world(**over):
    o = {Q + ":Quantity.convert_to": convert}
    o.update(over)
    return World(o)


def unit_like(c, w, name, like, positive=True):
    """An arbitrary unit of the dimension of `like`."""
    A = contract_units(w)

    class Like(A):
        dimension = property(lambda self: like.dimension)
    s = c.real("size_" + name)
    c.assume(s > 0 if positive else s != 0)
    return Like(s, {name: 1}, name)


def located(c, w, name="g"):
    """Overrides for GroundLocation.itrs_*: any point (contract discharged under C10)."""


def xyz(f, i):
    return [el(q.data, i) for q in (f._get_x(), f._get_y(), f._get_z())]


def place(c, w, unit, name="g"):
    """A ground location known only by its Earth-fixed position (contract of GroundLocation.itrs_*: C10)."""
    q = w.get(Q).Quantity
    p = [c.real(name + k) for k in "xyz"]

    class Place(w.get(GLM).GroundLocation):
        def __init__(self):
            pass
        itrs_x = property(lambda self: q(Num(p[0]), unit))
        itrs_y = property(lambda self: q(Num(p[1]), unit))
        itrs_z = property(lambda self: q(Num(p[2]), unit))
    return Place(), p


def frame3(c, w, cls, n, unit, name, kind="f", t=None):
    t = sym_array(c, "t" + name, n) if t is None else t
    a = [sym_array(c, name + k, n, kind) for k in "xyz"]
    return getattr(w.get(FR + cls.lower()), cls)(t, *a, unit), t, a


def times_size(v, un, to):
    return [rdiv(rmul(x, un.size if hasattr(un, "size") else size_of(un)), size_of(to)) for x in v]


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = radd(r, rmul(x, y))
    return r


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])), rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


def sub(a, b):
    return [rsub(x, y) for x, y in zip(a, b)]


def scale(k, a):
    return [rmul(k, x) for x in a]


def within(c, d, p, squares):
    """Lemma: |d| <= p, because p >= 0 and p^2 - d^2 is the given sum of squares."""
    x, y = c.real("x"), c.real("y")
    c.prove("lemma: d^2 <= p^2 and p >= 0 give |d| <= p", IMP(AND(y >= 0, x * x <= y * y), AND(x <= y, x >= -y)))
    ok = c.prove("lemma: p is not negative", rcmp(">=", p, 0))
    ok &= c.prove("lemma: p^2 - d^2 is a sum of squares", eq(rsub(rmul(p, p), rmul(d, d)), dot(squares, squares)))
    if ok:
        c.assume(AND(core.to_real(d) <= core.to_real(p), core.to_real(d) >= -core.to_real(p)))


def angle_is(c, name, deg, a, b):
    """deg is the angle between a and b: its cosine times |a||b| is a.b."""
    D, A, B = dot(a, b), dot(a, a), dot(b, b)
    na, nb = rsqrt(A), rsqrt(B)
    within(c, D, rmul(na, nb), cross(a, b))
    c.prove(name, eq(rmul(rmul(na, nb), sym.rcos(rdiv(rmul(deg, PI_Q), 180))), D))


def equal(c, d, p):
    """Lemma: d = p, because both are not negative and have the same square."""
    x, y = c.real("x"), c.real("y")
    c.prove("lemma: non-negative numbers with one square are equal", IMP(AND(y >= 0, x >= 0, x * x == y * y), x == y))
    ok = c.prove("lemma: p is not negative", rcmp(">=", p, 0))
    ok &= c.prove("lemma: d is not negative", rcmp(">=", d, 0))
    ok &= c.prove("lemma: d and p have the same square", eq(rmul(d, d), rmul(p, p)))
    if ok:
        c.assume(core.to_real(d) == core.to_real(p))


def direction(c, name, s, k, E, N):
    """(s, k) is the direction of (E, N): parallel and not opposite."""
    c.prove(name + ": parallel", eq(rmul(s, N), rmul(k, E)))
    c.prove(name + ": not opposite", rcmp(">", radd(rmul(s, E), rmul(k, N)), 0))
