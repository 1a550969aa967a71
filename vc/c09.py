from vc.gl import *

NP_ = "celest.coordinates.nutation_precession_matrices"


def const(n, v):
    return Arr((n,), lambda idx: Fraction(v), None, "f")


def convert(name, src, dst):
    def setup(c, kind="f"):
        w = world()
        u = w.get("celest.units")
        n = length(c)
        i = c.index(n)
        t = sym_array(c, "jd", n)
        un = unit_like(c, w, "d", u.km, False)
        S, D = getattr(w.get(FR + src.lower()), src), getattr(w.get(FR + dst.lower()), dst)
        f = getattr(w.get(TR), name)
        return w, u, n, i, t, un, S, D, f

    def columns(c, f, S, t, n, un, i):
        return [xyz(f(S(t, *[const(n, 1 if j == k else 0) for j in range(3)], un)), i) for k in range(3)]

    for kind in "fi":
        def linear(c, kind=kind):
            w, u, n, i, t, un, S, D, f = setup(c)
            a = [sym_array(c, "r" + k, n, kind) for k in "xyz"]
            o = S(t, *a, un)
            c.cover("reached")
            r = f(o)
            if not c.holds("an object of the requested frame is returned", isinstance(r, D)):
                return
            for q in (r.x, r.y, r.z):
                shape_is(c, "one value per time", q.data, n)
                c.holds("the unit is carried over", q.unit is un)
            shape_is(c, "one time per sample", r.time.data, n)
            c.prove("times are carried over", eq(el(r.time.data, i), el(t, i)))
            c.holds("times stay Julian days", r.time.unit is u.jd2000)
            M = columns(c, f, S, t, n, un, i)
            v = [core.to_real(el(x, i)) for x in a]
            for k in range(3):
                c.prove("the result is a matrix, depending on the time alone, times the vector", eq(xyz(r, i)[k], dot([M[j][k] for j in range(3)], v)))
            for q, x in zip((o.x, o.y, o.z, o.time), a + [t]):
                c.prove("the input is not modified", eq(el(q.data, i), el(x, i)))
                c.holds("the input's unit is not modified", q.unit is (u.jd2000 if x is t else un))
                c.holds("the input keeps its own array", q.data is x)
        unit("C09", "%s is linear, %s data" % (name, "real" if kind == "f" else "integer"), [name, "_rotate_by_earth_rotation_angle", "earth_rotation_angle"], partial="prove")(linear)

    def rotation(c):
        w, u, n, i, t, un, S, D, f = setup(c)
        c.cover("reached")
        M = columns(c, f, S, t, n, un, i)
        for j in range(3):
            for k in range(j, 3):
                c.prove("columns %d and %d of the matrix are orthonormal" % (j, k), eq(dot(M[j], M[k]), 1 if j == k else 0))
        x = cross(M[0], M[1])
        for k in range(3):
            c.prove("the matrix keeps handedness", eq(x[k], M[2][k]))
    unit("C09", "%s is a rotation" % name, [name, "bias_matrix", "precession_matrix", "nutation_matrix", "_rotate_by_earth_rotation_angle"], partial="prove")(rotation)

    def back(c):
        w, u, n, i, t, un, S, D, f = setup(c)
        g = getattr(w.get(TR), "_itrs_to_gcrs" if name == "_gcrs_to_itrs" else "_gcrs_to_itrs")
        for k in range(3):
            r = g(f(S(t, *[const(n, 1 if j == k else 0) for j in range(3)], un)))
            c.holds("back in the frame", isinstance(r, S))
            c.cover("reached")
            for j, y in enumerate(xyz(r, i)):
                c.prove("there and back restores the data", eq(y, 1 if j == k else 0))
            c.prove("there and back restores the times", eq(el(r.time.data, i), el(t, i)))
            c.holds("there and back restores the unit", r.x.unit is un and r.y.unit is un and r.z.unit is un)
    unit("C09", "%s and back" % name, ["_gcrs_to_itrs", "_itrs_to_gcrs"], partial="prove")(back)

    def other(c):
        w, u, n, i, t, un, S, D, f = setup(c)
        c.cover("reached")
        raises(c, "input of another frame", ValueError, lambda: f(D(t, t, t, t, un)))
    unit("C09", "%s of another frame" % name, [name])(other)


convert("_gcrs_to_itrs", "GCRS", "ITRS")
convert("_itrs_to_gcrs", "ITRS", "GCRS")


@unit("C09", "consequences of orthonormal columns", ["_gcrs_to_itrs", "_itrs_to_gcrs"])
def consequences(c):
    """A matrix with orthonormal columns m0, m1, m0 x m1 preserves inner products and triple products."""
    M = [[c.real("m") for _ in range(3)] for _ in range(3)]
    a, b, d = [[c.real("v") for _ in range(3)] for _ in range(3)]
    I = {}
    for j in range(3):
        for k in range(j, 3):
            I[j, k] = I[k, j] = c.real("i")
    img = lambda v: [dot([M[j][k] for j in range(3)], v) for k in range(3)]
    s = 0
    for j in range(3):
        for k in range(3):
            s = radd(s, rmul(rmul(a[j], b[k]), dot(M[j], M[k])))
    c.cover("reached")
    c.prove("inner products are sums of inner products of columns", eq(dot(img(a), img(b)), s))
    s2 = 0
    for j in range(3):
        for k in range(3):
            s2 = radd(s2, rmul(rmul(a[j], b[k]), 1 if j == k else 0))
    c.prove("with orthonormal columns this is the inner product", eq(s2, dot(a, b)))
    det = dot(cross(M[0], M[1]), M[2])
    c.prove("triple products are multiplied by the determinant", eq(dot(cross(img(a), img(b)), img(d)), rmul(det, dot(cross(a, b), d))))
