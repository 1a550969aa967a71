from vc.gl import *

FRAMES = {
    "GCRS": ("gcrs", ("x", "y", "z")), "ITRS": ("itrs", ("x", "y", "z")), "LVLH": ("lvlh", ("x", "y", "z")),
    "WGS84": ("wgs84", ("latitude", "longitude", "height")), "AzEl": ("azel", ("azimuth", "elevation")),
    "Attitude": ("attitude", ("roll", "pitch", "yaw")),
}


class World14:
    def __init__(self, c, frame):
        self.w = world()
        self.cls = getattr(self.w.get(FR + FRAMES[frame][0]), frame)
        self.u = self.w.get("celest.units")
        self.names = FRAMES[frame][1]
        like = self.u.km if frame in ("GCRS", "ITRS", "LVLH") else self.u.deg
        self.unit = unit_like(c, self.w, "d", like, False)
        self.lunit = unit_like(c, self.w, "l", self.u.km, False)
        self.loc = object()
        self.frame = frame

    def build(self, t, cs):
        if self.frame == "WGS84":
            return self.cls(t, *cs, self.unit, self.lunit)
        if self.frame in ("AzEl", "Attitude"):
            return self.cls(t, *cs, self.unit, self.loc)
        return self.cls(t, *cs, self.unit)


def arr_of(c, name, dims, kind):
    shape = tuple(dims)
    z = [z3.IntSort()] * len(shape)
    f = c.func(name, *z, z3.RealSort() if kind == "f" else z3.IntSort()) if shape else None
    v = c.real(name) if kind == "f" else c.int(name)
    return Arr(shape, (lambda idx: f(*[core.to_int(i) for i in idx])) if shape else (lambda idx: v), None, kind)


def good(frame, kind):
    def h(c):
        s = World14(c, frame)
        n = length(c, 0)
        t, cs = sym_array(c, "t", n), [sym_array(c, x, n, kind) for x in s.names]
        i = c.index(n)
        o = s.build(t, cs)
        c.cover("reached")
        c.prove("time stored", eq(el(o.time.data, i), el(t, i)))
        shape_is(c, "length of time", o.time.data, n)
        c.holds("unit of time", o.time.unit is s.u.jd2000)
        for k, (x, a) in enumerate(zip(s.names, cs)):
            q = getattr(o, x)
            c.prove("%s stored" % x, eq(el(q.data, i), el(a, i)))
            shape_is(c, "length of %s" % x, q.data, n)
            c.holds("unit of %s" % x, q.unit is (s.lunit if frame == "WGS84" and x == "height" else s.unit))
        if frame in ("AzEl", "Attitude"):
            c.holds("location stored", o.location is s.loc)
        if frame != "WGS84":
            v = unit_like(c, s.w, "v", s.unit, False)
            for what, to in (("another unit", v), ("its own unit", s.unit)):
                m = o.to_numpy(to)
                if shape_is(c, "export has one row per time, in " + what, m, n, len(s.names)):
                    for k, x in enumerate(s.names):
                        c.prove("export of %s in %s" % (x, what), eq(el(m, i, k), rdiv(rmul(el(cs[k], i), s.unit.size), to.size)))
            for k, (x, a) in enumerate(zip(s.names, cs)):
                c.prove("%s unchanged by export" % x, eq(el(getattr(o, x).data, i), el(a, i)))
                c.holds("unit of %s unchanged by export" % x, getattr(o, x).unit is s.unit)
    return h


def rank(frame, first):
    """Every combination of ranks but all one."""
    def h(c):
        s = World14(c, frame)
        arrs, ranks = [], []
        for j in range(1 + len(s.names)):
            r = first if j == 0 else (1, 2, 0, 3)[c.choose(4)]
            dims = [c.int("n%d" % j) for _ in range(r)]
            for d in dims:
                c.assume(d >= 0)
            arrs.append(arr_of(c, "a%d" % j, dims, "f"))
            ranks.append(r)
        if all(r == 1 for r in ranks):
            return
        c.cover("reached")
        raises(c, "arrays that are not one dimensional are rejected", ValueError, lambda: s.build(arrs[0], arrs[1:]))
    return h


def sizes(frame):
    def h(c):
        s = World14(c, frame)
        ns = [c.int("n%d" % j) for j in range(1 + len(s.names))]
        for n in ns:
            c.assume(n >= 0)
        arrs = [sym_array(c, "a%d" % j, n) for j, n in enumerate(ns)]
        same = AND(*[n == ns[0] for n in ns])
        c.cover("reached")
        try:
            s.build(arrs[0], arrs[1:])
        except ValueError:
            c.prove("rejected only when lengths differ", NOT(same))
            return
        c.prove("accepted only when all lengths are equal", same)
    return h


for f, (mod, names) in FRAMES.items():
    base = "Position2d" if f == "AzEl" else "Position3d"
    for kind in "fi":
        unit("C14", "%s: what is stored is returned, %s data" % (f, "real" if kind == "f" else "integer"), [f + ".__init__", base + ".__init__", base + ".to_numpy", base + ".time"] + [f + "." + x for x in names])(good(f, kind))
    for first in range(4):
        unit("C14", "%s: ranks, time of rank %d" % (f, first), [f + ".__init__", base + ".__init__"], bound="ranks 0 to 3; every length")(rank(f, first))
    unit("C14", "%s: lengths" % f, [f + ".__init__", base + ".__init__"])(sizes(f))
