from vc.ul import *


class Product(loops.Spec):
    """Invariant of a loop over the bases of a unit: a local holds the size accumulated so far."""
    allow_for = True

    def __init__(self, units):
        self.units = units

    def candidates(self, entry, now):
        out = []
        for u in self.units:
            if u.parts is None:
                continue
            for name, v in now.items():
                if loops.numeric(v) is not None:
                    out.append(("%s is the size of the bases of %s so far" % (name, u.label), rcmp("==", raw(v), u.parts(self.pos))))
        return out


def units_by_structure(c, w):
    """Arbitrary units through their public structure: scale, bases, powers."""
    core_ = w.get(CORE)

    class Base(core_.Unit):
        def __init__(self, scale):
            self._s = scale

        scale = property(lambda self: wrap(self._s))

    def named(label, dims):
        class Named(core_.Unit):
            def __init__(self):
                self.label, self.parts = label, None
            scale = property(lambda self: wrap(self.size))
            dimension = property(lambda self: canon(dims))
            bases = property(lambda self: [self])
            powers = property(lambda self: [1])

            def __repr__(self):
                return 'Unit("%s")' % self.text
            __str__ = __repr__
        u = Named()
        u.size = c.real("size_" + label)
        c.assume(u.size != 0)
        return u

    def compound(label, dims):
        n = c.int("bases_" + label)
        c.assume(n >= 0)
        s0, s, p, S = c.real("scale_" + label), c.func("s_" + label, z3.IntSort(), z3.RealSort()), c.func("p_" + label, z3.IntSort(), z3.RealSort()), c.func("S_" + label, z3.IntSort(), z3.RealSort())
        c.assume(s0 != 0)
        c.assume(S(0) == s0)
        step = lambda k: z3.And(s(k) > 0, S(k + 1) == S(k) * core.to_real(sym.rpow(s(k), p(k))), z3.Implies(S(k) != 0, S(k + 1) != 0))
        c.assume_forall(n, step)
        # induction: S(0) != 0 and the step, so the size is not zero
        k = c.index(n, "k")
        c.prove("the size of a unit is not zero, induction step", z3.Implies(S(k) != 0, S(k) * core.to_real(sym.rpow(s(k), p(k))) != 0))
        c.assume(S(n) != 0)

        class Compound(core_.CompoundUnit):
            def __init__(self):
                self.label = label
                self.parts = lambda pos: s0 if not is_sym(pos) and pos == 0 else S(core.to_int(pos))
            scale = property(lambda self: wrap(s0))
            dimension = property(lambda self: canon(dims))
            bases = property(lambda self: seq.SymList(seq.SymSeq(n, lambda j: Base(s(core.to_int(j))))))
            powers = property(lambda self: seq.SymList(seq.SymSeq(n, lambda j: wrap(p(core.to_int(j))))))

            def __repr__(self):
                return 'CompoundUnit("%s")' % self.text
            __str__ = __repr__
        u = Compound()
        u.size = S(n)
        return u
    return named, compound


def setup(c, ka, kb, alike=True):
    w = World()
    named, compound = units_by_structure(c, w)
    a = (named if ka == "named" else compound)("a", {"L": 1})
    b = (named if kb == "named" else compound)("b", {"L": 1} if alike else {"T": 1})
    # contract of the textual form: units with the same text have the same size
    a.text = b.text = "x"
    if c.choose(2):
        b.text = "y"
    elif ka == kb:
        c.assume(a.size == b.size)
    c.loop_spec = Product([a, b])
    return w, a, b


def conv(ka, kb, kd):
    def h(c):
        w, a, b = setup(c, ka, kb)
        n = length(c)
        i = c.index(n) if kd in "AI" else 0
        d = data(c, kd, n, "x")
        x = elem(d, i)
        q = w.get(Q).Quantity(d, a)
        c.cover("reached")
        want = rdiv(rmul(x, a.size), b.size)
        r = q.convert_to(b)
        if not c.holds("a quantity is returned", isinstance(r, w.get(Q).Quantity)):
            return
        c.prove("physical value preserved", eq(rmul(elem(r.data, i), r.unit.size), rmul(x, a.size)))
        c.prove("data multiplied by the ratio of the sizes", eq(elem(r.data, i), want))
        c.holds("the result is in the requested unit", r.unit is b or (r.unit is a and a.text == b.text and ka == kb))
        if kd in "AI":
            shape_is(c, "one value per element", r.data, n)
            c.holds("the result has its own array", r.data is not d and r.data.buf is not d.buf)
        c.prove("to() gives the same data", eq(elem(q.to(b), i), want))
        c.holds("source not modified", q.data is d and q.unit is a)
        c.prove("source data not modified", eq(elem(q.data, i), x))
        if kd in "AI":
            c.holds("the result of to() has its own array", q.to(b).buf is not d.buf)
        if kd == "A":
            y = c.real("y")
            q.data[wrap(i)] = Num(y)
            c.prove("a conversion reads the data as they now are", eq(elem(q.to(b), i), rdiv(rmul(y, a.size), b.size)))
    return h


def bad(ka, kb):
    def h(c):
        w, a, b = setup(c, ka, kb, False)
        d = Num(c.real("x"))
        q = w.get(Q).Quantity(d, a)
        c.cover("reached")
        raises(c, "another dimension", ValueError, lambda: q.convert_to(b))
        raises(c, "another dimension", ValueError, lambda: q.to(b))
        c.holds("source not modified", q.data is d and q.unit is a)
    return h


KINDS = ("named", "compound")
for ka in KINDS:
    for kb in KINDS:
        for kd in "fiAI":
            unit("C01", "convert_to, %s to %s unit, data %s" % (ka, kb, kd), ["Quantity.convert_to", "Quantity.to"])(conv(ka, kb, kd))
        unit("C01", "convert_to another dimension, %s to %s unit" % (ka, kb), ["Quantity.convert_to", "Quantity.to"])(bad(ka, kb))


@unit("C01", "round trip and chain", ["Quantity.convert_to"])
def chain(c):
    """Consequences of the contract of convert_to."""
    from vc.ul import world
    w = world()
    q = w.get(Q).Quantity
    A = contract_units(w)
    a, b, d = [new_unit(c, A, {"L": 1}, s) for s in "abd"]
    x = c.real("x")
    c.cover("reached")
    p = q(Num(x), a)
    c.prove("a round trip restores the data", eq(p.convert_to(b).convert_to(a).data, x))
    c.prove("a chain agrees with the direct conversion", eq(p.convert_to(b).to(d), p.to(d)))


COMBOS = [((), ()), (("m",), ()), (("m",), ("m",)), (("m",), ("mm",)), (("m",), ("jd2000",)), (("m", "s"), ("m", "s")), (("m", "s"), ("s", "m")), (("m", "s"), ("m", "min")), (("m", "s"), ("m",))]


def text(na, nb):
    def h(c):
        w = World()
        u, k = w.get("celest.units"), w.get(CORE)

        def build(names, tag):
            s = c.real("scale" + tag)
            c.assume(s > 0)
            ps = [c.real("p%s%d" % (tag, j)) for j in range(len(names))]
            for p in ps:
                c.assume(p != 0)
            x = k.CompoundUnit(Num(s), [getattr(u, n) for n in names], [Num(p) for p in ps])
            z = s
            for n, p in zip(names, ps):
                z = rmul(z, sym.rpow(raw(getattr(u, n).scale), p))
            return x, z
        a, za = build(na, "a")
        b, zb = build(nb, "b")
        c.cover("reached")
        same = load.h_eq(repr(a), repr(b))
        c.prove("units with the same text have the same size", True if same is False else IMP(core.to_bool(raw(same)), rcmp("==", za, zb)))
    return h


for na, nb in COMBOS:
    unit("C01", "text of units %s and %s" % (" ".join(na) or "1", " ".join(nb) or "1"), ["_to_string", "generate_compound_unit_string", "CompoundUnit.__repr__"], bound="these base names; every scale and power")(text(na, nb))


def derived(n_bases):
    def h(c):
        w = World()
        k = w.get(CORE)
        s = c.real("scale")
        c.assume(s > 0)
        bases, z = [], s
        for j in range(n_bases):
            b = k.Unit("u%d" % j, "u", None)
            t = c.real("t")
            c.assume(t > 0)
            d = k.Unit("v%d" % j, "v", None, Num(t) * b)
            c.prove("a unit defined as a multiple of a base unit has that size", eq(d.scale, t))
            p = c.real("p")
            c.assume(p != 0)
            bases.append((d, p))
            z = rmul(z, sym.rpow(t, p))
        c.cover("reached")
        comp = k.CompoundUnit(Num(s), [b for b, _ in bases], [Num(p) for _, p in bases])
        x = k.Unit("x", "x", None, comp)
        c.prove("a named unit has the size of its definition", eq(x.scale, z))
    return h


for nb in (1, 2, 3):
    unit("C01", "unit defined from %d bases" % nb, ["Unit.__init__", "NamedUnit.__init__"], bound="%d base units; every scale and power" % nb)(derived(nb))
