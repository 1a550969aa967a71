import itertools
import re
from vc.lib import *
CORE = "celest.units.core"
FS = ["CompoundUnit.__init__", "CompoundUnit._expand_and_collect", "BaseUnit.__mul__", "BaseUnit.__rmul__", "BaseUnit.__truediv__", "BaseUnit.__rtruediv__", "BaseUnit.__pow__", "BaseUnit.is_unity", "CompoundUnit.is_unity"]


class Made:
    """A unit with its expected size and exponents."""

    def __init__(self, u, scale, e):
        self.u, self.scale, self.e = u, scale, e


def shapes(c, w, shape, tag):
    """shape: names of base units; ('km',) plain, ['km', 's'] compound with symbolic scale and powers."""
    u, k = w.get("celest.units"), w.get(CORE)
    if isinstance(shape, str):
        b = getattr(u, shape)
        return Made(b, Fraction(1), {b: Fraction(1)})
    s = c.real("scale" + tag)
    c.assume(s > 0)
    e = {}
    for j, n in enumerate(shape):
        p = c.real("p%s%d" % (tag, j))
        c.assume(p != 0)
        e[getattr(u, n)] = p
    return Made(k.CompoundUnit(Num(s), list(e), [Num(p) for p in e.values()]), s, e)


def struct(w, u):
    """Scale and exponents a unit states: public interface only."""
    k = w.get(CORE)
    if not isinstance(u, k.CompoundUnit):
        return Fraction(1), {u: Fraction(1)}
    return raw(u.scale), [(b, raw(p)) for b, p in zip(u.bases, u.powers)]


def snap(w, u):
    return raw(u.scale), list(u.bases), [raw(p) for p in u.powers]


def unchanged(c, w, u, s):
    t = snap(w, u)
    same = lambda a, b: a is b or (is_sym(a) and is_sym(b) and a.eq(b)) or (not is_sym(a) and not is_sym(b) and a == b)
    c.holds("building a unit does not change its parts", same(t[0], s[0]) and len(t[1]) == len(s[1]) and all(x is y for x, y in zip(t[1], s[1])) and len(t[2]) == len(s[2]) and all(same(x, y) for x, y in zip(t[2], s[2])), "%r %r" % (s, t))


def check(c, w, name, r, scale, e):
    """r has this scale and these exponents, each base once, none with exponent zero."""
    k = w.get(CORE)
    if not c.holds(name + ": a unit is returned", isinstance(r, k.BaseUnit), repr(type(r))):
        return
    rs, re = struct(w, r)
    re = list(re.items()) if isinstance(re, dict) else re
    c.holds(name + ": each base unit once", len({id(b) for b, _ in re}) == len(re))
    got = {}
    for b, p in re:
        got[b] = radd(got[b], p) if b in got else p
    c.holds(name + ": only base units", all(not isinstance(b, k.CompoundUnit) for b in got))
    for b in set(got) | set(e):
        g, x = got.get(b, Fraction(0)), e.get(b, Fraction(0))
        c.prove(name + ": exponent", rcmp("==", g, x))
        if b in got:
            c.prove(name + ": cancelled bases disappear", rcmp("!=", g, 0))
    c.prove(name + ": scale", rcmp("==", rs, scale))


def pw(s, p):
    return sym.rpow(s, p)


def binop(sa, sb, op):
    def h(c):
        w = World()
        a, b = shapes(c, w, sa, "a"), shapes(c, w, sb, "b")
        ka, kb = snap(w, a.u), snap(w, b.u)
        c.cover("reached")
        sg = 1 if op == "*" else -1
        r = a.u * b.u if op == "*" else a.u / b.u
        e = dict(a.e)
        for x, p in b.e.items():
            e[x] = radd(e.get(x, Fraction(0)), rmul(sg, p))
        check(c, w, op, r, rmul(a.scale, b.scale) if sg == 1 else rdiv(a.scale, b.scale), e)
        unchanged(c, w, a.u, ka)
        unchanged(c, w, b.u, kb)
    return h


def unop(sa):
    def h(c):
        w = World()
        a = shapes(c, w, sa, "a")
        ka = snap(w, a.u)
        c.cover("reached")
        n, p = c.real("n"), c.real("p")
        c.assume(n != 0)
        c.assume(p != 0)
        up = lambda q: {x: rmul(v, q) for x, v in a.e.items()}
        check(c, w, "multiple", Num(n) * a.u, rmul(n, a.scale), a.e)
        check(c, w, "multiple on the right", a.u * Num(n), rmul(n, a.scale), a.e)
        check(c, w, "integer multiple", 7 * a.u, rmul(7, a.scale), a.e)
        check(c, w, "inverse", 1 / a.u, rdiv(1, a.scale), up(Fraction(-1)))
        check(c, w, "inverse", Num(Fraction(1)) / a.u, rdiv(1, a.scale), up(Fraction(-1)))
        for q in (2, 3, -1, -2, 1, 0):
            check(c, w, "integer power", a.u ** q, pw(a.scale, q), up(Fraction(q)))
        check(c, w, "power", a.u ** Num(p), pw(a.scale, p), up(p))
        unchanged(c, w, a.u, ka)
    return h


SH = ["km", ["km"], ["km", "s"], ["s", "km"], ["s", "deg"], [], ["km", "s", "deg"]]
for sa in SH:
    nm = lambda s: s if isinstance(s, str) else "[%s]" % " ".join(s)
    for sb in SH:
        for op in "*/":
            if len(sa) + len(sb) <= 5 or isinstance(sa, str) or isinstance(sb, str):
                unit("C04", "%s %s %s" % (nm(sa), op, nm(sb)), FS, bound="operands with these base units; every scale and power")(binop(sa, sb, op))
    unit("C04", "multiple, inverse and power of %s" % nm(sa), FS, bound="operand with these base units; every scale and power")(unop(sa))


# ---------------------------------------------------------------- any number of bases ----
INT, REAL = z3.IntSort(), z3.RealSort()


def base_class(w):
    """Base units known by name: two are the same unit when their names are equal."""
    k = w.get(CORE)
    if not hasattr(w, "any_base"):
        class AnyBase(k.Unit):
            __hash__ = None

            def __init__(self, name):
                self._pv_ident = name

            @staticmethod
            def _pv_named(name):
                return AnyBase(name)

            def __eq__(self, o):
                return wrap(rcmp("==", self._pv_ident, o._pv_ident)) if isinstance(o, AnyBase) else NotImplemented
            scale = property(lambda self: wrap(Fraction(1)))
            bases = property(lambda self: [self])
            powers = property(lambda self: [1])
        AnyBase._pv_ident = True
        w.any_base = AnyBase
    return w.any_base


class Locked(seq.SymList):
    """A list that belongs to an operand."""

    def _no(self, *a, **k):
        core.CTX.fail("building a unit does not change its parts", "a list of an operand is modified")
        raise PathEnd()
    __setitem__ = append = reverse = insert = pop = remove = sort = extend = clear = __delitem__ = __iadd__ = _no

    def copy(self):
        return seq.SymList(self.seq)


class Operand:
    """A unit: its size factor and the exponent of every base unit."""

    def __init__(self, c, w, kind, tag):
        k = w.get(CORE)
        B = base_class(w)
        self.kind = kind
        if kind == "base":
            self.name = c.int("unit" + tag)
            self.u, self.scale = B(self.name), Fraction(1)
            return
        n, sc = c.int("bases" + tag), c.real("scale" + tag)
        f = lambda x, *s: z3.Function(c.name(x + tag), *s)
        ids, ps, at = f("unit", INT, INT), f("power", INT, REAL), f("place", INT, INT)
        c.assume(AND(n >= 0, sc > 0))
        c.assume_forall(n, lambda i: AND(at(ids(I_(i))) == I_(i), ps(I_(i)) != 0))    # every base once, no power zero
        self.n, self.scale, self.ids, self.ps, self.at = n, sc, ids, ps, at
        bases = Locked(seq.SymSeq(n, lambda i: B(ids(I_(i)))))
        powers = Locked(seq.SymSeq(n, lambda i: wrap(ps(I_(i)))))

        class Compound(k.CompoundUnit):
            """A compound unit as its constructor leaves it (discharged here)."""

            def __init__(self):
                pass
            scale = property(lambda self: Num(sc))
            bases = property(lambda self: bases)
            powers = property(lambda self: powers)

            def is_unity(self):
                return wrap(AND(n == 0, sc == 1))
        self.u = Compound()

    def sum(self, x, pos=None):
        """Exponent of x, counting the first pos bases."""
        if self.kind == "base":
            return z3.If(x == self.name, z3.RealVal(1), z3.RealVal(0))
        a = self.at(x)
        return z3.If(AND(a >= 0, a < (self.n if pos is None else pos), self.ids(a) == x), self.ps(a), z3.RealVal(0))

    def known(self, c, x):
        """Facts about x."""
        if self.kind != "base":
            c.register_index(self.at(x), self.n)


def I_(x):
    return core.to_int(x)


class View:
    """Lists of bases and powers, of symbolic or known length."""

    def __init__(self, bases, powers):
        sq = lambda l: l.seq if isinstance(l, seq.SymList) else seq.as_seq(list(l))
        self.b, self.p = sq(bases), sq(powers)
        self.n = self.b.n

    def ok(self):
        return not is_sym(self.n) or (is_sym(self.p.n) and True)

    def unit(self, i):
        return self.b.get(i)._pv_ident

    def power(self, i):
        return core.to_real(raw(self.p.get(i)))

    def places(self, c):
        """Generic places."""
        if not is_sym(self.n):
            return [range(self.n)] * 2
        return [[c.int("arg")], [c.int("arg")]]

    def inr(self, i):
        return AND(I_(i) >= 0, I_(i) < I_(self.n))

    def clean(self, c, name, hints=(), inductive=False):
        """As many powers as bases, every base once, no power zero."""
        def nonzero(f):
            if not inductive:
                c.prove(name + ": no power is zero", f)
            elif Collect.nonzero and not c.try_prove(f):
                Collect.nonzero = False
                raise core.Restart()
        c.prove(name + ": as many powers as bases", rcmp("==", self.n, self.p.n))
        I, J = self.places(c)
        for i in I:
            for j in J:
                if is_sym(self.n):
                    for x in (i, j):
                        for h in hints:
                            h(x)
                    with c.guarded(AND(self.inr(i), self.inr(j))):
                        bi, bj, pi = self.unit(i), self.unit(j), self.power(i)
                    c.prove(name + ": each base unit once", IMP(AND(self.inr(i), self.inr(j), bi == bj), i == j))
                    nonzero(IMP(self.inr(i), pi != 0))
                elif i < j:
                    c.prove(name + ": each base unit once", rcmp("!=", self.unit(i), self.unit(j)))
        if not is_sym(self.n):
            for i in I:
                nonzero(rcmp("!=", self.power(i), 0))

    def exponent(self, c, name, x, e, witnesses=(), hints=()):
        """The exponent of x is e."""
        if not is_sym(self.n):
            t = z3.RealVal(0)
            for i in range(self.n):
                t = z3.If(I_(self.unit(i)) == x, self.power(i), t)
            return c.prove(name, t == e)
        i = c.int("arg")
        for h in hints:
            h(i)
        with c.guarded(self.inr(i)):
            b, p = self.unit(i), self.power(i)
        c.prove(name, IMP(AND(self.inr(i), b == x), p == e))
        some = []
        for v in list(witnesses) + [I_(self.n) - 1]:
            for h in hints:
                h(v)
            with c.guarded(self.inr(v)):
                b = self.unit(v)
            some.append(AND(self.inr(v), b == x))
        c.prove(name + " (bases with an exponent are listed)", z3.Or(e == 0, *some))


class Collect(loops.Spec):
    """Invariant of a loop over the bases of an operand: the two local lists hold the net exponents so far, each base once
    and none with exponent zero."""
    allow_for = lists = own_lists = True
    flip = False
    nonzero = True          # is "no power is zero" inductive?

    def __init__(self, c, w, operands, factors, g):
        self.c, self.w, self.operands, self.factors, self.g = c, w, operands, factors, g
        self.states = []               # (length, place function) of the states that loops left
        self.last_lists = None

    def type_hint(self, name, v):
        B = base_class(self.w)
        return B(self.c.int(name)) if isinstance(v, B) else None

    def lists_(self):
        r = [v for n, v in sorted(self.env.items()) if type(v) is seq.SymList]
        if len(r) != 2:
            raise Unsupported("the state of the loop over the bases")
        return r[::-1] if Collect.flip else r

    def managed(self, obj, attr):
        return attr is None and any(obj is v for v in self.lists_())

    def hints(self):
        c = self.c

        def h(x):
            for n, _at in self.states:
                for d in (0, 1):
                    c.register_index(fold(z3.simplify(x + d)), n)
            for o in self.operands:
                if o.kind != "base":
                    c.register_index(x, o.n)
        return [h]

    def witnesses(self, x):
        r = []
        for n, at in self.states:
            r += [at(x), at(x) - 1]
        return r

    def enter(self, loop):
        c = self.c
        bases, powers = self.lists_()
        v = View(bases, powers)
        g = loop.seq.get(loop.k if loop.k is not None else c.int("k"))
        if not (isinstance(g, tuple) and len(g) == 2):
            raise Unsupported("a loop over %r" % (g,))
        n = loop.n
        self.op = [(o, f) for o, f in zip(self.operands, self.factors) if o.kind != "base" and is_sym(n) and n.eq(o.n)]
        if len(self.op) != 1:
            raise Unsupported("a loop over other units")
        # exponents before the loop
        if not is_sym(v.n):
            es = [(I_(v.unit(i)), v.power(i)) for i in range(v.n)]

            def E0(x):
                t = z3.RealVal(0)
                for b, p in es:
                    t = z3.If(x == b, p, t)
                return t
            self.before = E0
        else:
            f = z3.Function(c.name("exponent"), INT, REAL)
            at0 = z3.Function(c.name("placebefore"), INT, INT)
            n0 = v.n
            units, pows = v.unit, v.power
            c.assume_forall(n0, lambda i: f(units(i)) == pows(i))
            self.before = f
            done = []

            def listed(x):
                if not any(x.eq(y) for y in done):
                    done.append(x)
                    c.register_index(at0(x), n0)
                    self.hints()[0](at0(x))
                    with c.guarded(v.inr(at0(x))):
                        b = units(at0(x))
                    c.assume(z3.Or(f(x) == 0, AND(v.inr(at0(x)), b == x)))
            self.listed = listed
            for x in self.points():
                listed(x)

    def points(self):
        """The base units for which facts are needed: an arbitrary one and the one at hand."""
        k = getattr(self.loop, "k", None)
        return [self.g] + ([self.op[0][0].ids(k)] if k is not None else [])

    def E(self, x, pos):
        o, f = self.op[0]
        return self.before(x) + core.to_real(f) * o.sum(x, I_(pos))

    def havoc_heap(self):
        c = self.c
        B = base_class(self.w)
        bases, powers = self.lists_()
        n = c.int("collected")
        f = lambda x, *s: z3.Function(c.name(x), *s)
        ids, ps, at = f("collectedunit", INT, INT), f("collectedpower", INT, REAL), f("collectedplace", INT, INT)
        c.assume(n >= 0)
        pos = I_(self.pos)
        E = self.E
        c.assume_forall(n, lambda i: AND(at(ids(I_(i))) == I_(i), ps(I_(i)) != 0 if Collect.nonzero else True, ps(I_(i)) == E(ids(I_(i)), pos)))
        bases.seq = seq.SymSeq(n, lambda i: B(ids(I_(i))))
        powers.seq = seq.SymSeq(n, lambda i: wrap(ps(I_(i))))
        for x in self.points():
            self.op[0][0].known(c, x)
            c.register_index(at(x), n)
            c.assume(z3.Or(E(x, pos) == 0, AND(at(x) >= 0, at(x) < n, ids(at(x)) == x)))
        self.states.append((n, at))

    def check_heap(self, where):
        c = self.c
        bases, powers = self.lists_()
        for l, s in ((bases, True), (powers, False)):
            n = l.seq.n
            if not is_sym(n) and n > 0 and isinstance(l.seq.get(0), base_class(self.w)) != s:
                Collect.flip = not Collect.flip
                raise core.Restart()
            if is_sym(n) and isinstance(l.seq.get(I_(n) - 1), base_class(self.w)) != s:
                Collect.flip = not Collect.flip
                raise core.Restart()
        v = View(bases, powers)
        v.clean(c, "the lists " + where, self.hints(), True)
        if "before" not in where:
            for x in self.points():
                v.exponent(c, "net exponent " + where, x, self.E(x, self.pos), self.witnesses(x), self.hints())


def any_check(c, w, name, r, scale, E, spec, g):
    k = w.get(CORE)
    if not c.holds(name + ": a unit is returned", isinstance(r, k.BaseUnit), repr(type(r))):
        return
    if isinstance(r, base_class(w)):
        v = View([r], [Num(Fraction(1))])
        rs = Fraction(1)
    else:
        v, rs = View(r.bases, r.powers), raw(r.scale)
    v.clean(c, name, spec.hints())
    ws = spec.witnesses(g)
    for o in spec.operands:
        if o.kind != "base":
            ws.append(o.at(g))
    v.exponent(c, name + ": exponent", g, E, ws, spec.hints())
    c.prove(name + ": scale", rcmp("==", rs, scale))
    if isinstance(r, k.CompoundUnit):
        t = r.is_unity()
        t = core.to_bool(t if isinstance(t, bool) else raw(t))
        c.prove(name + ": unity exactly without bases and scale", t == AND(I_(v.n) == 0, core.to_bool(rcmp("==", rs, 1))))


def any_setup(c, *kinds):
    w = World()
    ops = [Operand(c, w, k, "ab"[i]) for i, k in enumerate(kinds)]
    g = c.int("anyunit")
    for o in ops:
        o.known(c, g)
    return w, ops, g


def any_binop(ka, kb, op):
    def h(c):
        w, (a, b), g = any_setup(c, ka, kb)
        sg = 1 if op == "*" else -1
        c.loop_spec = spec = Collect(c, w, (a, b), (Fraction(1), Fraction(sg)), g)
        c.cover("reached")
        r = a.u * b.u if op == "*" else a.u / b.u
        c.loop_spec = None
        c.cover("built")
        any_check(c, w, op, r, rmul(a.scale, b.scale) if sg == 1 else rdiv(a.scale, b.scale), a.sum(g) + sg * b.sum(g), spec, g)
    return h


def any_unop(kind, what):
    def h(c):
        w, (a,), g = any_setup(c, kind)
        n, p = c.real("n"), c.real("p")
        c.assume(AND(n != 0, p != 0))
        i = c.int("ip")
        f, s, x = dict(multiple=(1, rmul(n, a.scale), lambda: Num(n) * a.u), right=(1, rmul(n, a.scale), lambda: a.u * Num(n)),
                       integer=(1, rmul(7, a.scale), lambda: 7 * a.u), inverse=(-1, rdiv(1, a.scale), lambda: 1 / a.u),
                       real_inverse=(-1, rdiv(1, a.scale), lambda: Num(Fraction(1)) / a.u), square=(2, pw(a.scale, 2), lambda: a.u ** 2),
                       cube=(3, pw(a.scale, 3), lambda: a.u ** 3), minus_one=(-1, pw(a.scale, -1), lambda: a.u ** -1),
                       minus_two=(-2, pw(a.scale, -2), lambda: a.u ** -2), one=(1, a.scale, lambda: a.u ** 1), zero=(0, Fraction(1), lambda: a.u ** 0),
                       power=(p, pw(a.scale, p), lambda: a.u ** Num(p)))[what]
        f = f if is_sym(f) else Fraction(f)
        c.loop_spec = spec = Collect(c, w, (a,), (f,), g)
        c.cover("reached")
        r = x()
        c.loop_spec = None
        c.cover("built")
        any_check(c, w, what, r, s, core.to_real(f) * a.sum(g), spec, g)
    return h


for ka in ("base", "compound"):
    for kb in ("base", "compound"):
        for op in "*/":
            unit("C04", "%s %s %s, any number of bases" % (ka, op, kb), FS)(any_binop(ka, kb, op))
    for what in ("multiple", "right", "integer", "inverse", "real_inverse", "square", "cube", "minus_one", "minus_two", "one", "zero", "power"):
        unit("C04", "%s of a %s unit, any number of bases" % (what, ka), FS)(any_unop(ka, what))


# ---------------------------------------------------------------- dimensions ----
NAMES = dict(L=["m", "km", "mi"], T=["s", "hr"], D=["jd2000"], A=["deg", "rad"])


class Dims(loops.Spec):
    """Invariant of the loop that collects dimensions: the local containers hold exactly the net exponent of every
    dimension met so far, each once and none with exponent zero."""
    allow_for = True
    flip = False
    nonzero = True          # is "none with exponent zero" inductive?

    def __init__(self, E):
        self.E = E

    def managed(self, obj, attr):
        return any(v is obj for n, v in self.containers())

    def containers(self):
        env = self.env
        lists = [(n, v) for n, v in sorted(env.items()) if isinstance(v, list)]
        dicts = [(n, v) for n, v in sorted(env.items()) if isinstance(v, dict)]
        if len(lists) == 2 and not dicts:
            return lists
        if len(dicts) == 1 and not lists:
            return dicts
        raise Unsupported("the state of the loop over the bases")

    def havoc_heap(self):
        c = core.CTX
        import itertools
        cs = self.containers()
        states = [p for r in range(5) for p in itertools.permutations("LTDA", r)]
        st = states[c.choose(len(states))]
        ps = []
        for d in st:
            p = c.real("pow_" + d)
            if Dims.nonzero:
                c.assume(p != 0)
            c.assume(p == self.E(d, self.pos))
            ps.append(Num(p))
        for d in "LTDA":
            if d not in st:
                c.assume(self.E(d, self.pos) == 0)
        if len(cs) == 2:
            (_, x), (_, y) = cs
            # which of the two holds the names is found in a state with one element; both are empty at the start
            names, powers = (x, y) if self.order(cs) else (y, x)
            names[:] = list(st)
            powers[:] = ps
        else:
            d = cs[0][1]
            d.clear()
            d.update(zip(st, ps))

    def order(self, cs):
        # which of the two lists holds the names is found by trial, see check_heap
        return not self.flip

    def check_heap(self, where):
        c = core.CTX
        cs = self.containers()
        if len(cs) == 2:
            x, y = cs[0][1], cs[1][1]
            swapped = any(isinstance(v, str) for v in y)
            if (swapped or any(isinstance(v, str) for v in x)) and swapped != Dims.flip:
                Dims.flip = swapped
                raise core.Restart()
            if swapped:
                x, y = y, x
        else:
            x, y = list(cs[0][1]), list(cs[0][1].values())
        if not c.holds("dimensions and powers in step, " + where, len(x) == len(y) and all(isinstance(v, str) for v in x)):
            return
        c.holds("each dimension once, " + where, len(set(x)) == len(x))
        for d, p in zip(x, y):
            c.prove("net exponent, " + where, rcmp("==", raw(p), self.E(d, self.pos)))
            if Dims.nonzero and not c.try_prove(rcmp("!=", raw(p), 0)):
                Dims.nonzero = False
                raise core.Restart()
        for d in "LTDA":
            if d not in x:
                c.prove("missing dimensions have exponent zero, " + where, rcmp("==", self.E(d, self.pos), 0))


def loop_dims(c):
    w = World()
    disp, k = w.get("celest.units.display"), w.get(CORE)
    n = c.int("bases")
    c.assume(n >= 0)
    p = c.func("p", z3.IntSort(), z3.RealSort())
    kind_ = c.func("dim", z3.IntSort(), z3.IntSort())
    Es = {d: c.func("E" + d, z3.IntSort(), z3.RealSort()) for d in "LTDA"}
    for d in "LTDA":
        c.assume(Es[d](0) == 0)
    E = lambda d, pos: Es[d](core.to_int(pos))
    c.assume_forall(n, lambda j: z3.And(p(j) != 0, kind_(j) >= 0, kind_(j) < 4, *[Es[d](j + 1) == Es[d](j) + z3.If(kind_(j) == x, p(j), z3.RealVal(0)) for x, d in enumerate("LTDA")]))

    class Base(k.Unit):
        def __init__(self, j):
            self.j = j

        @property
        def short_name(self):
            for x, d in enumerate("LTDA"):
                if x == 3 or c.branch(kind_(self.j) == x):
                    ns = NAMES[d]
                    return ns[c.choose(len(ns))]

    class Compound(k.CompoundUnit):
        def __init__(self):
            pass
        scale = property(lambda self: Num(c.real("scale")))
        bases = property(lambda self: seq.SymList(seq.SymSeq(n, lambda j: Base(core.to_int(j)))))
        powers = property(lambda self: seq.SymList(seq.SymSeq(n, lambda j: wrap(p(core.to_int(j))))))
    c.loop_spec = Dims(E)
    c.cover("reached")
    r = disp.get_dimensions_from_unit(Compound())
    c.cover("after the loop")
    ds, ps = r
    c.holds("each dimension once", len(set(ds)) == len(ds) == len(ps))
    for d in "LTDA":
        if d in ds:
            c.prove("the reported exponent is the net exponent", rcmp("==", raw(ps[ds.index(d)]), E(d, n)))
            c.prove("reported exponents are not zero", rcmp("!=", raw(ps[ds.index(d)]), 0))
        else:
            c.prove("unreported dimensions have exponent zero", rcmp("==", E(d, n), 0))


unit("C04", "net dimension exponents, any number of bases", ["get_dimensions_from_unit"], timeout=400)(loop_dims)
ONE = dict(L="m", T="s", D="jd2000", A="deg")


def text_world(pick):
    """get_dimensions_from_unit by its contract (discharged above): the net exponents, in some order."""
    w = World({"celest.units.display:get_dimensions_from_unit": lambda real: lambda unit: pick(unit)})
    k = w.get(CORE)

    class Opaque(k.CompoundUnit):
        def __init__(self, dims, powers):
            self.__dict__["known"] = list(dims), list(powers)

        def _no(self):
            raise Unsupported("the dimension text looks into the unit")
        scale = bases = powers = property(_no)
    return w, Opaque


def decode(text):
    """Exponents that a dimension text states."""
    words, cur = [], []
    for p in sym.pieces(text):
        if not isinstance(p, str):
            cur.append(p)
            continue
        for j, x in enumerate(p.split(" ")):
            if j:
                words.append(cur)
                cur = []
            if x:
                cur.append(x)
    words.append(cur)
    r, sign = {}, 1
    for x in words:
        if x == ["/"]:
            if sign < 0:
                return None
            sign = -1
        elif x == ["1"]:
            if r or sign < 0:
                return None
        elif len(x) == 1 and isinstance(x[0], str) and re.fullmatch(r"[LTDA](\d+(\.\d+)?)?", x[0]) and x[0][0] not in r:
            r[x[0][0]] = Fraction(x[0][1:] or 1) * sign
        elif len(x) == 2 and x[0] in tuple("LTDA") and x[0] not in r and not isinstance(x[1], str) and not x[1].spec:
            r[x[0]] = rmul(sign, x[1].value)
        else:
            return None
    return r


def dimtext(dims, orders, both):
    """The text depends on the exponents only, and states them."""
    def h(c):
        order = orders[c.choose(len(orders))] if len(orders) > 1 else orders[0]
        w, Opaque = text_world(lambda u: tuple(list(x) for x in u.__dict__["known"]))
        ps, ints = {}, {}
        as_int = c.choose(2) if dims and both else 0
        for d in dims:
            v = c.real("p" + d)
            c.assume(v != 0)
            ps[d] = v
            if as_int and c.branch(z3.ToReal(z3.ToInt(v)) == v):
                ints[d] = z3.ToInt(v)
        if as_int and not ints:
            raise PathEnd()
        c.cover("reached")
        a = Opaque(order, [SymInt(ints[d]) if d in ints else Num(ps[d]) for d in order]).dimension
        if order != dims or ints:
            b = Opaque(dims, [Num(ps[d]) for d in dims]).dimension
            same = load.h_eq(a, b)
            c.prove("the order and type of the exponents do not matter", core.to_bool(raw(same) if not isinstance(same, bool) else same))
            return
        e = decode(a)
        if e is None:
            return c.undecided("the text states the exponents", "text of another form")
        if c.holds("the text states the exponents", set(e) == set(dims), "%r" % (e,)):
            for d in dims:
                c.prove("the text states the exponents", rcmp("==", e[d], ps[d]))
    return h


for r_ in range(5):
    for dims in itertools.combinations("LTDA", r_):
        perms = ["".join(p) for p in itertools.permutations(dims)]
        for j in range(0, len(perms), 2):
            unit("C04", "dimension text of %s, %d" % ("".join(dims) or "1", j), ["get_dimension_string", "BaseUnit.dimension"], timeout=500, max_paths=40000, thorough=r_ == 4)(dimtext("".join(dims), perms[j:j + 2], r_ < 3))


def mixed(c):
    """Integral exponents of either type give the same text."""
    w = World()
    k, u = w.get(CORE), w.get("celest.units")
    p = c.int("p")
    c.assume(p != 0)
    c.cover("reached")
    a = k.CompoundUnit(1, [u.m], [SymInt(p)]).dimension
    b = k.CompoundUnit(1, [u.km], [Num(core.to_real(p))]).dimension
    s = load.h_eq(a, b)
    c.prove("an integer and an equal real exponent give the same dimension", core.to_bool(raw(s) if not isinstance(s, bool) else s))


unit("C04", "integer and real exponents", ["get_dimension_string"])(mixed)


def table(c):
    """Every library unit has the dimension of its kind (finite, complete)."""
    w = World()
    u = w.get("celest.units")
    KIND = dict(m="L", mm="L", cm="L", km="L", inch="L", ft="L", yd="L", mi="L", s="T", min="T", hr="T", dy="T", jd2000="D", deg="A", rad="A", arcsec="A", arcmin="A", hourangle="A")
    c.cover("reached")
    for n, d in KIND.items():
        for m, e in KIND.items():
            c.holds("named units have the same dimension exactly when they measure the same thing", (getattr(u, n).dimension == getattr(u, m).dimension) == (d == e), "%s %s" % (n, m))
        c.prove("sizes are positive", rcmp(">", raw(getattr(u, n).scale), 0))


unit("C04", "dimension of the named units", ["Unit.__init__", "get_dimension_string"])(table)
