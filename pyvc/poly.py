"""Exact normal form for rational functions over Q in uninterpreted atoms.

A back end of the verifier: decides equalities between real terms that are
identities of the field, modulo  sin^2 + cos^2 = 1  and  sqrt(t)^2 = t.
Terms are z3 expressions; anything that is not + - * / or an integer power is
an atom.  All arithmetic is exact (Fraction)."""
from fractions import Fraction
import z3

Z3_OP = z3


def sqrt_rational(q):
    from math import isqrt
    a, b = q.numerator, q.denominator
    if a > 0 and isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
        return Fraction(isqrt(a), isqrt(b))
    return None


class Poly:
    __slots__ = ("d", "_key")

    def __init__(self, d):
        self.d = d
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items()))
        return self._key

    def is_zero(self):
        return not self.d

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            e = a[i][1] + b[j][1]
            if e:
                out.append((a[i][0], e))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def padd(a, b, s=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + s * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, c):
    return Poly({m: v * c for m, v in a.d.items()}) if c else ZERO


class TooBig(Exception):
    pass


class Algebra:
    """Conversion of z3 real terms into num/den normal form."""

    LIMIT = 200000

    def __init__(self):
        self.atom_ids = {}
        self.atoms = []
        self.atom_term = []
        self.cache = {}
        self.keep = []            # keep z3 asts alive (ids are reused otherwise)
        self.rules = {}           # atom index -> ('sq', RF) : atom^2 == RF
        self.canon_atoms = {}
        self.pow_atoms = {}
        self.condition = None     # decides domain conditions of rewritings
        self.conditional = False  # some normal form depends on the path condition
        self.conds = {}
        self.nonneg = set()       # atoms known not to be negative: their squares leave square roots

    # -- atoms ---------------------------------------------------------------
    def atom(self, term):
        k = term.get_id()
        if k not in self.atom_ids:
            key = None
            if z3.is_app(term) and term.num_args():
                try:
                    key = (term.decl().name(), term.decl().kind(),
                           tuple(self.canon(a) if a.sort() in (R, I) else a.get_id()
                                 for a in term.children()))
                except TooBig:
                    key = None
            if key is not None and key in self.canon_atoms:
                idx = self.canon_atoms[key]
            else:
                idx = len(self.atom_term)
                self.atom_term.append(term)
                if key is not None:
                    self.canon_atoms[key] = idx
                self._rule(idx, term)
            self.keep.append(term)
            self.atom_ids[k] = idx
        return self.atom_ids[k]

    def _rule(self, idx, term):
        if not z3.is_app(term):
            return
        name = term.decl().name()
        if name == "sqrt" and term.num_args() == 1:
            self.rules[idx] = self.rf(term.arg(0))

    # -- reduction -------------------------------------------------------------
    def reduce_poly(self, p):
        """Apply polynomial rules (cos^2 -> 1-sin^2, sqrt(t)^2 -> t)."""
        work = p
        while True:
            hit = None
            for m in work.d:
                for a, e in m:
                    if e >= 2 and a in self.rules and not self.rules[a][1]:
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return work
            out = {}
            for m, c in work.d.items():
                target = None
                for pos, (a, e) in enumerate(m):
                    if e >= 2 and a in self.rules and not self.rules[a][1]:
                        target = (pos, a, e)
                        break
                if target is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                pos, a, e = target
                rest = m[:pos] + (((a, e - 2),) if e > 2 else ()) + m[pos + 1:]
                for m2, c2 in self.rules[a][0].d.items():
                    mm = mono_mul(rest, m2)
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
            if len(out) > self.LIMIT:
                raise TooBig()
            work = Poly(out)

    def pmul(self, a, b):
        if len(a.d) > len(b.d):
            a, b = b, a
        if len(a.d) * len(b.d) > 4 * self.LIMIT:
            raise TooBig()
        out = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = mono_mul(m1, m2)
                v = out.get(m, 0) + c1 * c2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return self.reduce_poly(Poly(out))

    def ppow(self, a, n):
        r = ONE
        while n:
            if n & 1:
                r = self.pmul(r, a)
            n >>= 1
            if n:
                a = self.pmul(a, a)
        return r

    # -- rational functions: (num Poly, den {poly key: exp}) -------------------
    def den_poly(self, den):
        r = ONE
        for k, e in den.items():
            r = self.pmul(r, self.ppow(Poly(dict(k)), e))
        return r

    def rf_add(self, a, b, s=1):
        (na, da), (nb, db) = a, b
        if da == db:
            return (padd(na, nb, s), da)
        den = dict(da)
        for k, e in db.items():
            den[k] = max(den.get(k, 0), e)
        fa = {k: e - da.get(k, 0) for k, e in den.items() if e > da.get(k, 0)}
        fb = {k: e - db.get(k, 0) for k, e in den.items() if e > db.get(k, 0)}
        return (padd(self.pmul(na, self.den_poly(fa)), self.pmul(nb, self.den_poly(fb)), s), den)

    def rf_mul(self, a, b):
        den = dict(a[1])
        for k, e in b[1].items():
            den[k] = den.get(k, 0) + e
        na, nb = a[0], b[0]
        # cheap cancellation: numerator equal to a denominator factor
        for first in (True, False):
            n = na if first else nb
            if n.d and n.const() is None:
                lead = n.d[max(n.d)]
                key = pscale(n, 1 / lead).key()
                if den.get(key):
                    den[key] -= 1
                    if not den[key]:
                        del den[key]
                    if first:
                        na = Poly({(): lead})
                    else:
                        nb = Poly({(): lead})
        n = self.pmul(na, nb)
        for k in list(den):
            if len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1 and n.d:
                a = k[0][0][0][0]
                e = min(min((dict(m).get(a, 0) for m in n.d)), den[k])
                if e:
                    n = Poly({tuple((b, x - e if b == a else x) for b, x in m if b != a or x > e): c for m, c in n.d.items()})
                    den[k] -= e
                    if not den[k]:
                        del den[k]
        return (n, den if n.d else {})

    def rf_inv(self, a):
        n, den = a
        if n.is_zero():
            raise ZeroDivisionError
        c = n.const()
        if c is not None:
            return (pscale(self.den_poly(den), 1 / c), {})
        if len(n.d) == 1:
            # monomial: split into atoms
            (m, c), = n.d.items()
            nd = {}
            for at, e in m:
                nd[Poly({((at, 1),): Fraction(1)}).key()] = e
            return (pscale(self.den_poly(den), 1 / c), nd)
        lead = n.d[max(n.d)]
        return (pscale(self.den_poly(den), 1 / lead), {pscale(n, 1 / lead).key(): 1})

    def rf_pow(self, a, n):
        if n < 0:
            return self.rf_pow(self.rf_inv(a), -n)
        return (self.ppow(a[0], n), {k: e * n for k, e in a[1].items()} if n else {})

    def rf(self, t):
        stack_key = t.get_id()
        if stack_key in self.cache:
            return self.cache[stack_key]
        r = self._rf(t)
        self.keep.append(t)
        self.cache[stack_key] = r
        return r

    def _rf(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.as_long()) if z3.is_int_value(t) else Fraction(t.numerator_as_long(), t.denominator_as_long())
            return (Poly({(): v}) if v else ZERO, {})
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            r = self.rf(t.arg(0))
            for i in range(1, t.num_args()):
                r = self.rf_add(r, self.rf(t.arg(i)))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rf(t.arg(0))
            for i in range(1, t.num_args()):
                r = self.rf_add(r, self.rf(t.arg(i)), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            a = self.rf(t.arg(0))
            return (pscale(a[0], Fraction(-1)), a[1])
        if k == z3.Z3_OP_MUL:
            r = self.rf(t.arg(0))
            for i in range(1, t.num_args()):
                r = self.rf_mul(r, self.rf(t.arg(i)))
            return r
        if k == z3.Z3_OP_DIV:
            try:
                return self.rf_mul(self.rf(t.arg(0)), self.rf_inv(self.rf(t.arg(1))))
            except ZeroDivisionError:
                pass
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_int_value(e) or (z3.is_rational_value(e) and e.denominator_as_long() == 1):
                n = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
                if abs(n) <= 16:
                    return self.rf_pow(self.rf(t.arg(0)), n)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() in ("sin", "cos"):
            return self.trig(t.decl().name(), self.rf(t.arg(0)))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() in ("arcsin", "arctan"):
            n, d = self.rf(t.arg(0))
            if n.is_zero():
                return (ZERO, {})
            if n.d[max(n.d)] < 0:
                x = t.decl()(self.rf_term((pscale(n, Fraction(-1)), d)))
                return (Poly({((self.atom(x), 1),): Fraction(-1)}), {})
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "sqrt" and self.nonneg:
            return self.root(t)
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "pow":
            return self.rf_powfn(t)
        if k == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)):
            a = t.arg(0)
            if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(a):
                return self.rf(a)
            return (Poly({((self.atom(a), 1),): Fraction(1)}), {})
        return (Poly({((self.atom(t), 1),): Fraction(1)}), {})

    def declare_nonneg(self, t):
        (n, d) = self.rf(t)
        (m, _c), = n.d.items()
        self.nonneg.add(m[0][0])

    def root(self, t):
        """sqrt with the squares of non-negative atoms and of rationals taken out."""
        n, d = self.rf(t.arg(0))
        n = self.reduce_poly(n)
        if not n.d:
            return (ZERO, {})
        out, outd = (Poly({(): Fraction(1)}), {})
        common = None
        for m in n.d:
            e = dict(m)
            common = e if common is None else {a: min(k, e[a]) for a, k in common.items() if a in e}
        pulled = {a: k // 2 for a, k in common.items() if k >= 2 and a in self.nonneg}
        if pulled:
            inv = tuple(sorted((a, -2 * k) for a, k in pulled.items()))
            n = Poly({tuple((a, e) for a, e in mono_mul(m, inv) if e): c for m, c in n.d.items()})
            out = Poly({tuple(sorted(pulled.items())): Fraction(1)})
        lead = abs(n.d[max(n.d)])
        r = sqrt_rational(lead)
        if r is not None and r != 1:
            n = pscale(n, 1 / lead)
            out = pscale(out, r)
        rest = {}
        for k, e in d.items():
            p = dict(k)
            if e >= 2 and len(p) == 1 and all(a in self.nonneg for m in p for a, _ in m) and sqrt_rational(list(p.values())[0]) is not None:
                outd = dict(outd)
                outd[k] = e // 2
                e -= e // 2 * 2
            if e:
                rest[k] = e
        if n.const() == 1 and not rest:
            return (out, outd)
        q = self.rf_term((n, rest))
        x = SQRT(q)
        a = self.atom(x)
        return self.rf_mul((out, outd), (Poly({((a, 1),): Fraction(1)}), {}))

    def _key(self, rf):
        n, d = rf
        return (n.key(), tuple(sorted((k, e) for k, e in d.items())))

    def trig(self, name, arg):
        """sin or cos of a normal form: whole turns and quarter turns are taken out, the sign is made canonical."""
        sign = 1
        if not arg[1]:
            d = dict(arg[0].d)
            for m, co in arg[0].d.items():
                if len(m) == 1 and m[0][1] == 1 and self.atom_term[m[0][0]].sort() == I and (co / (2 * PI_Q)).denominator == 1:
                    del d[m]
            q = d.get((), Fraction(0)) / (PI_Q / 2) + Fraction(1, 2)
            turns = q.numerator // q.denominator
            if turns:
                d[()] = d[()] - turns * PI_Q / 2
                if not d[()]:
                    del d[()]
                if turns % 4 in (1, 3):
                    if (name == "sin") == (turns % 4 == 3):
                        sign = -1
                    name = "cos" if name == "sin" else "sin"
                elif turns % 4 == 2:
                    sign = -1
            arg = (Poly(d), {})
        if arg[0].is_zero():
            return (ZERO, {}) if name == "sin" else (Poly({(): Fraction(sign)}), {})
        lead = arg[0].d[max(arg[0].d)]
        if lead < 0:
            arg = (pscale(arg[0], Fraction(-1)), arg[1])
            if name == "sin":
                sign = -sign
        r = self.trig_of_inverse(name, arg)
        if r is not None:
            return (pscale(r[0], Fraction(sign)), r[1])
        return (Poly({((self.trig_atom(name, arg), 1),): Fraction(sign)}), {})

    def trig_of_inverse(self, name, arg):
        """sin and cos of an inverse function, where its domain condition is established."""
        if arg[1] or len(arg[0].d) != 1:
            return None
        (m, co), = arg[0].d.items()
        if co != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        t = self.atom_term[m[0][0]]
        fn = t.decl().name() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
        if fn == "arctan2":
            y, x = t.arg(0), t.arg(1)
            if not self.established(z3.Or(x != 0, y != 0)):
                return None
            return self.rf((y if name == "sin" else x) / SQRT(x * x + y * y))
        if fn in ("arccos", "arcsin"):
            x = t.arg(0)
            if not self.established(z3.And(x >= -1, x <= 1)):
                return None
            return self.rf(x if (fn == "arccos") == (name == "cos") else SQRT(1 - x * x))
        if fn == "arctan":
            x = t.arg(0)
            return self.rf((x if name == "sin" else z3.RealVal(1)) / SQRT(1 + x * x))
        return None

    def established(self, cond):
        if self.condition is None:
            return False
        self.conditional = True
        k = cond.get_id()
        if k not in self.conds:
            self.keep.append(cond)
            self.conds[k] = False
            self.conds[k] = self.condition(cond)
        return self.conds[k]

    def rf_term(self, rf):
        t = self.poly_term(rf[0])
        return t / self.poly_term(self.den_poly(rf[1])) if rf[1] else t

    def trig_atom(self, name, argrf):
        key = (name, z3.Z3_OP_UNINTERPRETED, (self._key(argrf),))
        if key in self.canon_atoms:
            return self.canon_atoms[key]
        if name == "cos":
            s = self.trig_atom("sin", argrf)
        idx = len(self.atom_term)
        rep = (SIN if name == "sin" else COS)(self.rf_term(argrf))
        self.atom_term.append(rep)
        self.keep.append(rep)
        self.canon_atoms[key] = idx
        if name == "cos":
            self.rules[idx] = (padd(ONE, Poly({((s, 2),): Fraction(1)}), -1), {})
        return idx

    def rf_powfn(self, t):
        """pow(b, e) for positive b: split products in b and sums in e."""
        base, expo = self.rf(t.arg(0)), self.rf(t.arg(1))
        if len(base[0].d) != 1 or any(len(dict(k)) != 1 for k in base[1]):
            return (Poly({((self.atom(t), 1),): Fraction(1)}), {})
        (m, c), = base[0].d.items()
        factors = [(("a", a), Fraction(e)) for a, e in m]
        if c != 1:
            if c <= 0:
                return (Poly({((self.atom(t), 1),): Fraction(1)}), {})
            factors.append((("c", c), Fraction(1)))
        for k, e in base[1].items():
            for mm, cc in dict(k).items():
                factors += [(("a", a), Fraction(-e * e2)) for a, e2 in mm]
                if cc != 1:
                    factors.append((("c", cc), Fraction(-e)))
        if expo[1]:
            exps = [(("rf", self._key(expo)), Fraction(1))]
        else:
            exps = [(mm, cc) for mm, cc in expo[0].d.items()]
        mono = ()
        for f, fe in factors:
            for em, ec in exps:
                co = fe * ec
                key = ("pow", f, em, co.denominator)
                if em == () and f[0] == "a" and co.denominator == 1:
                    mono = mono_mul(mono, ((f[1], co.numerator),))
                    continue
                if key not in self.pow_atoms:
                    idx = len(self.atom_term)
                    fresh = z3.Real("powatom!%d" % idx)
                    self.atom_term.append(fresh)
                    self.keep.append(fresh)
                    self.pow_atoms[key] = idx
                mono = mono_mul(mono, ((self.pow_atoms[key], co.numerator),))
        return (Poly({mono: Fraction(1)}), {})

    # -- decision --------------------------------------------------------------
    def resolve_sqrt(self, p):
        """Rewrite sqrt(r)^2 -> r where r has a denominator; returns a numerator."""
        changed = True
        rf = (p, {})
        while changed:
            changed = False
            num, den = rf
            acc = (ZERO, {})
            for m, c in num.d.items():
                term = (Poly({(): c}), {})
                rest = []
                for a, e in m:
                    if e >= 2 and a in self.rules and self.rules[a][1]:
                        changed = True
                        term = self.rf_mul(term, self.rf_pow(self.rules[a], e // 2))
                        if e % 2:
                            rest.append((a, 1))
                    else:
                        rest.append((a, e))
                term = self.rf_mul(term, (Poly({tuple(rest): Fraction(1)}), {}))
                acc = self.rf_add(acc, term)
            rf = (acc[0], {})
        return rf[0]

    def is_zero(self, t):
        n, _ = self.rf(t)
        n = self.reduce_poly(n)
        if any(self.rules.get(a, (0, None))[1] for m in n.d for a, _e in m):
            n = self.resolve_sqrt(n)
        return n.is_zero()

    def congruent(self, t):
        """f(a) - f(b) with arguments whose differences are zero."""
        n, _ = self.rf(t)
        if len(n.d) != 2:
            return False
        (m1, c1), (m2, c2) = n.d.items()
        if c1 != -c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
            return False
        x, y = self.atom_term[m1[0][0]], self.atom_term[m2[0][0]]
        if not (z3.is_app(x) and z3.is_app(y) and x.num_args() and x.decl().eq(y.decl()) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return False
        return all(a.sort() == R and self.is_zero(a - b) for a, b in zip(x.children(), y.children()))

    def canon(self, t):
        """Hashable canonical key of a term (num key, den key)."""
        n, d = self.rf(t)
        return (n.key(), tuple(sorted((k, e) for k, e in d.items())))

    def poly_term(self, p):
        """z3 term of a polynomial."""
        parts = []
        for m, c in sorted(p.d.items()):
            fs = [z3.RealVal(str(c))] if (c != 1 or not m) else []
            for a, e in m:
                at = self.atom_term[a]
                if at.sort() == z3.IntSort():
                    at = z3.ToReal(at)
                fs += [at] * e
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            parts.append(t)
        if not parts:
            return z3.RealVal(0)
        t = parts[0]
        for q in parts[1:]:
            t = t + q
        return t

    def simplify(self, t):
        n, d = self.rf(t)
        nt = self.poly_term(n)
        if d:
            nt = nt / self.poly_term(self.den_poly(d))
        return nt


R = z3.RealSort()
I = z3.IntSort()
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
TAN = z3.Function("tan", R, R)
SQRT = z3.Function("sqrt", R, R)
ACOS = z3.Function("arccos", R, R)
ASIN = z3.Function("arcsin", R, R)
ATAN = z3.Function("arctan", R, R)
ATAN2 = z3.Function("arctan2", R, R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
POW = z3.Function("pow", R, R, R)
# pi is identified with 180/57.29577951308232 (relative error 2e-17), so that the
# unit conversions of the code and np.degrees / np.radians agree exactly.
PI_Q = Fraction(180) / Fraction("57.29577951308232")
PI = z3.RealVal("%d/%d" % (PI_Q.numerator, PI_Q.denominator))
