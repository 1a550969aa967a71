"""Second arithmetic back end: every atomic formula is brought to polynomial normal form over canonical atoms
(so that equal arguments of sqrt, sin, ... are recognised, squares of roots and cosines are reduced and denominators
are cleared), and the purely polynomial problem is given to z3's nonlinear solvers."""
import time
import z3
from .poly import TooBig, Poly, ZERO, R, I

REL = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}


class Normal:
    def __init__(self, c, limit=3000):
        self.c, self.alg, self.limit = c, c.alg, limit
        self.vars, self.bools = {}, {}
        self.side, self.pending, self.done = [], [], set()
        self.dens = set()
        self.memo = {}

    def var(self, a):
        if a not in self.vars:
            self.vars[a] = z3.Real("n!%d" % a)
            self.pending.append(a)
        return self.vars[a]

    def poly(self, p):
        if len(p.d) > self.limit:
            raise TooBig()
        if not p.d:
            return z3.RealVal(0)
        parts = []
        for m, co in p.d.items():
            fs = [z3.RealVal(str(co))] if co != 1 or not m else []
            for a, e in m:
                fs += [self.var(a)] * e
            parts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]

    def atom(self, op, a, b):
        n, den = self.alg.rf(a - b if a.sort() == b.sort() else z3.ToReal(a) - b if a.is_int() else a - z3.ToReal(b))
        n = self.alg.reduce_poly(n)
        for k, e in den.items():
            d = Poly(dict(k))
            if k not in self.dens:
                self.dens.add(k)
                self.side.append(self.poly(d) != 0)
            if e % 2 and op != "==" and not self.root(d):
                n = self.alg.pmul(n, d)
        if any(self.alg.rules.get(x, (0, None))[1] for m in n.d for x, e in m if e >= 2):
            rest = self.alg.resolve_sqrt(n) if op == "==" else n
            n = rest
        t = self.poly(n)
        z = z3.RealVal(0)
        return {"<=": t <= z, "<": t < z, ">=": t >= z, ">": t > z, "==": t == z}[op]

    def root(self, d):
        """A square root: not negative, so positive where it is a denominator."""
        if len(d.d) != 1:
            return False
        (m, co), = d.d.items()
        return co > 0 and all(self.alg.atom_term[a].decl().name() == "sqrt" for a, _e in m)

    def formula(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self._formula(t)
        return self.memo[k]

    def _formula(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            raise TooBig()
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (kd in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and z3.is_bool(t.arg(1 if t.num_args() > 1 else 0))):
            ch = [self.formula(x) for x in t.children()]
            if kd == z3.Z3_OP_AND:
                return z3.And(*ch)
            if kd == z3.Z3_OP_OR:
                return z3.Or(*ch)
            if kd == z3.Z3_OP_NOT:
                return z3.Not(ch[0])
            if kd == z3.Z3_OP_IMPLIES:
                return z3.Implies(*ch)
            if kd == z3.Z3_OP_ITE:
                return z3.If(*ch)
            if kd == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*ch)
            if kd == z3.Z3_OP_XOR:
                return z3.Xor(*ch)
            return ch[0] == ch[1]
        if kd in REL and t.arg(0).sort() in (R, I):
            return self.atom(REL[kd], t.arg(0), t.arg(1))
        if kd == z3.Z3_OP_DISTINCT and t.num_args() == 2 and t.arg(0).sort() in (R, I):
            return z3.Not(self.atom("==", t.arg(0), t.arg(1)))
        if z3.is_true(t) or z3.is_false(t):
            return t
        if t.get_id() not in self.bools:
            self.alg.keep.append(t)
            self.bools[t.get_id()] = z3.Bool("nb!%d" % len(self.bools))
        return self.bools[t.get_id()]

    def close(self):
        """Axioms of the atoms met, to a fixed point."""
        while self.pending:
            a = self.pending.pop()
            t = self.alg.atom_term[a]
            if not z3.is_app(t) or not t.num_args():
                continue
            if t.decl().kind() == z3.Z3_OP_ITE:
                b = self.formula(t.arg(0))
                self.side.append(z3.Implies(b, self.atom("==", t, t.arg(1))))
                self.side.append(z3.Implies(z3.Not(b), self.atom("==", t, t.arg(2))))
                continue
            if t.decl().kind() == z3.Z3_OP_TO_INT:
                x = t.arg(0)
                self.side.append(self.atom("<=", z3.ToReal(t), x))
                self.side.append(self.atom("<", x, z3.ToReal(t) + 1))
            for ax in self.c.axioms([t]):
                if ax.get_id() in self.done:
                    continue
                self.done.add(ax.get_id())
                try:
                    self.side.append(self.formula(ax))
                except TooBig:
                    pass


def linear(fs):
    """Products of variables become variables (a weaker, linear problem)."""
    memo, monos, vars_, pairs, consts = {}, {}, {}, set(), set()

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            co, vs = [], []
            stack = list(t.children())
            while stack:
                x = stack.pop()
                if z3.is_rational_value(x):
                    co.append(x)
                elif x.decl().kind() == z3.Z3_OP_MUL:
                    stack.extend(x.children())
                else:
                    vs.append(x)
            key = tuple(sorted(x.get_id() for x in vs))
            vars_.update((x.get_id(), x) for x in vs)
            if len(vs) == 1:
                v = vs[0]
            else:
                if key not in monos:
                    monos[key] = z3.Real("mono!%d" % len(monos))
                v = monos[key]
            r = z3.Product(*(co + [v])) if co else v
        elif z3.is_app(t) and t.num_args():
            r = t.decl()(*[go(x) for x in t.children()]) if t.decl().kind() not in NARY else NARY[t.decl().kind()](*[go(x) for x in t.children()])
        else:
            r = t
        memo[k] = (r, t)
        return r
    out = [go(f) for f in fs]
    # congruence: equal variables give equal products
    def single(t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return 1, t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and z3.is_const(t.arg(1)):
            return t.arg(0).as_fraction(), t.arg(1)
        return None
    seen, stack = set(), list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and not z3.is_bool(t.arg(0)):
            l = t.arg(1) if z3.is_rational_value(t.arg(0)) else t.arg(0)
            s2 = [single(x) for x in (l.children() if l.decl().kind() == z3.Z3_OP_ADD else [l])]
            if all(s2) and len(s2) == 2 and s2[0][0] == -s2[1][0]:
                pairs.add(frozenset((s2[0][1].get_id(), s2[1][1].get_id())))
                vars_.update((x.get_id(), x) for _c, x in s2)
            if all(s2) and len(s2) == 1:
                consts.add(s2[0][1].get_id())
        elif z3.is_bool(t):
            stack.extend(t.children())
    by = {}
    for key in list(monos):
        for j, v in enumerate(key):
            by.setdefault(key[:j] + key[j + 1:], set()).add(v)
            if v in consts:
                out.append(z3.Implies(vars_[v] == 0, monos[key] == 0))

    def mono(key):
        key = tuple(sorted(key))
        return vars_[key[0]] if len(key) == 1 else monos.get(key)
    for rest, vs in by.items():
        if not rest:
            continue
        for a in vs:
            for b in vs:
                if a < b and frozenset((a, b)) in pairs:
                    out.append(z3.Implies(vars_[a] == vars_[b], mono(rest + (a,)) == mono(rest + (b,))))
    return out


def quotients(fs):
    """Integer quotients and remainders by constants, and integer parts, as named integers with their defining bounds."""
    memo, out, named = {}, [], {}

    def quotient(x, k):
        key = (x.get_id(), k)
        if key not in named:
            q = z3.Int("quot!%d" % len(named))
            named[key] = (q, x)
            out.append(z3.And(k * q <= x, x < k * q + k))
        return named[key][0]

    def part(x):
        key = (x.get_id(), 0)
        if key not in named:
            q = z3.Int("part!%d" % len(named))
            named[key] = (q, x)
            out.append(z3.And(z3.ToReal(q) <= x, x < z3.ToReal(q) + 1))
        return named[key][0]

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        if not z3.is_app(t):
            raise ValueError("quantifier")
        cs = [go(x) for x in t.children()]
        d = t.decl().kind()
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(cs[1]) and cs[1].as_long() > 0:
            q = quotient(cs[0], cs[1].as_long())
            r = q if d == z3.Z3_OP_IDIV else cs[0] - cs[1].as_long() * q
        elif d == z3.Z3_OP_TO_INT:
            r = part(cs[0])
        elif not cs:
            r = t
        else:
            r = NARY[d](*cs) if d in NARY else t.decl()(*cs)
        memo[k] = (r, t)
        return r
    return [go(f) for f in fs] + out, bool(named)


def resolve(fs, ms=300):
    """Alternatives whose condition follows from the formulas are resolved (innermost first)."""
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*fs)
    memo, known = {}, {}

    def follows(b):
        k = b.get_id()
        if k not in known:
            s.push()
            s.add(z3.Not(b))
            known[k] = (s.check() == z3.unsat, b)
            s.pop()
        return known[k][0]

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        cs = t.children()
        d = t.decl().kind()
        if d == z3.Z3_OP_ITE:
            b = z3.simplify(go(cs[0]))
            if z3.is_true(b) or not z3.is_false(b) and follows(b):
                r = go(cs[1])
            elif z3.is_false(b) or follows(z3.Not(b)):
                r = go(cs[2])
            else:
                r = z3.If(b, go(cs[1]), go(cs[2]))
        elif cs:
            n = [go(x) for x in cs]
            r = NARY[d](*n) if d in NARY else t.decl()(*n)
        else:
            r = t
        memo[k] = (r, t)
        return r
    return [z3.simplify(go(f)) for f in fs]


def has_quotients(fs):
    seen, todo = set(), list(fs)
    while todo:
        t = todo.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT):
            return True
        todo.extend(t.children())
    return False


def integers(c, hyps, goal, timeout):
    """'unsat' if hyps imply goal, in linear integer arithmetic with named quotients."""
    if not has_quotients([goal] + list(hyps)):
        return "unknown"
    try:
        hs = resolve(list(hyps))
        fs, some = quotients([z3.Not(goal)] + hs)
    except ValueError:
        return "unknown"
    if not some:
        return "unknown"
    t0 = time.time()
    end, k, r = t0 + timeout / 1000, 0, z3.unknown
    while r == z3.unknown and time.time() < end:     # heavy-tailed: restart with other seeds
        s = z3.Solver()
        if k % 2 == 0:
            s.set("smt.arith.solver", 2)
        s.set("smt.random_seed", 7 * (k // 2))
        s.set("timeout", int(min(2000 * 2 ** (k // 2), max(1, 1000 * (end - time.time())))))
        s.add(*fs)
        c.stats.queries += 1
        r = s.check()
        k += 1
    c.stats.solver_time += time.time() - t0
    return str(r)


NARY = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: lambda *x: z3.Sum(*x), z3.Z3_OP_DISTINCT: z3.Distinct}


def solve(c, hyps, goal, timeout):
    """'unsat' if hyps imply goal, in polynomial arithmetic."""
    nm = Normal(c)
    try:
        g = nm.formula(z3.Not(goal))
    except TooBig:
        return "unknown", None
    hs = []
    for h in hyps:
        try:
            hs.append(nm.formula(h))
        except TooBig:
            pass
    nm.close()
    t0 = time.time()
    fs = [g] + hs + nm.side
    try:
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 3000)
        s.add(*linear(fs))
        c.stats.queries += 1
        if s.check() == z3.unsat:
            return "unsat", "z3-linear"
        for make, share in ((lambda: z3.Tactic("qfnra-nlsat").solver(), .5), (lambda: z3.SolverFor("QF_NRA"), .25), (z3.Solver, .25)):
            s = make()
            s.set("timeout", max(500, int(timeout * share)))
            s.add(*fs)
            c.stats.queries += 1
            if s.check() == z3.unsat:
                return "unsat", "z3-normal"
    except z3.Z3Exception:
        pass
    finally:
        c.stats.solver_time += time.time() - t0
    return "unknown", None
