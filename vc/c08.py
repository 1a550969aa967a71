"""Day of the year: days since 1 January by the definition of the calendar; dates by the contract of from_julian (C07)."""
from vc.c07 import *

START = F("2299238.5")          # 1 January 1583


def days(kind):
    def h(c):
        many = kind == "array"
        n = length(c) if many else 1
        i = c.index(n) if many else 0
        f = z3.Function(c.name("jd"), INT_, z3.RealSort())
        one = c.real("jd")
        t = (lambda k: f(core.to_int(k))) if many else (lambda k: one)
        if many:
            c.assume_forall(n, lambda k: t(k) >= core.rat(START))
        else:
            c.assume(one >= core.rat(START))
        make, (Y, M, K, G) = by_contract(c, n, t)
        w = world(**{AQ + ":from_julian": make})
        c.u = w.get("celest.units")
        T = Arr((n,), lambda idx: t(idx[0]), None, "f") if many else Num(one)
        r = w.get(AQ).day_of_year(w.get(Q).Quantity(T, c.u.jd2000))
        c.cover("counted")
        if not shape_is(c, "one day per time", r, n):
            return
        i_ = core.to_int(i)
        y, m, d = Y(i_), M(i_), K(i_)
        want = cum_of(y, m, True) + d
        N = el(r, i)
        c.holds("a whole number", sym.kind(N) == "i")
        N = core.to_int(N)
        mm = month_of(c, m)
        c.prove("the day of the year counts days since 1 January", N == want)
        c.prove("at least 1 and at most the length of the year", AND(N >= 1, N <= 365 + z3.If(leap(y, True), z3.IntVal(1), z3.IntVal(0))))
        c.prove("1 exactly on 1 January", (N == 1) == AND(m == 1, d == 1))
    return h


for kind in ("array", "scalar"):
    unit("C08", "day of the year, %s" % kind, ["day_of_year"], solver_ms=60000)(days(kind))
