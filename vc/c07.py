"""Calendar dates: the oracle is the definition (days of the full years, months and days since 1 January of year 1)."""
from vc.gl import *

AQ = "celest.coordinates.astronomical_quantities"
TI = "celest.time"
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
GREGORIAN = F(2299160.5)


def int_(x):
    return x if not is_sym(x) else core.to_int(x)


def leap(y, greg):
    return AND(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)) if greg else y % 4 == 0


def year_start(y, greg):
    """Days from Julian date 0 to 0h on the day before 1 January of year y, plus a half."""
    p = y - 1
    return 1721425 + 365 * p + p / 4 - p / 100 + p / 400 if greg else 1721423 + 365 * p + p / 4


def cum(y, m, greg):
    return CUM[m - 1] + (z3.If(leap(y, greg), z3.IntVal(1), z3.IntVal(0)) if m > 2 else 0)


def month_len(y, m, greg):
    return LEN[m - 1] + (z3.If(leap(y, greg), z3.IntVal(1), z3.IntVal(0)) if m == 2 else 0)


def month_of(c, M):
    """The month, by cases."""
    c.prove("the month is one of 12", AND(M >= 1, M <= 12))
    for m in range(1, 12):
        if c.branch(M == m):
            return m
    c.assume(M == 12)
    return 12


def kinds(kind):
    return dict(array="array", scalar="f", integer="i", integers="iarray")[kind]


def times(c, kind, n):
    if kind in ("array", "integers"):
        return sym_array(c, "jd", n, "f" if kind == "array" else "i")
    return Num(c.real("jd")) if kind == "scalar" else SymInt(c.int("jd"))


def calendar(kind, greg):
    def h(c):
        w = world()
        u = w.get("celest.units")
        many = kind in ("array", "integers")
        n = length(c) if many else 1
        i = c.index(n) if many else 0
        T = times(c, kind, n)
        t = lambda k: core.to_real(el(T, k) if many else raw(T))
        if many:
            c.assume_forall(n, lambda k: t(k) >= 0)
        c.assume(t(i) >= 0)
        c.assume(t(i) >= core.rat(GREGORIAN) if greg else t(i) < core.rat(GREGORIAN))
        r = w.get(AQ).from_julian(w.get(Q).Quantity(T, u.jd2000))
        c.cover("converted")
        if not c.holds("year, month and day", isinstance(r, tuple) and len(r) == 3):
            return
        for x in r:
            if not shape_is(c, "one date per time", x, n):
                return
        Y, M, D = [el(x, i) for x in r]
        c.holds("whole years and months", sym.kind(Y) == "i" and sym.kind(M) == "i")
        Y, M, D = I_(Y), I_(M), core.to_real(D)
        m = month_of(c, M)
        y, d = c.int("year"), c.int("day")
        f = t(i) + core.rat(F("0.5")) - d
        c.assume(AND(y == Y, f >= 0, f < 1))          # names: d is the day number, y the year
        day = c.int("dayofmonth")
        c.prove("the fraction of the day is kept", D - f == z3.ToReal(z3.ToInt(D)))
        c.assume(day == z3.ToInt(D))
        c.prove("the day exists", AND(day >= 1, day <= month_len(y, m, greg)))
        c.prove("the date is that of the Julian date", d == year_start(y, greg) + cum(y, m, greg) + day)
    return h


def I_(x):
    return core.to_int(x) if is_sym(x) else z3.IntVal(int(x))


for kind in ("array", "scalar", "integers", "integer"):
    for greg in (True, False):
        unit("C07", "%s, %s calendar" % (kind, "Gregorian" if greg else "Julian"), ["from_julian"], solver_ms=60000, timeout=500)(calendar(kind, greg))


def cum_of(y, m, greg):
    r = z3.IntVal(CUM[11])
    for k in range(11, 0, -1):
        r = z3.If(m == k, z3.IntVal(CUM[k - 1]), r)
    return r + z3.If(AND(m > 2, leap(y, greg)), z3.IntVal(1), z3.IntVal(0))


def by_contract(c, n, t):
    """Contract of from_julian for Julian dates from 15 October 1582 (discharged above)."""
    Y, M, K = [z3.Function(c.name(k), INT_, INT_) for k in ("year", "month", "dayofmonth")]
    G = z3.Function(c.name("fraction"), INT_, z3.RealSort())

    def fact(k):
        k = core.to_int(k)
        y, m, d, f = Y(k), M(k), K(k), G(k)
        from pyvc.load import month_length
        return AND(m >= 1, m <= 12, d >= 1, d <= month_length(y, m), f >= 0, f < 1,
                   t(k) + core.rat(F("0.5")) == z3.ToReal(year_start(y, True) + cum_of(y, m, True) + d) + f)
    if is_sym(n):
        c.assume_forall(n, fact)
    else:
        for k in range(n):
            c.assume(fact(k))

    def make(real):
        def from_julian(julian):
            x = julian.to(julian.unit)
            if is_sym(n) and isinstance(x, Arr):
                g = c.index(n)
                c.prove("the times are converted", eq(rmul(el(x, g), size_of(julian.unit)), rmul(t(g), size_of(core.CTX.u.jd2000))))
            a = lambda f, d: Arr((n,), lambda idx: f(core.to_int(idx[0])), None, d)
            return a(Y, "i"), a(M, "i"), a(lambda k: z3.ToReal(K(k)) + G(k), "f")
        return from_julian
    return make, (Y, M, K, G)


INT_ = z3.IntSort()


class Dates(loops.Spec):
    allow_for = lists = True

    def __init__(self, i):
        self.i = i

    def watch(self, s):
        return [self.i]


@unit("C07", "datetime", ["Time.datetime"], solver_ms=60000)
def datetime(c):
    n = length(c)
    i = c.index(n)
    f = z3.Function(c.name("jd"), INT_, z3.RealSort())
    c.assume_forall(n, lambda k: AND(f(core.to_int(k)) >= core.rat(GREGORIAN), f(core.to_int(k)) < core.rat(F("5373484.5"))))
    make, _ = by_contract(c, n, lambda k: f(core.to_int(k)))
    w = world(**{AQ + ":from_julian": make})
    c.u = w.get("celest.units")
    T = w.get(TI).Time(Arr((n,), lambda idx: f(core.to_int(idx[0])), None, "f"))
    spec = c.loop_spec = Dates(i)
    r = T.datetime()
    c.loop_spec = None
    c.cover("converted")
    if not shape_is(c, "one date per time", r, n):
        return
    o = r.at(i)
    if not c.holds("a datetime", type(o).__name__ == "DTime", repr(o)):
        return
    y, m, d = [core.to_int(x) for x in o.fields]
    c.prove("the datetime is the Julian date's instant", z3.ToReal(year_start(y, True) + cum_of(y, m, True) + d) - core.rat(F("0.5")) + core.to_real(o.extra) == f(i))
