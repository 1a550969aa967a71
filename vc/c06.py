from vc.lib import *

AQ = "celest.coordinates.astronomical_quantities"


def times(c, w, name="jd"):
    n = length(c, name="n" + name)
    t = w.get("celest.time").Time(sym_array(c, name, n), Num(c.real("offset")))
    return t, c.index(n)


def congruent(c, name, x, y, m=24):
    """x = y modulo m."""
    q = rdiv(rsub(x, y), m)
    c.prove(name, z3.IsInt(to_real(q)) if is_sym(q) else q.denominator == 1)


def hour(q, i):
    return el(q.data, i)


def defs(what):
    def h(c):
        w = World()
        u, aq = w.get("celest.units"), w.get(AQ)
        t, i = times(c, w)
        lon = Num(c.real("lon"))
        c.cover("reached")
        hr = lambda q: el(q.to(u.hourangle), i)
        if what == "hour angle":
            congruent(c, "true hour angle is true solar time minus 12", hr(t.true_hour_angle(lon)), rsub(hr(t.true_solar_time(lon)), 12))
            congruent(c, "mean hour angle is mean solar time minus 12", hr(t.mean_hour_angle(lon)), rsub(hr(t.mean_solar_time(lon)), 12))
        elif what == "equation of time":
            congruent(c, "true minus mean solar time is the equation of time", rsub(hr(t.true_solar_time(lon)), hr(t.mean_solar_time(lon))), rdiv(el(aq.equation_of_time(t.julian).to(u.deg), i), 15))
        elif what == "ut1":
            congruent(c, "UT1 is mean solar time at longitude zero", hr(t.ut1()), hr(t.mean_solar_time(0)))
        elif what == "equinoxes":
            e = rdiv(el(aq.equation_of_equinoxes(t.julian).to(u.arcsec), i), 3600)
            congruent(c, "Greenwich apparent minus mean sidereal time is the equation of the equinoxes", rsub(hr(t.gast()), hr(t.gmst())), e)
            congruent(c, "local apparent minus mean sidereal time is the equation of the equinoxes", rsub(hr(t.last(lon)), hr(t.lmst(lon))), e)
        elif what == "lmst":
            congruent(c, "local mean sidereal time is mean hour angle plus the right ascension of the Sun", hr(t.lmst(lon)), radd(hr(t.mean_hour_angle(lon)), hr(aq.sun_right_ascension(t.julian))))
    return h


for what, fs in (("hour angle", ["true_hour_angle", "mean_hour_angle"]), ("equation of time", ["true_solar_time", "mean_solar_time"]), ("ut1", ["ut1"]), ("equinoxes", ["gast", "gmst", "last", "lmst"]), ("lmst", ["lmst"])):
    unit("C06", what, ["Time." + f for f in fs])(defs(what))


def east(m, kind):
    def h(c):
        w = World()
        t, i = times(c, w)
        if kind == "scalar":
            a, d = Num(c.real("lon")), c.real("d")
            b = Num(radd(raw(a), d))
        else:
            n = raw(load.b_len(t))
            a, da = sym_array(c, "lon", n), sym_array(c, "d", n)
            b = a + da
            d = el(da, i)
        c.cover("reached")
        congruent(c, "moving d degrees east adds d/15 hours", hour(getattr(t, m)(b), i), radd(hour(getattr(t, m)(a), i), rdiv(d, 15)))
    return h


for m in ("true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle", "lmst", "last"):
    for kind in ("scalar", "array"):
        unit("C06", "%s east of, %s longitude" % (m, kind), ["Time." + m])(east(m, kind))


@unit("C06", "mean solar time at Greenwich", ["Time.__init__", "Time.mean_solar_time", "Time.ut1"])
def greenwich(c):
    w = World()
    T = w.get("celest.time").Time
    n = length(c)
    a, d = sym_array(c, "jd", n), sym_array(c, "d", n)
    i = c.index(n)
    for m in ("mean_solar_time", "ut1"):
        f = (lambda t: t.ut1()) if m == "ut1" else (lambda t: t.mean_solar_time(0))
        congruent(c, m + " advances 24 h per day", hour(f(T(a + d)), i), radd(hour(f(T(a)), i), rmul(24, el(d, i))))
    k = sym_array(c, "k", n, "i")
    c.prove("12 h at integer Julian dates", eq(hour(T(k).mean_solar_time(0), i), 12))
    c.prove("12 h at integer Julian dates given as real numbers", eq(hour(T(k.astype(float)).mean_solar_time(0), i), 12))
    off = Num(c.real("offset"))
    c.prove("the offset is added to the Julian date", eq(el(T(a, off).julian.data, i), radd(el(a, i), raw(off))))
