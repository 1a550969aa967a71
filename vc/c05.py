from vc.lib import *

METHODS = dict(true_solar_time=1, mean_solar_time=1, true_hour_angle=1, mean_hour_angle=1, ut1=0, gmst=0, lmst=1, gast=0, last=1)


def harness(m, lon_kind, jd_kind):
    def h(c):
        w = World()
        T = w.get("celest.time").Time
        u = w.get("celest.units")
        if jd_kind == "array":
            n = length(c)
            t = T(sym_array(c, "jd", n), Num(c.real("offset")))
        else:
            n = 1
            t = T(Num(c.real("jd")), Num(c.real("offset")))
        lon = []
        if METHODS[m]:
            lon = [sym_array(c, "lon", n) if lon_kind == "array" else Num(c.real("lon"))]
        c.prove("length", eq(len(t) if jd_kind != "array" else load.b_len(t), n))
        q = getattr(t, m)(*lon)
        c.holds("unit is hours", q.unit is u.hourangle, str(q.unit))
        if shape_is(c, "one value per time", q.data, n):
            i = c.index(n) if jd_kind == "array" else 0
            v = el(q.data, i)
            c.cover("reached")
            c.prove("at least 0", rcmp(">=", v, 0))
            c.prove("below 24", rcmp("<", v, 24))
    return h


for m in METHODS:
    for jk in ("array", "scalar"):
        for lk in (("array", "scalar") if METHODS[m] and jk == "array" else ("scalar",)):
            unit("C05", "%s, %s times, %s longitude" % (m, jk, lk), ["Time.__init__", "Time." + m])(harness(m, lk, jk))
