"""Requests given to a scheduler that already holds any number of them."""
from vc.sl import *

GEN = "celest.encounter.window_generator"
LIGHTS = ("ANYTIME", "DAYTIME", "NIGHTTIME")


class Old:
    """An earlier request: one object per place."""

    def __init__(self):
        self.seen = {}

    def get(self, k):
        k = fold(k)
        key = k.get_id() if is_sym(k) else k
        if key not in self.seen:
            self.seen[key] = (k, [False] + ["%s of request %s" % (x, k) for x in ("window", "start", "length", "location", "deadline", "duration", "priority", "quality", "look angle", "windows")])
        return self.seen[key][1]


def adding(look, light):
    def h(c):
        calls = []
        marks = []

        def gen(real):
            Light = real.__globals__["Lighting"]

            def generate_vtws(satellite, location, vis_threshold, lighting=Light.ANYTIME):
                m = w.get(WH).WindowCollection()
                calls.append((satellite, location, vis_threshold, lighting))
                marks.append(m)
                return m
            return generate_vtws
        w = world(**{GEN + ":generate_vtws": gen})
        u = w.get("celest.units")
        Light = w.get(GEN).Lighting

        class Sat(w.get("celest.satellite").Satellite):
            def __init__(self):
                pass
        sat, th = Sat(), c.real("threshold")
        loc, _ = place(c, w, unit_like(c, w, "g", u.km))
        sc = w.get(SC).Scheduler(sat, wrap(th))
        c.holds("no request yet", len(sc.request_handler) == 0 and raw(sc.request_handler.number_of_scheduled_requests) == 0)
        # an earlier request for the same place under another lighting
        sc.add_request(loc, 2460000.5, 30, 1, 1, None, Light.NIGHTTIME if light != "NIGHTTIME" else Light.DAYTIME)
        del calls[:], marks[:]
        hd = sc.request_handler
        N, s = c.int("N"), c.int("scheduled")
        c.assume(AND(N >= 0, s >= 0, s <= N))
        old = Old()
        hd.requests = SymList(SymSeq(N, old.get))
        hd.number_of_requests, hd.number_of_scheduled_requests = wrap(N), wrap(s)
        g = c.int("anyrequest")
        before = old.get(g)
        kept = list(before)
        dead, dur, ang = c.real("deadline"), c.real("duration"), c.real("look")
        prio, qual = c.int("priority"), c.int("quality")
        kw = {}
        if look:
            kw["look_ang"] = wrap(ang)
        if light:
            kw["lighting"] = getattr(Light, light)
        c.cover("reached")
        sc.add_request(loc, wrap(dead), wrap(dur), wrap(prio), wrap(qual), **kw)
        c.holds("the windows are generated once", len(calls) == 1, repr(len(calls)))
        if len(calls) == 1:
            a, b, t, l = calls[0]
            c.holds("for the scheduler's satellite", a is sat)
            c.holds("for the request's location", b is loc)
            c.prove("above the scheduler's threshold", eq(core.to_real(raw(t)), th))
            c.holds("under the requested lighting", l is getattr(Light, light or "DAYTIME"), repr(l))
        hd = sc.request_handler
        c.prove("one request more", eq(raw(hd.number_of_requests), N + 1))
        c.prove("one request more in the list", eq(raw(load.b_len(hd.requests)), N + 1))
        c.prove("none is scheduled by it", eq(raw(hd.number_of_scheduled_requests), s))
        k = wrap(N)
        c.holds("it is not scheduled", hd.is_request_scheduled(k) is False)
        c.holds("nothing is recorded for it", hd.vtw_index(k) is None and hd.start_time(k) is None and hd.scheduled_duration(k) is None)
        d = hd.deadline(k)
        c.prove("its deadline, in days of the JD2000 epoch", eq(rmul(core.to_real(raw(d.data)), size_of(d.unit)), rmul(dead, size_of(u.jd2000))))
        c.holds("the deadline is a time", d.dimension == u.jd2000.dimension)
        d = hd.duration(k)
        c.prove("its duration, in seconds", eq(rmul(core.to_real(raw(d.data)), size_of(d.unit)), rmul(dur, size_of(u.s))))
        c.holds("the duration is a time", d.dimension == u.s.dimension)
        c.prove("its priority", eq(raw(hd.priority(k)), prio))
        c.prove("its quality", eq(raw(hd.image_quality(k)), qual))
        q = hd.look_angle(k)
        if look:
            c.prove("its look angle, in degrees", eq(rmul(core.to_real(raw(q.data)), size_of(q.unit)), rmul(ang, size_of(u.deg))))
            c.holds("the look angle is an angle", q.dimension == u.deg.dimension)
        else:
            c.holds("no look angle", q is None)
        c.holds("its windows", len(marks) == 1 and hd.vtw_list(k) is marks[0])
        r = hd[k]
        c.holds("its location", r[w.get(RH).RequestIndices.location] is loc)
        if c.branch(AND(g >= 0, g < N)):
            now = hd[wrap(g)]
            c.holds("earlier requests stay where they were", now is before)
            c.holds("earlier requests are untouched", len(before) == len(kept) and all(x is y for x, y in zip(before, kept)))
    return h


for look in (True, False):
    for light in (None,) + LIGHTS:
        unit("C32", "a request %s look angle, %s" % ("with a" if look else "without", light or "default lighting"), ["Scheduler.__init__", "Scheduler.add_request", "RequestHandler.__init__", "RequestHandler.add_request", "RequestHandler.deadline", "RequestHandler.duration", "RequestHandler.priority", "RequestHandler.image_quality", "RequestHandler.look_angle", "RequestHandler.vtw_list", "RequestHandler.is_request_scheduled"])(adding(look, light))


@unit("C32", "anything else is rejected", ["Scheduler.__init__"])
def reject(c):
    w = world()
    S = w.get(SC).Scheduler

    class Sat(w.get("celest.satellite").Satellite):
        def __init__(self):
            pass
    c.cover("reached")
    for x in (None, 3, "satellite", [Sat()], Sat):
        raises(c, "not a satellite", TypeError, lambda: S(x, 10))
    for x in (None, "10", [10]):
        raises(c, "not a threshold", TypeError, lambda: S(Sat(), x))
