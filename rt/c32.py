"""C32: requests are recorded as asked for."""
import numpy as np
from rt.base import *
from rt.geo import *
from rt.sch import *

RULE = "sequences of 1 to 5 requests (deadlines, durations, priorities, qualities, look angles or none, locations in any unit, lighting incl. the default) added to one scheduler over a short pass, with a synthetic Sun; distinct by number, lighting, look angles and windows found"


def cases(rng, tier):
    yield dict(k="bad")
    for i in range(120 if tier == "quick" else 3000):
        base = rand_loc(rng, pole=False)
        yield dict(k="ok", th=rng.choice([0, 5, 10, 30.5, 80]), base=base, seed=rng.randint(0, 10**6), vis=[int(rng.random() < .6) for _ in range(rng.choice([3, 6, 10]))],
                   sun=rng.random() < .5,
                   req=[dict(loc=base if rng.random() < .7 else rand_loc(rng, pole=False), dead=rng.choice([2460000, 2455370.25, rng.uniform(2455360, 2455390), -3.5]), dur=rng.choice([30, 1, 60.5, rng.uniform(1, 900)]),
                             prio=rng.randint(1, 10), qual=rng.randint(1, 10), look=rng.choice([None, None, 0, 12.5, rng.uniform(-60, 60)]), light=rng.choice([None, "ANYTIME", "ANYTIME", "DAYTIME", "NIGHTTIME"])) for _ in range(rng.randint(1, 5))],
                   again=rng.choice([0, 0, 1, 2]))


def windows(W):
    return [(jd(w.rise_time), jd(w.set_time)) for w in list(W)]


def check(c):
    import importlib
    from rt.c19 import Kernel
    F = frames()
    Sat = need("celest.satellite", "Satellite")
    Sch = need("celest.schedule.scheduler", "Scheduler")
    gen, Light = need("celest.encounter.window_generator", "generate_vtws", "Lighting")
    Co = need("celest.coordinates.coordinate", "Coordinate")
    wg = importlib.import_module("celest.encounter.window_generator")
    from celest import units as u
    r = np.random.RandomState(c.get("seed", 0))
    vis = c.get("vis", [1, 1, 0])
    n = len(vis)
    base = location(c.get("base", [43.65, -79.38, 0, "deg", "km"]))
    g = np.array([float(q.to(u.km)) for q in (base.itrs_x, base.itrs_y, base.itrs_z)])
    t = np.cumsum(r.uniform(1e-3, 1e-2, n)) + 2455368.75
    P = np.array([g * (1.1 if v else -1.1) + r.uniform(-200, 200, 3) for v in vis])
    ip, _ = make3(F["ITRS"], t, P, "km")
    iv, _ = make3(F["ITRS"], t, r.uniform(-7, 7, (n, 3)), "km/s")
    s = Sat(ip, iv)
    if c["k"] == "bad":
        for x in (None, 3, "satellite", ip):
            raises(TypeError, lambda: Sch(x, 10), "satellite %r" % type(x))
        for x in (None, "10", [10]):
            raises(TypeError, lambda: Sch(s, x), "threshold %r" % (x,))
        return c["k"]
    if not hasattr(wg, "SPK"):
        raise Skip("the ephemeris is not read through SPK")
    sg, _ = make3(F["ITRS"], t, np.array([g * (1 if c["sun"] else -1) * 2e4] * n), "km")
    sun = xyz(Co(sg).convert_to(F["GCRS"]), "km").T

    class SPK:
        @staticmethod
        def open(path):
            return Kernel(sun, np.random.RandomState(0))

        @staticmethod
        def close(k):
            pass
    old = wg.SPK
    wg.SPK = SPK
    try:
        S = call("Scheduler", Sch, s, c["th"])
        H = lambda: S.request_handler
        expect(len(H()) == 0 and H().number_of_scheduled_requests == 0, "a new scheduler holds %d requests", len(H()))
        locs, wins, places = [], [], {}
        # the same place is the same object; a request may be repeated, as it was or under another lighting
        req = list(c["req"])
        if c["again"]:
            req.append(req[0] if c["again"] == 1 else dict(req[0], light="NIGHTTIME" if req[0]["light"] != "NIGHTTIME" else "ANYTIME"))
        for q in req:
            loc = places.setdefault(str(q["loc"]), location(q["loc"]))
            kw = {}
            if q["look"] is not None:
                kw["look_ang"] = q["look"]
            if q["light"]:
                kw["lighting"] = getattr(Light, q["light"])
            call("add_request", S.add_request, loc, q["dead"], q["dur"], q["prio"], q["qual"], **kw)
            locs.append(loc)
            wins.append(windows(gen(s, location(q["loc"]), c["th"], getattr(Light, q["light"] or "DAYTIME"))))
            expect(len(H()) == H().number_of_requests == len(locs), "%d requests were added, %d are recorded", len(locs), len(H()))
            expect(H().number_of_scheduled_requests == 0, "a new request counts as scheduled")
            # all of them, the earlier ones included
            for i, p in enumerate(req[:len(locs)]):
                h, what = H(), "request %d of %d" % (i, len(locs))
                expect(not h.is_request_scheduled(i) and h.vtw_index(i) is None and h.start_time(i) is None and h.scheduled_duration(i) is None, "%s is scheduled when added", what)
                expect(close(float(h.deadline(i).to(u.jd2000)), p["dead"], 1e-12), "%s has the deadline %s, asked for %r", what, h.deadline(i), p["dead"])
                expect(close(float(h.duration(i).to(u.s)), p["dur"], 1e-12), "%s lasts %s, asked for %r s", what, h.duration(i), p["dur"])
                expect(h.priority(i) == p["prio"] and h.image_quality(i) == p["qual"], "%s has priority %r and quality %r, asked for %r and %r", what, h.priority(i), h.image_quality(i), p["prio"], p["qual"])
                a = h.look_angle(i)
                expect((a is None) == (p["look"] is None) and (a is None or abs(float(a.to(u.deg)) - p["look"]) < 1e-9), "%s has the look angle %s, asked for %r", what, a, p["look"])
                expect(loc_of(h, i) is locs[i] or vars(loc_of(h, i)) == vars(locs[i]), "%s is at %s, asked for %s", what, loc_of(h, i), locs[i])
                expect(windows(h.vtw_list(i)) == wins[i], "%s (threshold %r, %s) has %d windows, the satellite has %d", what, c["th"], p["light"], len(windows(h.vtw_list(i))), len(wins[i]))
    finally:
        wg.SPK = old
    return len(locs), tuple(q["light"] for q in c["req"][:2]), tuple(q["look"] is None for q in c["req"][:2]), tuple(map(len, wins[:2])), c["sun"]
