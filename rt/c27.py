"""C27: the exported schedule lists each scheduled request once."""
import random
import numpy as np
from rt.sch import *
from rt.c21 import scheduler

RULE = "request sets with crafted schedules (every pattern, starts on and between attitude samples) exported through Scheduler.generate, and full searches; distinct by pattern"
N = 48


def cases(rng, tier):
    for i in range(1200 if tier == "quick" else 15000):
        R = rng.choice([1, 2, 3, 4, 6])
        req = rand_req(rng, N, R=R)
        for r in req:
            r["vtw"] = r["vtw"] or [[1, 5]]
        yield dict(n=N, req=req, mask=rng.randint(0, 2 ** R - 1), st=[rng.choice([0, .1, .5, .49, .51, .9, 1]) for _ in range(R)], vi=[rng.randint(0, 5) for _ in range(R)], search=rng.random() < .15, seed=rng.randint(0, 999))


def check(c):
    h = make(c)
    ALNS = need("celest.schedule.alns", "ALNS")
    OW, WC = need("celest.encounter.window_handling", "ObservationWindow", "WindowCollection")
    from celest import units as u
    sol = make(c)
    for i in range(len(sol)):
        if c["mask"] >> i & 1:
            W = sol.vtw_list(i)
            v = c["vi"][i] % len(W)
            w = W[v]
            sol.schedule_request(i, v, u.Quantity(jd(w.rise_time) + c["st"][i] * (jd(w.set_time) - jd(w.rise_time)), u.jd2000), sol.duration(i))
    S = scheduler()
    S.request_handler = h
    old = ALNS.solve
    got = []

    def solve(self, *a, **k):
        got.append(old(self, *a, **k) if c["search"] else sol)
        return got[-1]
    ALNS.solve = solve
    random.seed(c["seed"])
    try:
        with limit(20, "generate"):
            out = call("generate", S.generate, 3, .8, .5)
    finally:
        ALNS.solve = old
    if not got:
        raise Skip("solve is not called through ALNS")
    s = got[0]
    expect(isinstance(out, WC), "generate returns a %r", type(out))
    idx = [i for i in range(len(s)) if s.is_request_scheduled(i)]
    expect(len(out) == len(idx), "%d requests are scheduled but the export has %d windows", len(idx), len(out))
    for i, w in zip(idx, list(out)):
        what = "window of request %d" % i
        expect(isinstance(w, OW), "%s is a %r", what, type(w))
        expect(jd(w.start_time) == jd(s.start_time(i)), "%s starts at %s, scheduled at %s", what, w.start_time, s.start_time(i))
        expect(close(dur_days(w.duration), dur_days(s.scheduled_duration(i))), "%s lasts %s, scheduled for %s", what, w.duration, s.scheduled_duration(i))
        loc = loc_of(s, i)
        expect(w.location is loc or vars(w.location) == vars(loc) or str(w.location) == str(loc), "%s is at %s, not %s", what, w.location, loc)
        A = s.vtw_list(i)[s.vtw_index(i)].attitude
        t = np.asarray(A.time.data, float)
        d = np.abs(t - jd(w.start_time))
        B = w.attitude
        expect(np.shape(B.time.data) == (1,), "%s has an attitude of %r samples", what, np.shape(B.time.data))
        k = np.where(t == B.time.data[0])[0]
        expect(len(k) == 1 and d[k[0]] <= d.min() + 1e-9, "%s starting at %r has the attitude of time %r, the nearest sample is %r", what, jd(w.start_time) - T0, B.time.data[0] - T0, t[d.argmin()] - T0)
        k = int(k[0])
        for n in ("roll", "pitch", "yaw"):
            x, y = float(getattr(A, n).to(u.deg)[k]), float(getattr(B, n).to(u.deg)[0])
            expect(close(x, y, 1e-12, 1e-12), "%s has %s %r, the window's attitude has %r", what, n, y, x)
        expect(str(B.location) == str(A.location), "%s: attitude for another location", what)
    return len(s), len(idx), c["search"], tuple(c["st"][:2])
