"""C21: every schedule the operators produce is feasible."""
from rt.sch import *

RULE = "random request sets (overlapping windows, deadlines, qualities, look angles) x random sequences of operators; distinct by operators run, requests and number scheduled"
N = 64


def cases(rng, tier):
    for i in range(2500 if tier == "quick" else 30000):
        yield dict(n=N, req=rand_req(rng, N, disjoint=rng.random() < .7), ops=rand_ops(rng, rng.choice([1, 2, 4, 6])))
    for i in range(150 if tier == "quick" else 2000):
        yield dict(n=N, req=rand_req(rng, N, R=rng.choice([2, 4, 6])), gen=[rng.choice([0, 1, 3, 6]), rng.choice([0, .5, .8, 1]), rng.choice([0, .5, 1])], seed=rng.randint(0, 999))


def check(c):
    h = make(c)
    if "gen" in c:
        import random
        random.seed(c["seed"])
        S = scheduler()
        S.request_handler = h
        got = []
        ALNS = need("celest.schedule.alns", "ALNS")
        old = ALNS.solve

        def solve(self, *a, **k):
            r = old(self, *a, **k)
            got.append(r)
            return r
        ALNS.solve = solve
        try:
            with limit(20, "generate"):
                call("generate", S.generate, *c["gen"])
        finally:
            ALNS.solve = old
        feasible(h, "initial schedule")
        for r in got:
            feasible(r, "generate")
        return "gen", len(h), tuple(c["gen"]), got[0].number_of_scheduled_requests if got else None
    for op, n, seed in c["ops"]:
        what = apply(h, op, n, seed)
        feasible(h, "after %s" % what)
    return tuple(o[0] for o in c["ops"]), len(h), h.number_of_scheduled_requests


def scheduler():
    import numpy as np
    ITRS = need("celest.coordinates.frames.itrs", "ITRS")
    Sat = need("celest.satellite", "Satellite")
    Sch = need("celest.schedule.scheduler", "Scheduler")
    from celest import units as u
    z = np.array([2460000.0])
    return Sch(Sat(ITRS(z, z * 0 + 7000, z * 0, z * 0, u.km), ITRS(z, z * 0, z * 0 + 7, z * 0, u.km / u.s)), 10)
