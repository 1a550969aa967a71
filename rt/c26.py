"""C26: cost and completeness account for every request."""
from rt.sch import *

RULE = "request sets of size 0..6 with every scheduled pattern (priorities of any sign) and nested / abandoned iterations; distinct by size, pattern, priorities"
N = 64


def cases(rng, tier):
    for R in range(0, 7):
        for m in range(2 ** R):
            for _ in range(2):
                req = rand_req(rng, N, R=R)
                for r in req:
                    r["prio"] = rng.choice([1, 2, 3, 10, 0, 1.5, 7, -2])
                    r["vtw"] = r["vtw"] or [[1, 5]]
                yield dict(n=N, req=req, mask=m)
    for i in range(300 if tier == "quick" else 5000):
        R = rng.randint(7, 25)
        req = rand_req(rng, N, R=R)
        for r in req:
            r["vtw"] = r["vtw"] or [[1, 5]]
        yield dict(n=N, req=req, mask=rng.choice([2 ** R - 1, 2 ** R - 1 - (1 << rng.randint(0, R - 1)), rng.randint(0, 2 ** R - 1)]))


def check(c):
    cost, comp = need("celest.schedule.scheduling_utils", "cost", "is_complete")
    I = need("celest.schedule.request_handler", "RequestIndices")
    h = make(c)
    R = len(h)
    for i in range(R):
        if c["mask"] >> i & 1:
            h.schedule_request(i, 0, h.vtw_list(i)[0].rise_time, h.duration(i))
    before = state(h)
    want = -sum(r["prio"] for i, r in enumerate(c["req"]) if c["mask"] >> i & 1)
    for _ in range(2):
        v = call("cost", cost, h)
        expect(close(float(v), want, 1e-9, 1e-9), "cost of %d requests, priorities %r, scheduled %s is %r", R, [r["prio"] for r in c["req"]], bin(c["mask"]), v)
        v = call("is_complete", comp, h)
        expect(bool(v) == (c["mask"] == 2 ** R - 1), "%d requests, scheduled %s: is_complete is %r", R, bin(c["mask"]), v)
    expect(state(h) == before, "cost or is_complete changed the request set")
    ids = [id(loc_of(h, i)) for i in range(R)]
    names = lambda: [id(r[I.location]) for r in h]
    expect(names() == ids, "iteration visits %d requests, not %d in order", len(names()), R)
    got = []
    for r in h:
        expect(names() == ids, "nested iteration does not visit every request once")
        got.append(id(r[I.location]))
        if len(got) > R + 2:
            break
    expect(got == ids, "outer iteration around a nested one does not visit every request once")
    for r in h:
        break
    expect(names() == ids, "iteration after an abandoned one does not visit every request once")
    return R, c["mask"] if R < 7 else bin(c["mask"]).count("1")
