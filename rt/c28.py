"""C28: window overlap is symmetric and conflict ordering follows it."""
from rt.sch import *

RULE = "window pairs in every relative position (disjoint, touching, nested, equal) and request sets with ties; distinct by relative position / set shape and pattern"
N = 64


def cases(rng, tier):
    P = [0, 3, 5, 8, 12]
    for a in P:
        for b in P:
            if a < b:
                for c in P:
                    for d in P:
                        if c < d:
                            yield dict(k="pair", n=N, req=[dict(vtw=[[a, b]], deadline=99, dur=1, prio=1, qual=1, look=None), dict(vtw=[[c, d]], deadline=99, dur=1, prio=1, qual=1, look=None)])
    for i in range(2000 if tier == "quick" else 25000):
        R = rng.choice([1, 2, 3, 5, 7])
        req = rand_req(rng, N, R=R, disjoint=rng.random() < .5)
        if rng.random() < .4:
            for r in req:
                r["vtw"] = rng.choice([[[1, 5]], [[1, 5], [10, 14]], [[1, 9], [20, 28], [40, 48]]])
        for r in req:
            r["vtw"] = r["vtw"] or [[2, 6]]
        yield dict(k="set", n=N, req=req, mask=rng.randint(0, 2 ** R - 1), vi=[rng.randint(0, 5) for _ in range(R)])


def check(c):
    h = make(c)
    if c["k"] == "pair":
        f = need("celest.schedule.request_handler", "RequestHandler._julian_day_overlap_between_vtws")
        f = h._julian_day_overlap_between_vtws
        a, b = h.vtw_list(0)[0], h.vtw_list(1)[0]
        x, y = float(call("overlap", f, a, b)), float(call("overlap", f, b, a))
        w = overlap(a, b) or 0
        expect(abs(x - w) < 1e-9 and abs(y - w) < 1e-9, "overlap of %r and %r is %r and reversed %r", c["req"][0]["vtw"], c["req"][1]["vtw"], x, y)
        expect(x >= 0 and x <= min(jd(a.set_time) - jd(a.rise_time), jd(b.set_time) - jd(b.rise_time)) + 1e-9, "overlap is %r", x)
    else:
        for i in range(len(h)):
            if c["mask"] >> i & 1:
                W = h.vtw_list(i)
                v = c["vi"][i] % len(W)
                h.schedule_request(i, v, W[v].rise_time, h.duration(i))
    if hasattr(h, "_conflict_degree"):
        for i in range(len(h)):
            for w in h.vtw_list(i):
                d = float(call("_conflict_degree", h._conflict_degree, w))
                expect(abs(d - degree(h, w)) < 1e-9, "conflict degree of window %r..%r is %r, expected %r", jd(w.rise_time) - T0, jd(w.set_time) - T0, d, degree(h, w))
    base, before = snapshot(h), state(h)
    apply(h, "sort_by_decreasing_conflict_degree", 0, 0)
    k = [degree(h, h.vtw_list(i)[h.vtw_index(i)]) if h.is_request_scheduled(i) else -1 for i in range(len(h))]
    expect(all(k[i] >= k[i + 1] - 1e-9 for i in range(len(k) - 1)), "sorted by decreasing conflict degree (-1: unscheduled) the degrees are %r", k)
    bookkeeping(h, base, "after sorting by conflict degree")
    expect(state(h) == before, "sorting by conflict degree changed the schedule")
    apply(h, "sort_vtws_by_increasing_conflict_degree", 0, 0)
    for i in range(len(h)):
        k = [degree(h, w) for w in h.vtw_list(i)]
        expect(all(k[j] <= k[j + 1] + 1e-9 for j in range(len(k) - 1)), "windows sorted by increasing conflict degree have degrees %r", k)
    bookkeeping(h, base, "after sorting windows by conflict degree")
    expect(state(h) == before, "sorting windows by conflict degree changed the schedule from %r to %r", before, state(h))
    return c["k"], tuple(len(r["vtw"]) for r in c["req"]), c.get("mask"), str([r["vtw"] for r in c["req"]]) if c["k"] == "pair" else 0
