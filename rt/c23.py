"""C23: removal takes away exactly the requested number."""
from rt.sch import *
import random

RULE = "request sets with every pattern of scheduled requests x removal operators x n; distinct by operator, pattern and n"
N = 64


def cases(rng, tier):
    for op in REM:
        for R in (1, 2, 3, 4):
            for m in range(2 ** R):
                for n in (0, 1, 2, 3, 5):
                    yield dict(n=N, op=op, k=n, mask=m, req=full_req(rng, R), seed=rng.randint(0, 10**6), vi=rng.randint(0, 3))
    for i in range(1500 if tier == "quick" else 20000):
        R = rng.choice([2, 3, 5, 8, 12])
        yield dict(n=N, op=rng.choice(REM), k=rng.choice([0, 1, 1, 2, 3, 5, 13]), mask=rng.randint(0, 2 ** R - 1), req=full_req(rng, R), seed=rng.randint(0, 10**6), vi=rng.randint(0, 3))
    for i in range(25 if tier == "quick" else 300):
        R = rng.choice([2, 3, 4])
        yield dict(n=N, op="rnd", k=1, mask=rng.randint(1, 2 ** R - 1), req=full_req(rng, R), seed=0, vi=0, reach=True)


def full_req(rng, R):
    req = rand_req(rng, N, R=R)
    for r in req:
        if not r["vtw"]:
            r["vtw"] = [[1, 9]]
    return req


def build(c):
    h = make(c)
    for i in range(len(h)):
        if c["mask"] >> i & 1:
            W = h.vtw_list(i)
            v = c["vi"] % len(W)
            h.schedule_request(i, v, W[v].rise_time, h.duration(i))
    return h


def check(c):
    h = build(c)
    if c.get("reach"):
        s = bin(c["mask"]).count("1")
        if s < 2:
            return None
        seen = set()
        for seed in range(150):
            h = build(c)
            names = {key(h, i): i for i in range(len(h))}
            before = state(h)
            apply(h, "rnd", 1, seed)
            now = state(h)
            seen |= {names[k] for k in before if before[k] is not None and now[k] is None}
        want = {i for i in range(len(h)) if c["mask"] >> i & 1}
        expect(seen == want, "random removal of one request only ever takes %r of the scheduled %r", sorted(seen), sorted(want))
        return "reach", len(h), c["mask"]
    base, before = snapshot(h), state(h)
    deg = {key(h, i): degree(h, h.vtw_list(i)[h.vtw_index(i)]) for i in range(len(h)) if h.is_request_scheduled(i)}
    pri = {key(h, i): h.priority(i) for i in range(len(h))}
    opp = {key(h, i): len(h.vtw_list(i)) for i in range(len(h))}
    s = sum(v is not None for v in before.values())
    what = apply(h, c["op"], c["k"], c["seed"])
    now = state(h)
    left = sum(v is not None for v in now.values())
    expect(left == max(s - c["k"], 0), "%s on %d scheduled requests (pattern %s) leaves %d", what, s, bin(c["mask"]), left)
    expect(all(now[k] in (before[k], None) for k in before), "%s changed the entry of another request", what)
    bookkeeping(h, base, "after " + what)
    K = dict(prio=pri, opp=opp, conf=deg).get(c["op"])
    if K is not None:
        gone = [K[k] for k in before if before[k] is not None and now[k] is None]
        kept = [K[k] for k in before if now[k] is not None]
        if gone and kept:
            expect(min(gone) >= max(kept) - 1e-9, "%s removed requests with keys %r and kept %r", what, gone, kept)
    return c["op"], len(h), c["mask"] if len(h) < 5 else s, c["k"]
