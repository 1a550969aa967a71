"""C24: insertion adds at most n requests and disturbs nothing."""
from rt.sch import *

RULE = "request sets, some already scheduled by earlier steps, x insertion operators x n; distinct by operator, requests, n and numbers scheduled before and after"
N = 64


def cases(rng, tier):
    for i in range(5000 if tier == "quick" else 60000):
        pre = rand_ops(rng, rng.choice([0, 0, 1, 2]))
        yield dict(n=N, req=rand_req(rng, N, disjoint=rng.random() < .7), pre=pre, op=rng.choice(INS + ["init"]), k=rng.choice([0, 1, 1, 2, 3, 20]), seed=rng.randint(0, 999))


def candidate(h, i, w):
    """The start a window offers, in Julian days (None: no look angle crossing; 'skip': ambiguous)."""
    d = dur_days(h.duration(i))
    look = h.look_angle(i)
    a, b = jd(w.rise_time), jd(w.set_time)
    if look is None:
        return (a + b - d) / 2
    from celest import units as u
    t = [float(x) for x in w.attitude.time.data]
    p = [float(x) - float(look.to(u.deg)) for x in w.attitude.pitch.to(u.deg)]
    l, r = t.index(a), t.index(b)
    if p[l] * p[r] > 0:
        return None
    k = [j for j in range(l, r) if p[j] * p[j + 1] <= 0]
    return t[k[0]] if len(k) == 1 else "skip"


def fits(h, i, w):
    """True / False / None (too close to call in machine arithmetic)."""
    from celest import units as u
    s = candidate(h, i, w)
    if s is None or s == "skip":
        return False if s is None else None
    d = dur_days(h.duration(i))
    a, b = jd(w.rise_time), jd(w.set_time)
    m = 1e-8
    if not (a < s and s + d < b) or not s + d < jd(h.deadline(i)):
        return False
    q = 10 - 9 * abs(s - (a + b) / 2) / ((b - a) / 2)
    if abs(q - round(q)) < 1e-9:
        q = None
    lib = iq(w, u.Quantity(s, u.jd2000))
    if q is None and lib == h.image_quality(i):
        return None if abs(s - (a + b) / 2) > 0 else True
    if lib < h.image_quality(i):
        return False
    for j in range(len(h)):
        if h.is_request_scheduled(j):
            t, e = jd(h.start_time(j)), dur_days(h.scheduled_duration(j))
            if max(s, t) < min(s + d, t + e):
                return False
            # a zero gap is no overlap, but the guard may be stricter about touching in other units
            if max(s, t) - min(s + d, t + e) < m:
                return None
    return True


def check(c):
    h = make(c)
    for op, n, seed in c["pre"]:
        apply(h, op, n, seed)
    base, before = snapshot(h), state(h)
    n = len(h) if c["op"] == "init" else c["k"]
    what = apply(h, c["op"], c["k"], c["seed"])
    now = state(h)
    for k in before:
        if before[k] is not None:
            expect(now[k] == before[k], "%s moved a scheduled request from %r to %r", what, before[k], now[k])
    added = sum(now[k] is not None and before[k] is None for k in before)
    expect(added <= n, "%s scheduled %d requests", what, added)
    bookkeeping(h, base, "after " + what)
    for i in range(len(h)):
        if before[key(h, i)] is None and h.is_request_scheduled(i):
            w = h.vtw_list(i)[h.vtw_index(i)]
            s = candidate(h, i, w)
            if s != "skip":
                expect(s is not None and abs(jd(h.start_time(i)) - s) < 1e-8, "%s starts request %d at %r, its window offers %r", what, i, jd(h.start_time(i)) - T0, s if s is None else s - T0)
    if added < n:
        for i in range(len(h)):
            if not h.is_request_scheduled(i):
                for v, w in enumerate(h.vtw_list(i)):
                    expect(fits(h, i, w) is not True, "%s scheduled %d but left request %d out although its window %d (%r..%r) offers a feasible start", what, added, i, v, jd(w.rise_time) - T0, jd(w.set_time) - T0)
    return c["op"], len(h), c["k"], added, len(before) - sum(v is None for v in before.values())
