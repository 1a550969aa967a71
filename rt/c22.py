"""C22: request bookkeeping is exact under every operator."""
from rt.sch import *

RULE = "random request sets x random sequences of scheduling, removal, insertion and sorting steps, repeated steps included; distinct by steps and request count"
N = 64


def cases(rng, tier):
    for i in range(3000 if tier == "quick" else 30000):
        ops = rand_ops(rng, rng.choice([1, 2, 4, 6]))
        for _ in range(rng.choice([0, 1, 2])):
            ops.insert(rng.randint(0, len(ops)), ["sched", rng.randint(0, 9), rng.randint(0, 9)])
        yield dict(n=N, req=rand_req(rng, N, disjoint=rng.random() < .7), ops=ops)


def check(c):
    from celest import units as u
    h = make(c)
    base = snapshot(h)
    bookkeeping(h, base, "after adding requests")
    for i, r in enumerate(c["req"]):
        expect(h.priority(i) == r["prio"] and h.image_quality(i) == r["qual"] and close(dur_days(h.duration(i)) * 86400, r["dur"] * 84.375)
               and jd(h.deadline(i)) == T0 + r["deadline"] * G and (h.look_angle(i) is None) == (r["look"] is None) and len(h.vtw_list(i)) == len(r["vtw"]),
               "request %d does not record what it was added with", i)
    for op, n, seed in c["ops"]:
        before = state(h)
        if op == "sched":
            i = n % len(h)
            W = h.vtw_list(i)
            if not len(W):
                continue
            w = W[seed % len(W)]
            call("schedule_request", h.schedule_request, i, seed % len(W), w.rise_time, h.duration(i))
            expect(h.is_request_scheduled(i) and h.vtw_index(i) == seed % len(W) and jd(h.start_time(i)) == jd(w.rise_time) and dur_days(h.scheduled_duration(i)) == dur_days(h.duration(i)),
                   "schedule_request(%d) recorded %r %r %r", i, h.vtw_index(i), h.start_time(i), h.scheduled_duration(i))
            what, k = "schedule_request", key(h, i)
            now = state(h)
            expect(all(now[x] == before[x] for x in before if x != k), "schedule_request(%d) changed another request", i)
        else:
            what = apply(h, op, n, seed)
            if op in SORTS:
                expect(state(h) == before, "%s changed the schedule from %r to %r", what, before, state(h))
                R = range(len(h))
                if op == "sort_by_decreasing_priority":
                    v = [-h.priority(i) for i in R]
                elif op == "sort_by_decreasing_opportunity":
                    v = [-len(h.vtw_list(i)) for i in R]
                elif op == "sort_by_increasing_opportunity":
                    v = [len(h.vtw_list(i)) for i in R]
                else:
                    v = []
                expect(v == sorted(v), "after %s the keys are %r", what, v)
                if op == "sort_vtws_by_increasing_rise_time":
                    for i in R:
                        v = [jd(w.rise_time) for w in h.vtw_list(i)]
                        expect(v == sorted(v), "after %s request %d has rise times %r", what, i, v)
            if op == "un":
                k = key(h, n % len(h))
                now = state(h)
                expect(now[k] is None and all(now[x] == before[x] for x in before if x != k), "unschedule_request(%d) went from %r to %r", n % len(h), before, now)
            if op == "unall":
                expect(all(v is None for v in state(h).values()), "unschedule_all_requests leaves requests scheduled")
        bookkeeping(h, base, "after %s" % what)
    return tuple(o[0] for o in c["ops"]), len(h)
