"""Request sets for the scheduling properties.

Times lie on a grid of 1/1024 day after T0 and durations are multiples of
84.375 s, so that sums and differences of Julian dates are exact."""
import contextlib
import math
import random as _random
import signal
import numpy as np
from rt.base import need, Bad, Skip, call, expect, close

T0 = 2460000.0
G = 1 / 1024


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds, what):
    def stop(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    except Timeout:
        raise Bad("%s did not terminate in %d s" % (what, seconds))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def attitude(spec, loc, n):
    """Attitude over grid samples 0..n, pitch linear in time."""
    A = need("celest.coordinates.frames.attitude", "Attitude")
    from celest import units as u
    a, b = spec
    k = np.arange(n + 1)
    return A(T0 + k * G, 0.25 * k, a + b * k, 5.0 - k, u.deg, loc)


def make(c, only=None):
    RH = need("celest.schedule.request_handler", "RequestHandler")
    GL = need("celest.coordinates.ground_location", "GroundLocation")
    VTW, WC = need("celest.encounter.window_handling", "VisibleTimeWindow", "WindowCollection")
    from celest import units as u
    Q = u.Quantity
    h = RH()
    for i, r in enumerate(c["req"]):
        loc = GL(float(i), 10.0, 0.0, u.deg, u.km)
        at = attitude(r.get("pitch", (-20.0, 1.0)), loc, c.get("n", 64))
        w = [VTW(T0 + a * G, T0 + b * G, at) for a, b in r["vtw"]]
        if r.get("wc"):
            col = WC()
            for x in w:
                col.add_window(x)
            w = col
        h.add_request(loc, Q(T0 + r["deadline"] * G, u.jd2000), Q(r["dur"] * 84.375, u.s), r["prio"], r["qual"],
                      None if r["look"] is None else Q(r["look"], u.deg), w)
    return h


def rand_req(rng, n, R=None, V=4, disjoint=True):
    R = rng.choice([1, 2, 3, 4, 5, 7]) if R is None else R
    req = []
    for _ in range(R):
        w = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, V])):
            a = rng.randint(0, n - 2)
            b = min(n, a + rng.choice([1, 2, 4, 8, 16, 31]))
            w.append([a, b])
        if disjoint:
            w.sort()
            out, last = [], -1
            for a, b in w:
                if a > last:
                    out.append([a, b])
                    last = b
            w = out
        rng.shuffle(w)
        look = None if rng.random() < .7 else rng.choice([0.5, 10.5, 30.5, -10.5, 43.5, 99.5])
        req.append(dict(vtw=w, deadline=rng.choice([n + 5, n + 5, n + 5, rng.randint(1, n)]), dur=rng.choice([0.5, 1, 2, 2, 4, 8, 16, 15]), prio=rng.choice([1, 1, 2, 3, 5, 10, 0]),
                        qual=rng.choice([1, 1, 2, 4, 5, 7, 9, 10]), look=look, wc=rng.random() < .5, pitch=[rng.choice([-20.0, -32.0]), rng.choice([1.0, 0.5, 2.0])] if rng.random() < .6 else [40.0, -1.0]))
    return req


def jd(q):
    from celest import units as u
    return float(q.to(u.jd2000))


def dur_days(q):
    from celest import units as u
    return float(q.to(u.dy))


def iq(w, start):
    """Image quality as the library defines it."""
    f = need("celest.schedule.insertion_operators", "image_quality")
    return f(w, start)


def loc_of(h, i):
    I = need("celest.schedule.request_handler", "RequestIndices")
    return h.requests[i][I.location] if hasattr(h, "requests") else h[i][I.location]


def record(h, i):
    return dict(loc=loc_of(h, i), deadline=h.deadline(i), duration=h.duration(i), priority=h.priority(i), quality=h.image_quality(i), look=h.look_angle(i), vtws=list(h.vtw_list(i)))


def key(h, i):
    return id(loc_of(h, i))


def snapshot(h):
    """Identity and own data of every request."""
    out = {}
    for i in range(len(h)):
        r = record(h, i)
        out[id(r["loc"])] = (id(r["loc"]), jd(r["deadline"]), dur_days(r["duration"]), r["priority"], r["quality"], None if r["look"] is None else float(r["look"].data),
                             tuple(sorted((float(w.rise_time.data), float(w.set_time.data)) for w in r["vtws"])), len(r["vtws"]))
    return out


def state(h):
    """Scheduling state per request: None or (window, start, duration)."""
    out = {}
    for i in range(len(h)):
        k = key(h, i)
        if h.is_request_scheduled(i):
            w = h.vtw_list(i)[h.vtw_index(i)]
            out[k] = (float(w.rise_time.data), float(w.set_time.data), jd(h.start_time(i)), dur_days(h.scheduled_duration(i)))
        else:
            out[k] = None
    return out


def feasible(h, what):
    iv = []
    for i in range(len(h)):
        if not h.is_request_scheduled(i):
            continue
        v = h.vtw_index(i)
        W = h.vtw_list(i)
        expect(isinstance(v, (int, np.integer)) and 0 <= v < len(W), "%s: request %d is scheduled in window %r of %d", what, i, v, len(W))
        w, s, d = W[v], h.start_time(i), h.scheduled_duration(i)
        expect(s is not None and d is not None, "%s: request %d is scheduled without start or duration", what, i)
        a, b, s0, d0 = jd(w.rise_time), jd(w.set_time), jd(s), dur_days(d)
        expect(abs(d0 - dur_days(h.duration(i))) < 1e-12, "%s: request %d lasts %r days, requested %r", what, i, d0, dur_days(h.duration(i)))
        expect(a < s0 and s0 + d0 < b, "%s: request %d at %r for %r days does not lie strictly inside its window %r..%r", what, i, s0 - T0, d0, a - T0, b - T0)
        expect(s0 + d0 < jd(h.deadline(i)), "%s: request %d at %r for %r days misses its deadline %r", what, i, s0 - T0, d0, jd(h.deadline(i)) - T0)
        expect(iq(w, s) >= h.image_quality(i), "%s: request %d has image quality %r below %r", what, i, iq(w, s), h.image_quality(i))
        iv.append((s0, s0 + d0, i))
    for x in range(len(iv)):
        for y in range(x):
            lo, hi = max(iv[x][0], iv[y][0]), min(iv[x][1], iv[y][1])
            expect(hi <= lo, "%s: requests %d and %d overlap: %r and %r", what, iv[y][2], iv[x][2], [t - T0 for t in iv[y][:2]], [t - T0 for t in iv[x][:2]])


def bookkeeping(h, base, what):
    n = len(h)
    expect(n == len(base) and h.number_of_requests == n, "%s: %d requests became %d (number_of_requests %r)", what, len(base), n, h.number_of_requests)
    marked = sum(bool(h.is_request_scheduled(i)) for i in range(n))
    expect(h.number_of_scheduled_requests == marked, "%s: %d requests are marked scheduled but %r are recorded", what, marked, h.number_of_scheduled_requests)
    for i in range(n):
        if not h.is_request_scheduled(i):
            expect(h.vtw_index(i) is None and h.start_time(i) is None and h.scheduled_duration(i) is None, "%s: unscheduled request %d records window %r start %r duration %r", what, i, h.vtw_index(i), h.start_time(i), h.scheduled_duration(i))
    now = snapshot(h)
    expect(set(now) == set(base), "%s: requests were lost or duplicated", what)
    for k in base:
        expect(now[k] == base[k], "%s: a request's own data changed from %r to %r", what, base[k], now[k])


OPS = dict(greedy=("celest.schedule.insertion_operators", "greedy_insertion"), minopp=("celest.schedule.insertion_operators", "minimum_opportunity_insertion"),
           minconf=("celest.schedule.insertion_operators", "minimum_conflict_insertion"), rnd=("celest.schedule.removal_operators", "random_removal"),
           prio=("celest.schedule.removal_operators", "priority_removal"), opp=("celest.schedule.removal_operators", "opportunity_removal"),
           conf=("celest.schedule.removal_operators", "conflict_removal"), init=("celest.schedule.scheduling_utils", "initialize_solution"))
INS, REM = ["greedy", "minopp", "minconf"], ["rnd", "prio", "opp", "conf"]
SORTS = ["sort_by_decreasing_priority", "sort_by_decreasing_opportunity", "sort_by_increasing_opportunity", "sort_by_decreasing_conflict_degree",
         "sort_vtws_by_increasing_conflict_degree", "sort_vtws_by_increasing_rise_time"]


def apply(h, op, n, seed):
    _random.seed(seed)
    what = "%s(%r)" % (op, n)
    with limit(10, what):
        if op in SORTS:
            f = getattr(h, op, None)
            if f is None:
                raise Skip("no " + op)
            call(what, f)
        elif op == "init":
            call(what, need(*OPS[op]), h)
        elif op == "unall":
            call(what, h.unschedule_all_requests)
        elif op == "un":
            if len(h):
                call(what, h.unschedule_request, n % len(h))
        else:
            call(what, need(*OPS[op]), h, n)
    return what


def rand_ops(rng, k):
    out = []
    for _ in range(k):
        x = rng.random()
        if x < .4:
            op = rng.choice(INS)
        elif x < .7:
            op = rng.choice(REM)
        elif x < .9:
            op = rng.choice(SORTS)
        else:
            op = rng.choice(["init", "unall", "un"])
        out.append([op, rng.choice([0, 1, 1, 2, 3, 7, 20]), rng.randint(0, 10**6)])
    return out


def overlap(a, b):
    """Own overlap of two windows, None when they do not meet."""
    if jd(a.set_time) < jd(b.rise_time) or jd(b.set_time) < jd(a.rise_time):
        return None
    return min(jd(a.set_time), jd(b.set_time)) - max(jd(a.rise_time), jd(b.rise_time))


def degree(h, w):
    o = [overlap(w, x) for i in range(len(h)) for x in h.vtw_list(i)]
    o = [x for x in o if x is not None]
    return sum(o) / len(o)
