"""Export of schedules with any number of requests."""
from vc.sl import *

ATT = "celest.coordinates.frames.attitude"


class Samples:
    """Attitudes: arrays of any length for every window."""

    def __init__(self, c, w):
        f = lambda n, *s: z3.Function(c.name(n), *s)
        self.m = f("samples", INT, INT, INT)
        self.f = {k: f(k, INT, INT, INT, REAL) for k in ("time", "roll", "pitch", "yaw")}
        self.w, self.c = w, c

    def make(self, h, r, num):
        r, num = I(r), I(num)
        m = self.m(r, num)
        self.c.assume(m >= 1)
        a = lambda k: Arr((m,), lambda idx: self.f[k](r, num, I(idx[0])), None, "f")
        u = h.u
        o = self.w.get(ATT).Attitude(a("time"), a("roll"), a("pitch"), a("yaw"), u.deg, h.location(r))
        o.ghost = (r, num)
        return o


def add(real):
    """Contract of WindowCollection.add_window for observation windows (C20)."""
    def add_window(self, window):
        c = core.CTX
        if type(window).__name__ != "ObservationWindow":
            c.fail("only observation windows are exported", type(window).__name__)
            raise PathEnd()
        self._window_data.append(window)
    return add_window


class Export(Ops):
    lists = True


@unit("C27", "export of a schedule", ["Scheduler._generate_window_handler_from_request_list"])
def export(c):
    w = world(**{WH + ":WindowCollection.add_window": add})
    h = Heap(c, w)
    hd = h.make_handler()
    h.assume_well_formed()
    T = dict(h.a)
    # a scheduled request lasts as long as it asked for (C21)
    c.assume_forall(h.N, lambda r: z3.Implies(h.get("sched", r, T), h.get("du", r, T) == h.dur(I(r))))
    sm = Samples(c, w)
    h.attitude = sm.make
    Sc = w.get(SC).Scheduler
    sc = Sc.__new__(Sc)
    S = h.snapshot()
    g = h.g[0]
    c.loop_spec = Export(h, lambda: None, lambda where: None, [(g, h.N)])
    out = sc._generate_window_handler_from_request_list(hd)
    c.loop_spec = None
    c.cover("exported")
    c.holds("the schedule is not changed", h.same(S))
    if not c.holds("a window collection is returned", isinstance(out, w.get(WH).WindowCollection)):
        return
    lst = out._window_data
    fill = getattr(lst, "filled", None)
    if fill is None or fill.rank is None or not (is_sym(h.N) and lst.seq is fill.start):
        raise Unsupported("windows collected in another way")
    c.prove("collections start empty", eq(fill.base.n, 0))
    c.prove("nothing precedes the first request", eq(fill.before(0), 0))
    if not c.branch(AND(g >= 0, g < h.N)):
        return
    step = fill.rank(g + 1) - fill.before(g)
    mine = [v for j, v in fill.known if is_sym(j) and j.eq(g)]
    if not mine:
        c.prove("a scheduled request is exported", NOT(h.get("sched", g)))
        c.prove("an unscheduled request contributes nothing", step == 0)
        return
    c.prove("an unscheduled request contributes nothing", h.get("sched", g))
    c.prove("a scheduled request contributes one window", step == 1)
    o = mine[0]
    q = lambda x, un: core.to_real(rdiv(rmul(raw(x.data), size_of(x.unit)), size_of(un)))
    u = h.u
    c.prove("the window starts when the request is scheduled", q(o.start_time, u.jd2000) == h.get("st", g))
    c.prove("the window lasts as long as the request is scheduled", q(o.duration, u.s) == h.get("du", g))
    c.holds("the window is for the request's location", isinstance(o.location, Loc) and c.implied(I(o.location.ghost) == g))
    a = o.attitude
    num = h.num(g, h.get("vi", g))
    tt, j = sm.f["time"], c.int("j")
    c.assume(AND(j >= 0, j < sm.m(g, num)))
    c.register_index(j, sm.m(g, num))
    arrs = dict(time=(a.time, u.jd2000), roll=(a.roll, u.deg), pitch=(a.pitch, u.deg), yaw=(a.yaw, u.deg))
    vals = {}
    for k, (x, un) in arrs.items():
        if not c.holds("the attitude is a single sample", isinstance(x.data, Arr) and x.data.ndim == 1):
            return
        c.prove("the attitude is a single sample", eq(x.data._shape[0], 1))
        vals[k] = core.to_real(rdiv(rmul(el(x.data, 0), size_of(x.unit)), size_of(un)))
    at = [t for t, m in c.indices if is_sym(m) and c.implied(I(m) == sm.m(g, num))]
    c.prove("the attitude is a sample of the window the request was scheduled in", z3.Or(*[AND(t >= 0, t < sm.m(g, num), *[v == sm.f[k](g, num, t) for k, v in vals.items()]) for t in at]))
    ab = lambda x: z3.If(x >= 0, x, -x)
    st = h.get("st", g)
    c.prove("the sample is the one nearest to the start", ab(vals["time"] - st) <= ab(tt(g, num, j) - st))


@unit("C27", "generate", ["Scheduler.generate"])
def generate(c):
    log = []
    best, token = object(), object()

    def initialize(real):
        def initialize_solution(request_handler):
            log.append(("initialize", request_handler))
        return initialize_solution

    def solve(real):
        def solve(self, max_iter, p, l, number_to_remove, number_to_add):
            log.append(("solve", self.initial_solution))
            c.prove("numbers of requests to remove and insert are not negative", AND(rcmp(">=", raw(number_to_remove), 0), rcmp(">=", raw(number_to_add), 0)))
            return best
        return solve

    def out(real):
        def _generate_window_handler_from_request_list(self, request_list):
            log.append(("export", request_list))
            return token
        return _generate_window_handler_from_request_list
    w = world(**{SU + ":initialize_solution": initialize, "celest.schedule.alns:ALNS.solve": solve, SC + ":Scheduler._generate_window_handler_from_request_list": out})
    h = Heap(c, w)
    hd = h.make_handler()
    S = h.snapshot()
    Sc = w.get(SC).Scheduler
    sc = Sc.__new__(Sc)
    sc.request_handler = hd
    m, a, b = c.int("max_iter"), c.real("annealing"), c.real("react")
    empty = c.branch(h.N == 0)
    try:
        r = sc.generate(wrap(m), wrap(a), wrap(b))
    except Exception as e:
        if type(e) is not Exception:
            raise
        c.holds("only an empty set of requests is refused", empty)
        return
    c.cover("generated")
    c.holds("the solution of the search is exported", r is token and log[-1] == ("export", best))
    c.holds("the requests are kept", h.same(S))
