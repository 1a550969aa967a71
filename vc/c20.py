"""Window collections with any number of windows."""
from vc.sl import *


def make(c, kind, n):
    """A collection that holds n windows of a kind (its invariant)."""
    w = world()
    m = w.get(WH)
    cls = {"v": m.VisibleTimeWindow, "o": m.ObservationWindow}
    col = m.WindowCollection()
    objs, keep = {}, []

    def get(k):
        key = k.get_id() if is_sym(k) else k
        if key not in objs:
            keep.append(k)
            o = cls[kind].__new__(cls[kind])
            o.ghost = k
            objs[key] = o
        return objs[key]
    attrs = [a for a, v in vars(col).items() if type(v) is list or isinstance(v, SymList)]
    if len(attrs) != 1:
        raise Unsupported("a collection of another layout")
    lst = SymList(SymSeq(n, get))
    setattr(col, attrs[0], lst)
    return w, m, cls, col, attrs[0]


def window(c, m, cls, kind):
    o = cls[kind].__new__(cls[kind])
    o.ghost = "new"
    return o


def holds_same(c, col, attr, n, before):
    s = seq.as_seq(getattr(col, attr))
    if not c.holds("the content is a list", s is not None):
        return None
    c.prove("the others stay", eq(s.n, n) if before is None else z3.BoolVal(True))
    return s


OTHERS = {"a number": 5, "None": None, "a text": "w", "a list": [], "a tuple": (1, 2), "a float": 2.5, "a dictionary": {}, "an object": object()}


def adding(kind, what):
    def hh(c):
        n = c.int("n")
        c.assume(n >= (0 if kind == "v" else 1))
        w, m, cls, col, attr = make(c, kind, n)
        old = getattr(col, attr).seq
        rest = {k: v for k, v in vars(col).items() if k != attr}
        if what in cls:
            new = window(c, m, cls, what)
        elif what == "a class":
            new = cls[kind]
        else:
            new = OTHERS[what]
        ok = (what == kind) if what in cls else False
        empty = c.branch(n == 0)
        if empty and what in cls:
            ok = True
        try:
            col.add_window(new)
            accepted = True
        except (TypeError, ValueError):
            accepted = False
        c.cover("decided")
        if not c.holds("exactly the windows of its kind are accepted", accepted == ok):
            return
        s = seq.as_seq(getattr(col, attr))
        if not c.holds("the content stays a list", s is not None):
            return
        k = c.int("k")
        c.assume(AND(k >= 0, k < n))
        c.register_index(k, n)
        if accepted:
            c.prove("one window is added", eq(s.n, n + 1))
            c.holds("the new window is last", s.get(fold(n)) is new)
        else:
            c.prove("nothing is added", eq(s.n, n))
        if c.satisfiable() if hasattr(c, "satisfiable") else True:
            o = s.get(k)
            c.holds("the others stay where they were", getattr(o, "ghost", None) is not None and o is old.get(k))
        c.holds("nothing else changes", all(vars(col).get(x) is v for x, v in rest.items()))
    return hh


for kind in "vo":
    for what in ["v", "o", "a class"] + sorted(OTHERS):
        unit("C20", "adding %s to %s" % ({"v": "a visible time window", "o": "an observation window"}.get(what, what), {"v": "visible time windows", "o": "observation windows"}[kind]), ["WindowCollection.add_window"])(adding(kind, what))


@unit("C20", "an empty collection", ["WindowCollection.__init__", "WindowCollection.__len__"])
def empty(c):
    w = world()
    col = w.get(WH).WindowCollection()
    c.holds("holds nothing", len(col) == 0 and list(col) == [])
    a, b = w.get(WH).WindowCollection(), w.get(WH).WindowCollection()
    o = w.get(WH).VisibleTimeWindow.__new__(w.get(WH).VisibleTimeWindow)
    a.add_window(o)
    c.holds("collections are independent", len(b) == 0 and len(a) == 1 and a[0] is o)


@unit("C20", "iteration, length and indexing", ["WindowCollection.__iter__", "WindowCollection.__len__", "WindowCollection.__getitem__", "WindowCollection.add_window"])
def iteration(c):
    n = c.int("n")
    c.assume(n >= 1)
    w, m, cls, col, attr = make(c, "v", n)
    data = getattr(col, attr).seq
    k = c.int("k")
    c.assume(AND(k >= 0, k < n))
    c.register_index(k, n)
    its = []

    def one(size, last=None):
        before = dict(vars(col))
        it = type(col).__iter__(col)
        c.holds("every iteration is a new one", it is not col and all(it is not x for x in its))
        its.append(it)
        s = seq.as_seq(it)
        if s is None:
            raise Unsupported("iteration by another kind of iterator")
        c.prove("every window is visited", eq(s.n, size))
        c.holds("windows are visited in order", s.get(k) is data.get(k))
        if last is not None:
            c.holds("an added window is visited last", s.get(fold(n)) is last)
        c.holds("iterating changes nothing", vars(col).keys() == before.keys() and all(vars(col)[x] is v for x, v in before.items()) and seq.as_seq(getattr(col, attr)) is getattr(col, attr).seq)
        c.prove("length", eq(raw(col.__len__()), size))
        c.holds("indexing", col[wrap(k)] is data.get(k))
        c.prove("indexing", eq(seq.as_seq(getattr(col, attr)).n, s.n))
        i = c.int("negative")
        c.assume(AND(i < 0, I(i) >= -I(size)))
        x = col[wrap(i)]
        c.prove("indexing from the end", eq(x.ghost, I(size) + i) if is_sym(x.ghost) else I(i) == -1)
    one(n)
    one(n)
    new = window(c, m, cls, "v")
    col.add_window(new)
    one(fold(z3.simplify(n + 1)), new)
    out = c.int("out")
    c.assume(z3.Or(out > n, out < -n - 1))
    try:
        col[wrap(out)]
        c.fail("an index outside is rejected", "no exception")
    except IndexError:
        c.holds("an index outside is rejected", True)
