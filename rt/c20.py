"""C20: window collections are homogeneous and iterate faithfully."""
from rt.base import *

RULE = "random histories of additions (valid, wrong kind, wrong type), complete, nested, interleaved and abandoned iterations, indexing; distinct by history"


def cases(rng, tier):
    for i in range(6000 if tier == "quick" else 80000):
        ops = []
        for _ in range(rng.choice([1, 3, 6, 12])):
            ops.append([rng.choice(["addv", "addv", "addv", "addo", "bad", "iter", "nest", "abandon", "zip", "index", "len"]), rng.randint(0, 9)])
        if rng.random() < .4:
            ops = [["addo" if o == "addv" else ("addv" if o == "addo" else o), k] for o, k in ops]
        yield dict(ops=ops)


def check(c):
    VTW, OW, WC = need("celest.encounter.window_handling", "VisibleTimeWindow", "ObservationWindow", "WindowCollection")
    from celest import units as u
    col = WC()
    model = []

    def same(seq, what):
        seq = list(seq)
        expect(len(seq) == len(model) and all(a is b for a, b in zip(seq, model)), "%s gives %d windows of %d (history %r)", what, len(seq), len(model), c["ops"])
    for op, k in c["ops"]:
        if op in ("addv", "addo"):
            w = VTW(2460000.0 + k, 2460001.0 + k, None) if op == "addv" else OW(u.Quantity(2460000.0 + k, u.jd2000), u.Quantity(10, u.s), None, None)
            ok = not model or type(model[0]) is type(w)
            try:
                col.add_window(w)
                expect(ok, "a collection of %s accepted a %s", model and type(model[0]).__name__, type(w).__name__)
                model.append(w)
            except Bad:
                raise
            except Exception as e:
                expect(not ok, "adding a %s to %d of its kind raised %r", type(w).__name__, len(model), e)
        elif op == "bad":
            b = [5, None, "w", VTW, [], (1, 2), object(), 2.5, {}, [VTW(1.0, 2.0, None)]][k]
            try:
                col.add_window(b)
            except Exception:
                pass
            else:
                raise Bad("the collection accepted %r" % (b,))
        elif op == "iter":
            same(col, "iteration")
        elif op == "nest":
            got = []
            for w in col:
                got.append(w)
                same(col, "nested iteration")
                if len(got) > len(model) + 2:
                    break
            same(got, "outer iteration")
        elif op == "abandon":
            for j, w in enumerate(col):
                expect(w is model[j], "iteration starts at another window")
                if j >= k % 3:
                    break
        elif op == "zip":
            pairs = list(zip(col, col))
            expect(len(pairs) == len(model) and all(a is b is m for (a, b), m in zip(pairs, model)), "two simultaneous iterations interfere (history %r)", c["ops"])
        elif op == "index":
            for j in range(len(model)):
                expect(col[j] is model[j] and col[j - len(model)] is model[j], "index %d gives another window", j)
            same(col[1:], "slice") if False else None
        expect(len(col) == len(model), "length is %d with %d windows (history %r)", len(col), len(model), c["ops"])
    same(col, "final iteration")
    return str(c["ops"])
