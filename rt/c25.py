"""C25: the search never returns a worse schedule and never fails."""
import copy
import random
from rt.base import *
from rt.sch import limit

RULE = "scripted candidate cost sequences x annealing and decay parameters (0, 1, between) x iterations x seeds, and weight vectors incl. all zero; distinct by parameters and acceptance pattern"


def cases(rng, tier):
    for w in ([1], [1, 1, 1], [0, 0], [0, 0, 0, 0], [0.5, 0, 2], [1e-320, 0], [3, 2.5, .1], [0], [1e-9] * 4):
        yield dict(k="prob", w=w)
    for i in range(4000 if tier == "quick" else 40000):
        pool = rng.choice([[-3, -2, -1, 0], [0], [5, 4, 3, 9, 0], [-1, 0, 1], [0, 0, -5], [-10, -7.5, -7, -3], [-100, -99, -98, -97, -95], [-1000, -990, -985.5], [100, 99, 97, 103], list(range(-60, -40))])
        m = rng.choice([0, 1, 2, 3, 6, 12, 40])
        yield dict(k="run", c0=rng.choice(pool + [0] if rng.random() < .3 else pool), costs=[rng.choice(pool) for _ in range(m)], m=m, p=rng.choice([0, .3, .8, .99, 1, 0.0, 1.0]), l=rng.choice([0, .2, .5, 1, 0.0, 1.0]),
                   nd=rng.choice([1, 2, 4]), nr=rng.choice([1, 3]), done=rng.choice([None, None, None, -5, -3, 0, 100]), seed=rng.randint(0, 10**6))


class Sol:
    """A solution whose content is nested, so that copies that are not deep share it."""

    def __init__(self, cost):
        self.content = [dict(cost=cost, id=0, parent=None, items=[cost])]

    cost, id, parent, items = (property(lambda s, k=k: s.content[0][k], lambda s, v, k=k: s.content[0].__setitem__(k, v)) for k in ("cost", "id", "parent", "items"))


def check(c):
    ALNS = need("celest.schedule.alns", "ALNS")
    s0 = Sol(c.get("c0", 0))
    a = call("ALNS", ALNS, s0)
    if c["k"] == "prob":
        f = getattr(a, "_get_probabilities", None)
        if f is None:
            raise Skip("no _get_probabilities")
        p = call("_get_probabilities(%r)" % c["w"], f, list(c["w"]))
        expect(len(p) == len(c["w"]) and all(x >= 0 for x in p) and abs(sum(p) - 1) < 1e-9, "probabilities of weights %r are %r", c["w"], p)
        return c["k"], str(c["w"])
    random.seed(c["seed"])
    made = []
    costs = {0: c["c0"]}
    script = iter(c["costs"] + [0])

    def destroy(sol, n):
        sol.parent, sol.id = sol.id, len(made) + 1
        made.append(sol.parent)
        sol.items.append("d")

    def repair(sol, n):
        sol.cost = next(script)
        costs[sol.id] = sol.cost
        sol.items.append("r")
    complete = (lambda s: False) if c["done"] is None else (lambda s: s.cost <= c["done"])
    used = []
    old = random.choices

    def choices(population, weights=None, *, cum_weights=None, k=1):
        used.append(list(weights) if weights is not None else None)
        return old(population, weights, cum_weights=cum_weights, k=k)
    a.add_cost_function(lambda s: s.cost)
    a.add_destroy_functions([lambda s, n: destroy(s, n)] * c["nd"])
    a.add_repair_functions([lambda s, n: repair(s, n)] * c["nr"])
    a.add_completeness_function(complete)
    random.choices = choices
    try:
        with limit(10, "solve"):
            r = call("solve(%r, %r, %r) from cost %r with candidate costs %r" % (c["m"], c["p"], c["l"], c["c0"], c["costs"]), a.solve, c["m"], c["p"], c["l"], 1, 1)
    finally:
        random.choices = old
    what = "search from cost %r over candidates %r (p=%r l=%r)" % (c["c0"], c["costs"], c["p"], c["l"])
    expect(isinstance(r, Sol), "%s returned %r", what, r)
    expect(r.cost == costs[r.id], "%s returned a solution of cost %r that was generated with cost %r", what, r.cost, costs[r.id])
    expect(r.cost <= min(costs.values()), "%s returned cost %r although %r was seen", what, r.cost, min(costs.values()))
    expect(s0.cost == c["c0"] and s0.id == 0 and s0.items == [c["c0"]], "%s modified the initial solution", what)
    for t in range(len(made) - 1):
        cur, cand = made[t], t + 1
        if costs[cand] < costs[cur]:
            expect(made[t + 1] == cand, "%s rejected candidate %d of cost %r improving on %r", what, cand, costs[cand], costs[cur])
        expect(made[t + 1] in (cur, cand), "%s continued from solution %d, neither the current %d nor the candidate %d", what, made[t + 1], cur, cand)
    for w in used:      # random.choices divides by their sum
        if w is not None:
            expect(all(x >= 0 for x in w) and sum(w) > 0, "%s selected an operator with probabilities %r", what, w)
    return c["p"], c["l"], c["m"], c["c0"], tuple(x - i for i, x in enumerate(made))[:6]
