"""C30: image quality ranks starts by distance from mid-window."""
from rt.base import *

RULE = "windows on an exact time grid x starts over the whole window, pairs compared; distinct by window length and the two positions"


def cases(rng, tier):
    for L in (2, 3, 4, 7, 16, 18, 36, 90, 1000):
        for k in range(0, min(L, 40) + 1):
            yield dict(L=L, s=k * L / min(L, 40), t=rng.uniform(0, L), off=rng.randint(0, 99), m=rng.randint(1, 10))
    for i in range(15000 if tier == "quick" else 200000):
        L = rng.choice([2, 3, 5, 8, 16, 64, 1000, 9, 18, 27])
        g = rng.choice([1, 4, 16, 64])
        yield dict(L=L, s=rng.randint(0, L * g) / g, t=rng.randint(0, L * g) / g, off=rng.randint(0, 1000), m=rng.randint(1, 10))


def check(c):
    f, met = need("celest.schedule.insertion_operators", "image_quality", "is_image_quality_met")
    VTW = need("celest.encounter.window_handling", "VisibleTimeWindow")
    from celest import units as u
    r = 2460000.0 + c["off"] / 64
    L = c["L"] / 1024
    w = VTW(r, r + L, None)
    snap = lambda v: round(v * 1024) / 1024 / 1024

    def q(x):
        s = u.Quantity(r + x, u.jd2000)
        v = call("image_quality", f, w, s)
        expect(v == int(v) and 1 <= v <= 10, "quality at %r of a window of length %r is %r", x, L, v)
        expect(bool(call("is_image_quality_met", met, w, s, c["m"])) == (v >= c["m"]), "quality %r and minimum %r: acceptable is wrong", v, c["m"])
        return v
    x, y = snap(c["s"]), snap(c["t"])
    x, y = min(x, L), min(y, L)
    a, b = q(x), q(y)
    dx, dy = abs(x - L / 2), abs(y - L / 2)
    if dx <= dy:
        expect(a >= b, "quality is %r at distance %r and %r at %r from the middle (length %r)", a, dx, b, dy, L)
    if dy <= dx:
        expect(b >= a, "quality is %r at distance %r and %r at %r from the middle (length %r)", b, dy, a, dx, L)
    for v, d in ((a, dx), (b, dy)):
        expect((v == 10) == (d == 0), "quality is %r at distance %r from the middle (length %r)", v, d, L)
    expect(q(L - x) == a, "quality is %r at %r and %r at its mirror image (length %r)", a, x, q(L - x), L)
    return c["L"], round(x, 9), round(y, 9)
