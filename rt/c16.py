"""C16: position strings are valid sexagesimal notation of the value."""
import re
from fractions import Fraction
from rt.base import *
from rt.geo import *

RULE = "angles at and around every carry boundary (seconds 59.99..60, minutes 59..60, whole degrees), both signs, every angle unit, and random ones; distinct by unit, sign and degree/minute bin"
PAT = re.compile(r"^(\d+)°(\d{2})′(\d{2}\.\d{2})″([NS]) (\d+)°(\d{2})′(\d{2}\.\d{2})″([EW]) (-?\d+\.\d\d)\s?(.*)$")


def cases(rng, tier):
    specials = [0, 1e-9, 0.5, 1 / 3600, 59 / 3600, 59.99 / 3600, 59.994 / 3600, 59.996 / 3600, 59.9999 / 3600, 1 / 60, 59 / 60, 59 / 60 + 59.9951 / 3600,
                59 / 60 + 59.9949 / 3600, 1 - 1e-9, 1 - 1e-7, 1, 9.999999, 9.5, 45 - 1e-8, 45 + 1e-8, 59.995 / 3600 + 1e-12, 89 + 59 / 60 + 59.999 / 3600, 12.582438888888889, 29.99999999]
    for s in specials:
        for sg in (1, -1):
            for base in (0, 9, 44, 88):
                if s + base <= 90:
                    yield dict(lat=sg * (s + base), lon=-sg * (s + base + 91 if s + base < 89 else s), h=0, au="deg", lu="km")
    for i in range(20000 if tier == "quick" else 300000):
        k = rng.random()
        if k < .5:
            la = rng.randint(0, 89) + rng.randint(0, 59) / 60 + rng.choice([0, 59.99, 59.994, 59.9951, 59.9999, 30, rng.uniform(0, 60)]) / 3600
            lo = rng.randint(0, 179) + rng.randint(0, 59) / 60 + rng.choice([0, 59.99, 59.994, 59.9951, 59.9999, 30, rng.uniform(0, 60)]) / 3600
        else:
            la, lo = rng.uniform(0, 90), rng.uniform(0, 180)
        yield dict(lat=min(la, 90) * rng.choice([1, -1]), lon=min(lo, 180) * rng.choice([1, -1]), h=rng.choice([0, 1, -0.4, 1234.567, rng.uniform(-10, 1e4), -0.004]), au=rng.choice(list(ANG) + ["deg"]), lu=rng.choice(list(LEN)))


def check(c):
    GL = need("celest.coordinates.ground_location", "GroundLocation")
    s = U(c["au"]).scale
    a, o = c["lat"] / s, c["lon"] / s
    try:
        g = GL(a, o, c["h"], U(c["au"]), U(c["lu"]))
    except ValueError:
        raise Skip("at the limit")
    t = call("str of the location %r" % c, str, g)
    m = PAT.match(t)
    expect(m, "location %r prints as %r", c, t)
    d1, m1, s1, ns, d2, m2, s2, ew, h, un = m.groups()
    for d, mi, se, x, name in ((d1, m1, s1, a * s, "latitude"), (d2, m2, s2, o * s, "longitude")):
        expect(int(mi) < 60 and float(se) < 60, "%s %r prints as %r", name, x, t)
        v = Fraction(int(d)) + Fraction(int(mi), 60) + Fraction(se) / 3600
        expect(abs(v - abs(Fraction(x))) * 3600 <= Fraction(5, 1000) + Fraction(1, 10**8), "%s %r prints as %r, which is off by %r arc seconds", name, x, t, float(abs(v - abs(Fraction(x))) * 3600))
    expect(ns == ("S" if a < 0 else "N") and ew == ("W" if o < 0 else "E"), "location %r prints as %r", c, t)
    expect(un == c["lu"] and abs(float(h) - c["h"]) <= 0.005 + 1e-9, "height %r %s prints as %r", c["h"], c["lu"], t)
    return c["au"], ns, ew, int(d1), int(m1) // 6, float(s1) >= 59.5
