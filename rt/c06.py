"""C06: solar and sidereal times are mutually consistent (modulo 24 h)."""
import numpy as np
from rt.base import *
from rt.tlib import *

RULE = "Julian time arrays x offsets x longitudes (scalar / per time); every relation evaluated at each sample; distinct by argument kinds, day fraction octant and longitude octant"
TOL = 2e-6


def cases(rng, tier):
    for jd in EDGES:
        yield dict(jd=[jd], off=0, lon=30.0, d=7.5, kind="scalar")
    for i in range(2500 if tier == "quick" else 30000):
        n = rng.choice([1, 1, 2, 3, 5])
        off = rng.choice([0, 0, 0.5, 2430000, -1234.75])
        yield dict(jd=[rand_jd(rng) - off for _ in range(n)], off=off, lon=rand_lon(rng) if rng.random() < .6 else [rand_lon(rng) for _ in range(n)],
                   d=rng.choice([0, 15, 1, -90, 180, rng.uniform(-360, 360)]), kind=rng.choice(["list", "array"]))


def check(c):
    eot, eoe, ra = need("celest.coordinates.astronomical_quantities", "equation_of_time", "equation_of_equinoxes", "sun_right_ascension")
    from celest import units as u
    T = make(c)
    lon = c["lon"]
    lon2 = [x + c["d"] for x in lon] if isinstance(lon, list) else lon + c["d"]
    jd = np.asarray(c["jd"], dtype=float) + c["off"]
    h = lambda m, l=lon, T=T: hours(call(m, run, T, m, l), m)
    H = {m: h(m) for m in METHODS}
    q = T.julian

    def same(a, b, what):
        bad = angdiff(a, b) > TOL
        expect(not np.any(bad), "%s: %r and %r (mod 24) for julian %r longitude %r", what, np.asarray(a).tolist(), np.asarray(b).tolist(), jd.tolist(), lon)
    same(H["true_hour_angle"], H["true_solar_time"] - 12, "true hour angle and true solar time - 12")
    same(H["mean_hour_angle"], H["mean_solar_time"] - 12, "mean hour angle and mean solar time - 12")
    E = call("equation_of_time", lambda: np.asarray(eot(q).to(u.deg), float)) / 15
    if np.all(np.isfinite(E)):
        same(H["true_solar_time"] - H["mean_solar_time"], E, "true - mean solar time and the equation of time")
    same(H["ut1"], h("mean_solar_time", 0), "UT1 and mean solar time at longitude 0")
    same(H["ut1"], (jd - 0.5) * 24 - 0, "UT1 and 24 h per Julian day with 12 h at integer dates")
    Tn = make(dict(c, jd=[j + 1 for j in c["jd"]]))
    same(h("ut1", T=Tn), H["ut1"], "UT1 one day later")
    k = np.asarray(lon, float) / 15
    same(H["mean_solar_time"] - k, H["ut1"], "local mean solar time - longitude/15 and UT1")
    for m in METHODS:
        if METHODS[m]:
            same(h(m, lon2) - H[m], c["d"] / 15 + 0 * jd, "%s %r degrees further east" % (m, c["d"]))
    Q = call("equation_of_equinoxes", lambda: np.asarray(eoe(q).to(u.arcsec), float)) / 3600
    same(H["gast"] - H["gmst"], Q, "apparent - mean Greenwich sidereal time and the equation of the equinoxes")
    same(H["last"] - H["lmst"], Q, "apparent - mean local sidereal time and the equation of the equinoxes")
    A = call("sun_right_ascension", lambda: np.asarray(ra(q).to(u.hourangle), float))
    same(H["lmst"], H["mean_hour_angle"] + A, "local mean sidereal time and mean hour angle + right ascension of the Sun")
    return len(jd), isinstance(lon, list), int((jd[0] % 1) * 8), int((np.ravel(lon)[0] % 360) / 45)
