import math
import numpy as np
from rt.base import need, Bad, Skip, call, expect, close, raises

A_KM, E1 = 6378.137, 0.08181919084296284
E2 = E1 ** 2
B_KM = 6356.752314245
LEN = dict(km=1.0, m=1e-3, mm=1e-6, cm=1e-5, mi=1.609344, ft=0.000305, inch=2.54e-5, yd=0.000914)
ANG = dict(deg=1.0, rad=57.29577951308232, arcmin=1 / 60, arcsec=1 / 3600, hourangle=15.0)


def U(name):
    from celest import units as u
    if "/" in name:
        a, b = name.split("/")
        return getattr(u, a) / getattr(u, b)
    return getattr(u, name)


def frames():
    return {n: need("celest.coordinates.frames." + n.lower(), n) for n in ("GCRS", "ITRS", "LVLH", "WGS84", "AzEl", "Attitude")}


def arr(x, kind="f"):
    return np.array(x, dtype=float if kind == "f" else int)


def make3(F, t, v, unit, kind="f"):
    """v: list of [x, y, z]; returns the frame and the arrays given to it."""
    v = np.array(v, dtype=float if kind == "f" else int).reshape((-1, 3))
    a = [np.array(t, dtype=float), v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy()]
    return call("building the frame", F, *a, U(unit)), a


def xyz(f, unit=None):
    q = [f.x, f.y, f.z]
    return np.array([np.asarray(k.data if unit is None else k.to(U(unit)), float) for k in q]).T


def samples(f):
    return len(np.asarray(f.time.data))


def times(f):
    return np.asarray(f.time.data, float)


def ecef(lat, lon, h):
    """lat, lon in degrees, h in km"""
    la, lo = np.radians(lat), np.radians(lon)
    n = A_KM / np.sqrt(1 - E2 * np.sin(la) ** 2)
    return np.array([(n + h) * np.cos(la) * np.cos(lo), (n + h) * np.cos(la) * np.sin(lo), (n * (1 - E2) + h) * np.sin(la)]).T


def rand_dir(rng):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > .1:
            return [x / n for x in v]


def rand_t(rng):
    return rng.choice([2451545.0, rng.uniform(2450000, 2462000), rng.uniform(2400000, 2500000), rng.uniform(1e6, 4e6), 2460000.5])


def location(d):
    GL = need("celest.coordinates.ground_location", "GroundLocation")
    lat, lon, h, au, lu = d
    return call("GroundLocation(%r)" % (d,), GL, lat / ANG[au], lon / ANG[au], h / LEN[lu], U(au), U(lu))


def rand_loc(rng, pole=True):
    lat = rng.choice([0, 45, -45, 30.5, -33.9, 89.5, -89.5, rng.uniform(-89, 89), rng.uniform(-89, 89), rng.uniform(-89, 89)] + ([90, -90] if pole else []))
    lon = rng.choice([0, 90, -90, 180, -180, -79.4, rng.uniform(-180, 180), rng.uniform(-180, 180)])
    if au_ok := (abs(lat) != 90 and abs(lon) != 180):
        au = rng.choice(list(ANG))
    else:
        au = "deg"
    return [lat, lon, rng.choice([0, 0.0, 1.5, -0.4, 8.8, 400]), au, rng.choice(["km", "m", "mi", "km"])]


def loc_xyz(d):
    return ecef(d[0], d[1], d[2])


def angle(a, b):
    """Angle in degrees, accurate everywhere."""
    c = np.cross(a, b)
    return np.degrees(np.arctan2(np.sqrt((c * c).sum(-1)), (np.asarray(a) * b).sum(-1)))


def check_same_arrays(arrs, keep, what):
    for a, k in zip(arrs, keep):
        expect(a.dtype == k.dtype and np.array_equal(a, k), "%s changed its input", what)


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))
