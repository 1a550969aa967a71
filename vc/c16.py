"""Position strings: the numbers printed are exactly the formatted values of the text (a formatted number is its value and its
format; '%0kd' prints an integer exactly, '%.2f' the nearest hundredth)."""
import re
from vc.gl import *
from pyvc.load import number_format

AS = "celest.angle_strings"


def printed(c, t):
    """The number a token prints."""
    f = number_format(t)
    if f is None:
        raise Unsupported("a number in the format %r" % (t.spec,))
    if f[1] is None:
        return core.to_real(t.value)
    s = 10 ** f[1]
    return core.to_real(rdiv(to_real(raw(sym.rround(rmul(t.value, s)))), s))


def decimals(c, t):
    f = number_format(t)
    return f[1] if f else None


def angle(c, name, ps, value, positive, negative):
    """ps: pieces of degrees, minutes, seconds and direction; value: the angle in degrees."""
    lits, toks = [p for p in ps if isinstance(p, str)], [p for p in ps if not isinstance(p, str)]
    ok = len(toks) == 3 and len(ps) == 6 and all(isinstance(ps[k], str) == (k % 2 == 1) for k in range(6))
    if not c.holds(name + ": degrees, minutes, seconds and a direction", ok and lits[:2] == ["°", "′"] and re.fullmatch("″[NSEW]", lits[2]), repr(ps)):
        return
    c.holds(name + ": whole degrees and minutes, seconds with two decimals", decimals(c, toks[0]) is None and decimals(c, toks[1]) is None and decimals(c, toks[2]) == 2)
    D, M, S = [printed(c, t) for t in toks]
    d = lits[2][-1]
    c.holds(name + ": a direction of its own", d in (positive, negative))
    c.prove(name + ": the direction follows the sign", value >= 0 if d == positive else value < 0)
    c.prove(name + ": degrees are not negative", D >= 0)
    c.prove(name + ": minutes below 60", AND(M >= 0, M < 60))
    c.prove(name + ": seconds below 60", AND(S >= 0, S < 60))
    mag = z3.If(value >= 0, value, -value)
    err = 3600 * D + 60 * M + S - 3600 * mag
    c.prove(name + ": within half a hundredth of a second", AND(200 * err <= 1, 200 * err >= -1))


def parts(c, text):
    """Latitude, longitude and height as lists of pieces."""
    out = [[]]
    for p in sym.pieces(text):
        if isinstance(p, str):
            xs = p.split(" ")
            for k, x in enumerate(xs):
                if k and len(out) < 3:
                    out.append([])
                elif k:
                    x = " " + x
                if x:
                    if out[-1] and isinstance(out[-1][-1], str):
                        out[-1][-1] += x
                    else:
                        out[-1].append(x)
        else:
            out[-1].append(p)
    return out


def text(kind):
    def h(c):
        w = world()
        u = w.get("celest.units")
        a, l = unit_like(c, w, "aunit", u.deg), unit_like(c, w, "lunit", u.km)
        lat, lon, hgt = [data(c, k, None, n) for k, n in zip(kind, ("lat", "lon", "hgt"))]
        deg = lambda x: core.to_real(rdiv(rmul(raw(x), a.size), size_of(u.deg)))
        LAT, LON = deg(lat), deg(lon)
        c.assume(AND(LAT >= -90, LAT <= 90, LON >= -180, LON <= 180))
        g = w.get(GLM).GroundLocation(lat, lon, hgt, a, l)
        s = str(g)
        c.cover("printed")
        ps = parts(c, s)
        if not c.holds("latitude, longitude and height", len(ps) == 3 and "\n" not in s, repr(ps)):
            return
        angle(c, "latitude", ps[0], LAT, "N", "S")
        angle(c, "longitude", ps[1], LON, "E", "W")
        h_ = ps[2]
        if not c.holds("height: a number and its unit", len(h_) == 2 and not isinstance(h_[0], str) and isinstance(h_[1], str) and h_[1].strip() == str(l), repr(h_)):
            return
        c.holds("height: two decimals", decimals(c, h_[0]) == 2)
        c.prove("height: the value", eq(h_[0].value, raw(hgt)))
    return h


for k, n in (("fff", "real"), ("iii", "integer")):
    unit("C16", "text of a location, %s numbers" % n, ["GroundLocation.__str__", "_ISO6709_representation", "_get_latitude_string", "_get_longitude_string", "_get_sexagesimal_string", "_get_height_string"])(text(k))
