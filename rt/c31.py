"""C31: text export is a faithful aligned table."""
import os
import tempfile
import numpy as np
from rt.base import *

RULE = "writers with 0..3 layers of optional heading, parameters and tables (signs, magnitudes, lengths, text columns, units, formats, plain arrays), file names with and without .txt, and the frames' and collections' exporters; distinct by layer structure and column kinds"
WORDS = ["a", "Sat", "long value with spaces", "-", "x" * 40, "12", ""]


def rand_col(rng, n):
    k = rng.random()
    if k < .5:
        d = ["f", [rng.choice([0.0, -1.5, 1e-9, -123456.789, 1e8, rng.uniform(-1, 1), rng.uniform(-1e5, 1e5)]) for _ in range(n)]]
    elif k < .75:
        d = ["i", [rng.randint(-10 ** rng.randint(0, 9), 10 ** rng.randint(0, 9)) for _ in range(n)]]
    else:
        d = ["s", [rng.choice(["a", "bb", "a long location text", "-", "43°N"]) for _ in range(n)]]
    return dict(label=rng.choice(["T", "Time", "A very long column label here", "x y", "Roll"]), d=d, unit=rng.choice([None, "km", "deg", "jd2000", "m/s"]))


def cases(rng, tier):
    for name in ("out", "out.txt", "a.b", "x.txt.txt", "txt", "a.txt.dat", "a.TXT", ".txt", "atxt"):
        yield dict(k="w", name=name, header="H", layers=[])
        yield dict(k="w", name=name, header="Some header", layers=[dict(sub="s", par=[["a", "b"]], data=[dict(label="T", d=["f", [1.0, -2.0]], unit="km")], fmt=None)])
    for f in ("GCRS", "ITRS", "LVLH", "WGS84", "AzEl", "Attitude", "Satellite", "VTW", "OW"):
        for n in (1, 2, 5):
            yield dict(k="frame", f=f, n=n, seed=rng.randint(0, 999))
    for i in range(2500 if tier == "quick" else 30000):
        L = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n = rng.choice([1, 1, 2, 3, 6])
            L.append(dict(sub=rng.choice([None, "Sub heading", "s"]), par=rng.choice([None, None, [["Name", "value"]], [["a", "b"], ["Location", "1 2 3"], ["c", ""]]]),
                          data=None if rng.random() < .25 else [rand_col(rng, n) for _ in range(rng.choice([1, 2, 3, 5]))], fmt=rng.choice([None, None, "%.3f", "%12.2f", "%+.4e", "%.0f"])))
        yield dict(k="w", name=rng.choice(["out", "out.txt"]), header=rng.choice([None, "Header", "A header = with stuff", "h"]), layers=L)


def unit(n):
    from celest import units as u
    if n is None:
        return None
    return u.m / u.s if n == "m/s" else getattr(u, n)


def col(cd):
    from celest import units as u
    a = np.array(cd["d"][1], dtype=dict(f=float, i=int, s=object)[cd["d"][0]])
    return [cd["label"], a if cd["unit"] is None else u.Quantity(a, unit(cd["unit"]))]


def expected_cols(data, fmt):
    out = []
    for label, v in data:
        q = hasattr(v, "unit")
        vals = list(v.data if q else v)
        out.append((label + (" (%s)" % v.unit if q else ""),
                    [(fmt % x) if isinstance(x, (int, float, np.integer, np.floating)) else str(x) for x in vals]))
    return out


def table(lines, cols, what):
    """Check one table starting at lines[0]; returns the lines left."""
    n = len(cols[0][1])
    expect(len(lines) >= n + 2, "%s: the table has %d lines for %d rows", what, len(lines), n)
    cells = [l.split("\t") for l in lines[:n + 2]]
    for r in cells:
        expect(len(r) == len(cols), "%s: row %r has %d cells for %d columns", what, r, len(r), len(cols))
    for j, (label, vals) in enumerate(cols):
        w = {len(r[j]) for r in cells}
        expect(len(w) == 1, "%s: column %r has cells of widths %r: %r", what, label, sorted(w), [r[j] for r in cells])
        expect(cells[0][j].rstrip(" ") == label.rstrip(" "), "%s: column %d is labelled %r, expected %r", what, j, cells[0][j], label)
        expect(cells[1][j] == "-" * len(cells[1][j]), "%s: column %r is underlined with %r", what, label, cells[1][j])
        for k, v in enumerate(vals):
            expect(cells[k + 2][j].strip(" ") == v.strip(" "), "%s: row %d column %r is %r, expected %r", what, k, label, cells[k + 2][j], v)
    return lines[n + 2:]


def parse(text, header, layers, what):
    lines = text.split("\n")

    def blank():
        nonlocal lines
        expect(lines and lines[0] == "", "%s: expected one blank line before %r", what, lines[:2])
        lines = lines[1:]
        expect(lines and lines[0] != "", "%s: more than one blank line in %r", what, text)
    if header is not None:
        expect(lines[0] == header and len(lines) > 1 and set(lines[1]) <= set("=") and len(lines[1]) == len(header), "%s: header %r is written as %r", what, header, lines[:2])
        lines = lines[2:]
        if layers:
            blank()
    for i, (sub, par, data, fmt) in enumerate(layers):
        if i:
            blank()
        first = True
        if sub is not None:
            expect(lines[0] == sub, "%s: heading %r is written as %r", what, sub, lines[0])
            lines, first = lines[1:], False
        if par is not None:
            if not first:
                blank()
            for l, v in par:
                expect(lines[0] == l + ": " + v, "%s: parameter %r is written as %r", what, [l, v], lines[0])
                lines = lines[1:]
            first = False
        if data is not None:
            if not first:
                blank()
            lines = table(lines, expected_cols(data, fmt), what)
    expect(all(l == "" for l in lines) and len(lines) <= 1, "%s: unexpected trailing text %r", what, lines[:3])


def check(c):
    with tempfile.TemporaryDirectory(prefix="c31") as d:
        return inner(c, d)


def read(d, name):
    want = name if name.endswith(".txt") else name + ".txt"
    files = sorted(os.listdir(d))
    expect(files == [want], "saving as %r wrote %r", name, files)
    return open(os.path.join(d, want), encoding="utf-8", newline="").read()


def inner(c, d):
    W = need("celest.file_save", "TextFileWriter")
    from celest import units as u
    if c["k"] == "w":
        layers = []
        what = "saving %r" % (c,)
        w = call("TextFileWriter", W, os.path.join(d, c["name"]), c["header"])
        for l in c["layers"]:
            data = None if l["data"] is None else [col(x) for x in l["data"]]
            k = {} if l["fmt"] is None else dict(data_format=l["fmt"])
            if l["sub"] is None and l["par"] is None and l["data"] is None:
                continue
            call("add_layer", w.add_layer, subheading=l["sub"], parameters=l["par"], data=data, **k)
            layers.append((l["sub"], l["par"], data, l["fmt"] or "%.15f"))
        call(what, w.save)
        text = read(d, c["name"])
        if c["header"] is None and not layers:
            expect(text == "", "%s wrote %r", what, text)
        else:
            parse(text, c["header"], layers, what[:300])
        return c["name"] if not layers else "", c["header"] is None, str([(l[0], l[1] is None, None if l[2] is None else [type(x[1]).__name__ + str(np.shape(getattr(x[1], "data", x[1])) if not isinstance(x[1], np.ndarray) else x[1].dtype) for x in l[2]], l[3]) for l in layers])
    from rt.geo import frames, location, need as _n, xyz
    F = frames()
    r = np.random.RandomState(c["seed"])
    n, f = c["n"], c["f"]
    t = 2460000.5 + np.arange(n) * .25
    a = [r.uniform(-9000, 9000, n) for _ in range(3)]
    loc = location([43.65, -79.38, 0.1, "deg", "km"])
    name = os.path.join(d, "frame")
    if f in ("GCRS", "ITRS", "LVLH"):
        p = F[f](t, *a, u.km)
        cols = [("Time", p.time), ("X", p.x), ("Y", p.y), ("Z", p.z)]
    elif f == "WGS84":
        p = F[f](t, a[0] / 100, a[1] / 50, a[2], u.deg, u.km)
        cols = [("Time", p.time), ("Latitude", p.latitude), ("Longitude", p.longitude), ("Height", p.height)]
    elif f == "AzEl":
        p = F[f](t, a[0] / 50, a[1] / 100, u.deg, loc)
        cols = [("Time", p.time), ("Azimuth", p.azimuth), ("Elevation", p.elevation)]
    elif f == "Attitude":
        p = F[f](t, *a, u.rad, loc)
        cols = [("Time", p.time), ("Roll", p.roll), ("Pitch", p.pitch), ("Yaw", p.yaw)]
    elif f == "Satellite":
        Sat, Co = _n("celest.satellite", "Satellite"), _n("celest.coordinates.coordinate", "Coordinate")
        q, v = F["ITRS"](t, *a, u.km), F["ITRS"](t, *[x / 1000 for x in a], u.km / u.s)
        p = Sat(q, v)
        gq, gv = Co(q).convert_to(F["GCRS"]), Co(v).convert_to(F["GCRS"])
        cols = [("Time", q.time)] + [("Itrs " + m, getattr(q, m.lower())) for m in "XYZ"] + [("Itrs V" + m, getattr(v, m.lower())) for m in "XYZ"] + \
               [("Gcrs " + m, getattr(gq, m.lower())) for m in "XYZ"] + [("Gcrs V" + m, getattr(gv, m.lower())) for m in "XYZ"]
    else:
        WC, VTW, OW = _n("celest.encounter.window_handling", "WindowCollection", "VisibleTimeWindow", "ObservationWindow")
        p = WC()
        A = F["Attitude"](t, *[x / 100 for x in a], u.deg, loc)
        Q = u.Quantity
        if f == "VTW":
            for k in range(n):
                p.add_window(VTW(t[k], t[k] + .01, A))
            cols = [("Rise Time", Q(t, u.jd2000)), ("Set Time", Q(t + .01, u.jd2000))]
        else:
            one = [F["Attitude"](t[k:k + 1], *[x[k:k + 1] / 100 for x in a], u.deg, loc) for k in range(n)]
            for k in range(n):
                p.add_window(OW(Q(t[k], u.jd2000), Q(10.0 + k, u.s), loc, one[k]))
            cols = [("Start Time", Q(t, u.jd2000)), ("Duration", Q(10.0 + np.arange(n), u.s)), ("Location", np.array([loc] * n)),
                    ("Roll", Q(a[0] / 100, u.deg)), ("Pitch", Q(a[1] / 100, u.deg)), ("Yaw", Q(a[2] / 100, u.deg))]
    call("%s.save_text_file" % f, p.save_text_file, name)
    text = read(d, "frame")
    lines = text.split("\n")
    expect(len(lines) > 3 and lines[0] and lines[1] == "=" * len(lines[0]) and lines[2] == "", "%s: header is written as %r", f, lines[:3])
    want = expected_cols(cols, "%.15f")
    i = [k for k, l in enumerate(lines) if l.split("\t")[0].rstrip() == want[0][0]]
    expect(len(i) == 1, "%s: no table with a column %r in %r", f, want[0][0], text[:300])
    rest = table(lines[i[0]:], want, f)
    expect(all(x == "" for x in rest) and len(rest) <= 1, "%s: trailing text %r", f, rest[:2])
    if f in ("AzEl", "Attitude"):
        expect("Location: " + str(loc) in lines[:i[0]], "%s: the location is not listed", f)
    return f, n
