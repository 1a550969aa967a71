"""Text export: the written file, as lines of cells, for texts and columns of any length.

A text of unknown content is a token with an arbitrary (positive) length; the file is the string of the texts written to it.  A loop
that writes once per row (or per parameter, or per layer) is cut: an arbitrary iteration is checked against the expected text of one
line, and after the loop the file holds one 'block' that stands for those lines."""
from vc.gl import *
from pyvc.core import Restart
from vc import c18
from pyvc.sym import pieces, token
from pyvc.load import b_len, h_eq

FSM = "celest.file_save"
NAMES = ["TextFileWriter.save", "_write_header_to_file", "_write_layer_to_file", "_write_subheading_to_file", "_write_parameters_to_file", "_write_data_to_file"]
COLS = ["_get_column_information", "_get_maximum_value_width", "_get_and_reshape_column_data", "_write_column_data_to_file", "_get_data_entry_string"]


class File:
    def __init__(self):
        self.text, self.closed = "", False

    def write(self, s):
        if not isinstance(s, str):
            raise Unsupported("write(%r)" % (s,))
        self.text += s

    def writelines(self, xs):
        if seq.is_symbolic_iter(xs):
            raise Unsupported("writelines of symbolic lines")
        for x in xs:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def flush(self):
        pass


def atom(c, name):
    """An arbitrary nonempty text without line ends and tabs."""
    return token(c.int(name), "", "text")


def texts(c, name, n):
    """A column of such texts."""
    f = c.func(name, z3.IntSort(), z3.IntSort())
    return Arr((n,), lambda i: token(f(core.to_int(i[0])), "", "text"), None, "O")


class Lines(loops.Spec):
    """Cut loops that write one line per iteration; expect: length of the loop -> check of the text of iteration k."""
    allow_for = True

    def __init__(self, c, file, expect, sep="\n"):
        self.c, self.file, self.expect, self.sep = c, file, expect, sep
        self.forms = c.stats.houdini.setdefault("forms of " + c.label, set())

    def managed(self, obj, attr):
        return obj is self.file

    def enter(self, loop):
        self.base = self.file.text

    def of(self, n):
        for k, v in self.expect:
            if k is n or (is_sym(k) and is_sym(n) and k.eq(n)) or (not is_sym(n) and not is_sym(k) and k == n):
                return str(k), v
        raise Unsupported("a loop over something else than samples, parameters or layers")

    def form(self, name):
        return next((f for f in "ABCD" if name + f not in self.forms), "")

    def havoc_heap(self):
        l = self.loop
        if l.mode == 0:
            self.file.text = ""
            return
        name, _ = self.of(l.n)
        b = token(l.n, name, "block")
        f = self.form(name)
        self.file.text = self.base + (self.sep if f == "D" else "") + b + (self.sep if f == "C" else "")

    def check_heap(self, where):
        if where.startswith("holds"):
            return
        c, k, n = self.c, self.loop.k, self.loop.n
        name, check = self.of(n)
        if self.file.text == "":
            raise Unsupported("a loop that writes nothing")
        f = self.form(name)
        if not f:
            c.fail("lines of a block are separated by single line ends", "text of one iteration %r" % self.file.text)
            return
        t = self.file.text
        lead, trail = t.startswith(self.sep), t.endswith(self.sep)
        t = t[len(self.sep):] if lead else t
        t = t[:len(t) - len(self.sep)] if trail else t
        last = fold(z3.simplify(to_real(k) + 1 >= to_real(n)))
        first = fold(z3.simplify(k <= 0))
        is_ = lambda p: p if isinstance(p, bool) else c.try_prove(p)
        not_ = lambda p: (not p) if isinstance(p, bool) else c.try_prove(NOT(p))
        ok = {"A": not lead and (not_(last) if trail else is_(last)), "B": not trail and (not_(first) if lead else is_(first)),
              "C": trail and not lead, "D": lead and not trail}[f]
        if not ok:
            self.forms.add(name + f)
            raise Restart()
        check(t, k)


def strip(cell):
    """A cell without the blanks on either side."""
    ps = pieces(cell)

    def blank(p):
        return not p.strip(" ") if isinstance(p, str) else p.conv == "rep" and p.spec == " "
    while ps and blank(ps[0]):
        ps.pop(0)
    while ps and blank(ps[-1]):
        ps.pop()
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip(" ")
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip(" ")
    return ps


def same(c, name, got, want):
    """The same text up to blanks around it."""
    a, b = strip(got), strip(want)
    key = lambda p: p if isinstance(p, str) else (p.spec, p.conv)
    if not c.holds(name, [key(p) for p in a] == [key(p) for p in b], "%r, expected %r" % (a, b)):
        return
    for x, y in zip(a, b):
        if not isinstance(x, str):
            c.prove(name, rcmp("==", x.value, y.value))


def width(s):
    return raw(b_len(s))


def made_of(s, ch):
    return all(not p.strip(ch) if isinstance(p, str) else p.conv == "rep" and p.spec == ch for p in pieces(s))


class Table:
    """A data argument of add_layer with the texts expected in it."""

    def __init__(self, c, u, kinds, n, fmt):
        self.c, self.n, self.fmt = c, n, fmt
        self.data, self.labels, self.cells, self.head = [], [], [], None
        for j, k in enumerate(kinds):
            label = atom(c, "label%d" % j)
            a = texts(c, "t%d" % j, n) if k[0] == "s" else sym_array(c, "v%d" % j, n, k[0])
            if k[1:] == "u":
                un = Unit31(c, "unit%d" % j)
                self.labels.append(label + " (" + un.name + ")")
                v = u.Quantity(a, un)
            elif k[1:] == "k":
                self.labels.append(label + " (km)")
                v = u.Quantity(a, u.km)
            else:
                self.labels.append(label)
                v = a
            self.data.append([label, v])
            self.cells.append(a)

    def entry(self, j, k):
        v = self.cells[j].at(k)
        if isinstance(v, str):
            return v
        return token(raw(v), str(pieces(self.fmt)[0].value), "formatted") if sym.OPEN in self.fmt else token(raw(v), self.fmt, "%")

    def row(self, text, k):
        c = self.c
        cells = text.split("\t")
        if not c.holds("one cell per column", len(cells) == len(self.data) and "\n" not in text, "row %r" % text):
            return
        for j, cell in enumerate(cells):
            same(c, "each sample is printed in its row and column in the requested format", cell, self.entry(j, k))
            if self.file_head(j) is not None:
                c.prove("the cells of a column are as wide as its label", rcmp("==", width(cell), width(self.file_head(j))))

    def file_head(self, j):
        """The label cell of column j, found in what was written before the rows."""
        base = self.spec.base.rstrip("\n").split("\n")
        if len(base) < 2:
            raise Unsupported("rows without labels")
        cells = base[-2].split("\t")
        return cells[j] if j < len(cells) else None

    def lines(self, L):
        """Checks the table at the head of the lines L; returns the rest."""
        c = self.c
        if not c.holds("a table has a line of labels, an underline and its rows", len(L) >= 3 and L[2] == token(self.n, str(self.n), "block"), "table %r" % (L[:4],)):
            return None
        lab, und = L[0].split("\t"), L[1].split("\t")
        if c.holds("one label and underline per column", len(lab) == len(und) == len(self.data), "labels %r" % L[:2]):
            for j, w in enumerate(self.labels):
                same(c, "a column is labelled with its name and unit", lab[j], w)
                c.holds("a column is underlined", made_of(und[j], "-"), und[j])
                c.prove("the underline of a column is as wide as its label", rcmp("==", width(und[j]), width(lab[j])))
        return L[3:]


class Unit31:
    def __init__(self, c, name):
        self.name = token(c.int(name), "", "text")

    def __str__(self):
        return self.name
    __repr__ = __str__


def exactly(c, name, got, want):
    c.holds(name, got == want, "%r instead of %r" % (got, want))


def under(c, u, h):
    if c.holds("the header is underlined", made_of(u, "="), "underline %r" % u):
        c.prove("the underline of the header is as long as the header", rcmp("==", width(u), width(h)))


def opened(c, want):
    """Hook for open(): one file, written from scratch."""
    f = File()
    f.opened = 0

    def hook(name, mode="r", *a, **k):
        f.opened += 1
        c.holds("the file is written from scratch", mode in ("w", "wt", "tw", "w+", "wt+"), "mode %r" % mode)
        exactly(c, "the text is written to the named file", name, want)
        k.pop("encoding", 0)
        if a or [x for x in k if x != "newline"]:
            raise Unsupported("open with %r" % (k,))
        return f
    c.open_hook = hook
    return f


def params(c, np_):
    """Any number of parameters."""
    fl, fv = c.func("plabel", z3.IntSort(), z3.IntSort()), c.func("pvalue", z3.IntSort(), z3.IntSort())
    lab, val = (lambda k: token(fl(core.to_int(k)), "", "text")), (lambda k: token(fv(core.to_int(k)), "", "text"))
    lst = seq.SymList(seq.SymSeq(np_, lambda k: [lab(raw(k)), val(raw(k))]))
    return lst, lambda text, k: exactly(c, "a parameter is written as its label, ': ' and its value", text, lab(raw(k)) + ": " + val(raw(k)))


def whole(c, text, header, layers):
    """layers: (heading or None, number of parameters or None, Table or None)"""
    L = text.split("\n")

    def take(name):
        if not c.holds(name, len(L) > 0, "the file ends early: %r" % text):
            raise PathEnd()
        return L.pop(0)

    def blank():
        exactly(c, "parts are separated by one blank line", take("parts are separated by one blank line"), "")
    if header is not None:
        exactly(c, "the header comes first", take("the header comes first"), header)
        under(c, take("the header is underlined"), header)
        if layers:
            blank()
    for i, (sub, np_, tab) in enumerate(layers):
        if i:
            blank()
        first = True
        if sub is not None:
            exactly(c, "the heading of a layer is written", take("the heading of a layer is written"), sub)
            first = False
        if np_ is not None:
            if not first:
                blank()
            exactly(c, "the parameters of a layer are written", take("the parameters of a layer are written"), token(np_, str(np_), "block"))
            first = False
        if tab is not None:
            if not first:
                blank()
            L2 = tab.lines(L)
            if L2 is None:
                return
            L[:] = L2
    c.holds("nothing else is written", L in ([], [""]), "%r" % L)


def write(header, layers, fmt=None, named=None):
    """header: None, "" or "x"; layers: (heading, parameters?, column kinds or None)"""
    def h(c):
        w = world()
        M, u = w.get(FSM), w.get("celest.units")
        name = atom(c, "name") if named is None else named
        ends = raw(load.h_strm(name, "endswith", ".txt"))
        H = header if not header else atom(c, "header")
        n, expect, built = length(c), [], []
        f = opened(c, name if c.truth(ends) else name + ".txt")
        F = fmt or token(c.int("format"), "", "format")
        wr = M.TextFileWriter(name, H) if H is not None else M.TextFileWriter(name)
        for i, (sub, par, kinds) in enumerate(layers):
            S = sub if not sub else atom(c, "heading%d" % i)
            P = np_ = T = None
            if par:
                np_ = c.int("np%d" % i)
                c.assume(np_ >= 1)
                P, check = params(c, np_)
                expect.append((np_, check))
            if kinds is not None:
                m = c.int("n%d" % i)
                c.assume(m >= 1)
                T = Table(c, u, kinds, m, F)
                expect.append((m, T.row))
            built.append((S, np_, T))
            k = {} if fmt == "%.15f" and i == 0 else dict(data_format=F)
            wr.add_layer(subheading=S, parameters=P, data=T.data if T else None, **k)
        spec = c.loop_spec = Lines(c, f, expect)
        for _, _, T in built:
            if T:
                T.spec = spec
        wr.save()
        c.cover("reached")
        c.holds("one file is written and closed", f.opened == 1 and f.closed, "%d files" % f.opened)
        whole(c, f.text, H, built)
    return h


unit("C31", "file name and header", NAMES[:2] + ["_process_file_name", "TextFileWriter.__init__"])(write("x", []))
unit("C31", "no header, no layer", NAMES[:1])(write(None, []))
unit("C31", "empty header", NAMES[:2])(write("", []))
for nm in ("out", "out.txt", ".txt", "txt", "a.txt.dat"):
    unit("C31", "file name %r" % nm, ["_process_file_name"], bound="this name")(write("x", [], named=nm))
for hd in (None, "x"):
    for sub in (None, "", "x"):
        for par in (False, True):
            for kinds in (None, ("fk", "s")):
                if kinds is not None or par or sub is not None:
                    unit("C31", "one layer: %s, %s, %s, %s" % ("header" if hd else "no header", {None: "no heading", "": "empty heading", "x": "heading"}[sub], "parameters" if par else "no parameters", "table" if kinds else "no table"),
                         NAMES + COLS)(write(hd, [(sub, par, kinds)]))
for kinds in (("f",), ("i",), ("s",), ("fu",), ("iu",), ("s", "fu"), ("fu", "s", "iu"), ("iu", "f", "fk", "s")):
    for f in (None, "%.15f"):
        unit("C31", "table of columns %s, %s" % (" ".join(kinds), f or "any format"), NAMES[-1:] + COLS, bound="the number of columns; any number of rows")(write("x", [("x", False, kinds)], fmt=f))
for i, ls in enumerate(([("x", True, ("fk", "s")), ("x", False, ("fu",))], [(None, False, ("f",)), (None, True, None), ("x", False, None)], [("x", False, None), (None, False, ("iu", "s")), ("", True, ("fu",))])):
    for hd in (None, "x"):
        unit("C31", "%d layers, %d, %s" % (len(ls), i, "header" if hd else "no header"), NAMES + COLS, bound="these layers; any number of rows and parameters")(write(hd, ls))


@unit("C31", "any number of layers", ["TextFileWriter.save", "TextFileWriter.add_layer"])
def layers(c):
    """The layers in order, each by the contract of _write_layer_to_file, separated by one blank line."""
    w = world()
    M = w.get(FSM)
    name = atom(c, "name")
    header = atom(c, "header") if c.choose(2) else None
    ends = raw(load.h_strm(name, "endswith", ".txt"))
    f = opened(c, name if c.truth(ends) else name + ".txt")
    n = length(c, 1, "layers")
    ids = [c.func("layer%d" % j, z3.IntSort(), z3.IntSort()) for j in range(4)]

    def one(file, *a):
        c.holds("a layer is written to the file", file is f and len(a) == 4, "%r" % (a,))
        file.write("|".join(sorted(a)))
    M.__dict__["_write_layer_to_file"]
    setattr(M, "_write_layer_to_file", one)
    wr = M.TextFileWriter(name, header)
    wr.add_layer("p", "q", "r", "s")
    store = [a for a, v in vars(wr).items() if isinstance(v, list)]
    if len(store) != 1 or [list(x) for x in getattr(wr, store[0])] != [["p", "q", "r", "s"]]:
        raise Unsupported("layers are kept in another way")
    what = lambda k: [token(g(core.to_int(raw(k))), "", "text") for g in ids]
    setattr(wr, store[0], seq.SymList(seq.SymSeq(n, what)))
    c.loop_spec = Lines(c, f, [(n, lambda t, k: exactly(c, "each layer is written in its place", t, "|".join(sorted(what(k)))))], "\n\n")
    wr.save()
    c.cover("reached")
    L = f.text.split("\n")
    if header is not None:
        exactly(c, "the header comes first", L.pop(0), header)
        under(c, L.pop(0), header)
        exactly(c, "parts are separated by one blank line", L.pop(0), "")
    c.holds("all layers are written, separated by one blank line", L in ([token(n, str(n), "block")], [token(n, str(n), "block"), ""]), "%r" % L)
    c.holds("one file is written and closed", f.opened == 1 and f.closed)


class Writer:
    """The contract of TextFileWriter: what is asked of it."""
    made = None

    def __init__(self, file_name, header=None):
        self.name, self.header, self.layers, self.saved = file_name, header, [], 0
        Writer.made.append(self)

    def add_layer(self, subheading=None, parameters=None, data=None, data_format="%.15f"):
        self.layers.append((subheading, parameters, data, data_format))

    def save(self):
        self.saved += 1


def asked(c, name, cols, n, params=(), i=None):
    """cols: (label, element -> term or text, unit or None)"""
    if not c.holds("one file with one layer is saved", len(Writer.made) == 1 and Writer.made[0].saved == 1 and len(Writer.made[0].layers) == 1, "%r" % Writer.made):
        return
    wr = Writer.made[0]
    c.holds("the file is named as requested", wr.name == name, "%r" % (wr.name,))
    c.holds("the file has a header", isinstance(wr.header, str) and wr.header != "")
    sub, par, data, _ = wr.layers[0]
    for p in params:
        c.holds("parameters are listed", par is not None and list(p) in [list(x) for x in par], "%r" % (par,))
    if not c.holds("one labelled column per component", [x[0] for x in data] == [x[0] for x in cols], "%r" % ([x[0] for x in data],)):
        return
    i = c.index(n) if i is None else i
    for (label, v), (_, at, un) in zip(data, cols):
        a = v if un is None else v.data
        c.holds("columns carry their unit", un is None or v.unit is un, "unit of %s" % label)
        shape_is(c, "one row per sample", a, n)
        x, y = a.at(i), at(i)
        if raw(y) is None:
            c.holds("each column has its samples in order", x is y, "%s: %r" % (label, x))
        else:
            c.prove("each column has its samples in order", rcmp("==", raw(x), raw(y)))


FRAMES31 = {"GCRS": ("gcrs", ("x", "y", "z"), "X Y Z"), "ITRS": ("itrs", ("x", "y", "z"), "X Y Z"), "LVLH": ("lvlh", ("x", "y", "z"), "X Y Z"),
            "WGS84": ("wgs84", ("latitude", "longitude", "height"), "Latitude Longitude Height"), "AzEl": ("azel", ("azimuth", "elevation"), "Azimuth Elevation"),
            "Attitude": ("attitude", ("roll", "pitch", "yaw"), "Roll Pitch Yaw")}


def recording(**over):
    w = world(**over)
    Writer.made = []
    setattr(w.get(FSM), "TextFileWriter", Writer)
    return w


def frame(name):
    mod, comps, labels = FRAMES31[name]

    def h(c):
        w = recording()
        cls, u = getattr(w.get(FR + mod), name), w.get("celest.units")
        un = unit_like(c, w, "d", u.km if comps[0] == "x" else u.deg, False)
        lu = unit_like(c, w, "l", u.km, False)
        n = length(c)
        t, cs = sym_array(c, "t", n), [sym_array(c, x, n) for x in comps]
        loc = Unit31(c, "location")
        o = cls(t, *cs, un, *([lu] if name == "WGS84" else [loc] if name in ("AzEl", "Attitude") else []))
        o.save_text_file("some name")
        c.cover("reached")
        cols = [("Time", lambda i: wrap(el(t, i)), u.jd2000)] + [(l, lambda i, a=a: wrap(el(a, i)), lu if l == "Height" else un) for l, a in zip(labels.split(), cs)]
        asked(c, "some name", cols, n, [("Location", loc.name)] if name in ("AzEl", "Attitude") else [])
    return h


for nm in FRAMES31:
    unit("C31", nm + ": all components are exported", [nm + ".save_text_file"])(frame(nm))


class Watch(loops.Spec):
    allow_for = lists = True

    def __init__(self):
        self.at_ = []

    def watch(self, s):
        return self.at_


def windows(kind):
    def h(c):
        w = recording()
        W, u = w.get("celest.encounter.window_handling"), w.get("celest.units")
        A = w.get(FR + "attitude").Attitude
        n = length(c)
        Rl = lambda nm: c.func(nm, z3.IntSort(), z3.RealSort())
        a, b, r, p, y = Rl("a"), Rl("b"), Rl("roll"), Rl("pitch"), Rl("yaw")
        U, D, G = unit_like(c, w, "time", u.jd2000), unit_like(c, w, "duration", u.s), unit_like(c, w, "angle", u.deg)
        locs = {}
        I = lambda k: core.to_int(raw(k))

        def location(k):
            t = I(k)
            return locs.setdefault(t.get_id(), (Unit31(c, "location"), t))[0]

        def make(k):
            t = I(k)
            one = lambda f: Arr((1,), lambda i: f(t), None, "f")
            att = A(Arr((1,), lambda i: a(t), None, "f"), one(r), one(p), one(y), G, location(k))
            if kind == "VisibleTimeWindow":
                return W.VisibleTimeWindow(wrap(a(t)), wrap(b(t)), att)
            return W.ObservationWindow(u.Quantity(wrap(a(t)), U), u.Quantity(wrap(b(t)), D), location(k), att)
        col = W.WindowCollection()
        store = [x for x, v in vars(col).items() if isinstance(v, list)]
        if len(store) != 1:
            raise Unsupported("windows are kept in another way")
        col.add_window(make(0))
        if len(getattr(col, store[0])) != 1:
            raise Unsupported("windows are kept in another way")
        made = {}
        setattr(col, store[0], seq.SymList(seq.SymSeq(n, lambda k: made.setdefault(I(k).get_id(), (make(k), I(k)))[0])))
        c.loop_spec = spec = Watch()
        i = c.index(n)
        spec.at_ = [i]
        col.save_text_file("some name")
        c.cover("reached")
        to = lambda f, un, s: lambda k: wrap(rdiv(rmul(f(I(k)), un.size), size_of(s)))
        if kind == "VisibleTimeWindow":
            cols = [("Rise Time", lambda k: wrap(a(I(k))), u.jd2000), ("Set Time", lambda k: wrap(b(I(k))), u.jd2000)]
        else:
            cols = [("Start Time", to(a, U, u.jd2000), u.jd2000), ("Duration", to(b, D, u.s), u.s), ("Location", lambda k: location(k), None),
                    ("Roll", to(r, G, u.deg), u.deg), ("Pitch", to(p, G, u.deg), u.deg), ("Yaw", to(y, G, u.deg), u.deg)]
        asked(c, "some name", cols, n, i=i)
    return h


for nm in ("VisibleTimeWindow", "ObservationWindow"):
    unit("C31", "collection of %ss: all windows are exported in order" % nm, ["WindowCollection.save_text_file"])(windows(nm))


@unit("C31", "satellite: position and velocity are exported in both frames", ["Satellite.save_text_file"])
def satellite(c):
    w = recording(**{TR + ":_itrs_to_gcrs": c18.itrs_to_gcrs})
    c18.WORLD[:] = [w]
    u = w.get("celest.units")
    n = length(c)
    up, uv = unit_like(c, w, "p", u.km), unit_like(c, w, "v", u.km / u.s)
    p, t, a = frame3(c, w, "ITRS", n, up, "r")
    v, _, b = frame3(c, w, "ITRS", n, uv, "v", t=t)
    w.get("celest.satellite").Satellite(p, v).save_text_file("some name")
    c.cover("reached")
    own = lambda x: lambda i: wrap(el(x, i))
    turned = lambda k, xs: lambda i: wrap(c18.rot(k)(*[el(x, i) for x in [t] + xs]))
    asked(c, "some name", [("Time", own(t), u.jd2000)] + [("Itrs " + k, own(x), up) for k, x in zip("XYZ", a)] + [("Itrs V" + k, own(x), uv) for k, x in zip("XYZ", b)] +
          [("Gcrs " + k, turned(k.lower(), a), up) for k in "XYZ"] + [("Gcrs V" + k, turned(k.lower(), b), uv) for k in "XYZ"], n)
