"""Model of numpy.ndarray with symbolic lengths: a shape of (symbolic)
integers and a function from indices to element values.  Views share the
buffer of their base, stores update it, every operation snapshots it."""
from fractions import Fraction
import z3
from . import core
from .core import Unsupported, is_sym, fold, to_int, to_real, to_bool
from .sym import (raw, wrap, kind, rite, rcmp, rand_, radd, rsub, rmul, rdiv, rneg, rabs, rmod,
                  rfloordiv, rpow, ror_, rnot, rtrunc, rtruth, Scalar, Num, SymInt, SymBool, ctx)


def isz(x):
    return is_sym(x)


def dim_eq(a, b):
    """Decide equality of two dimensions (forks if undetermined)."""
    if not isz(a) and not isz(b):
        return a == b
    a2, b2 = fold(z3.simplify(to_int(a))), fold(z3.simplify(to_int(b)))
    if not isz(a2) and not isz(b2):
        return a2 == b2
    if isz(a2) and isz(b2) and a2.eq(b2):
        return True
    return ctx().truth(to_int(a2) == to_int(b2))


def iadd(a, b):
    if not isz(b) and b == 0:
        return a
    if not isz(a) and a == 0:
        return b
    if not isz(a) and not isz(b):
        return a + b
    return fold(z3.simplify(to_int(a) + to_int(b)))


def isub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    return fold(z3.simplify(to_int(a) - to_int(b)))


def imul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return fold(z3.simplify(to_int(a) * to_int(b)))


def prod(xs):
    r = 1
    for x in xs:
        r = imul(r, x)
    return r


class Buf:
    __slots__ = ("fn", "cache", "version")

    def __init__(self, fn):
        self.fn = fn
        self.cache = {}
        self.version = 0

    def set(self, fn):
        self.fn = fn
        self.cache = {}
        self.version += 1

    def reader(self):
        fn, cache = self.fn, self.cache

        def read(idx):
            key = tuple(i if not isz(i) else ("z", i.get_id()) for i in idx)
            if key in cache:
                return cache[key][1]
            c = ctx()
            local = c.local if c is not None else 0
            v = fn(idx)
            if c is None or c.local == local:       # else known under the present guards only
                cache[key] = (idx, v)
            return v
        return read


DT = {"f": "float64", "i": "int64", "b": "bool", "O": "object", "U": "<U"}


def cast_raw(v, dtype):
    if dtype == "O":
        return wrap(v) if isinstance(v, (bool, int, Fraction)) or is_sym(v) else v
    r = raw(v)
    if r is None:
        if v is None and dtype == "f":
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(v, Arr):
            raise ValueError("setting an array element with a sequence.")
        raise TypeError("cannot store %r in a numeric array" % (type(v).__name__,))
    k = kind(r)
    if dtype == "f":
        return r if k == "f" else (to_real(r) if is_sym(r) else Fraction(int(r)))
    if dtype == "i":
        if k == "f":
            return rtrunc(r)
        return r if k == "i" else (to_int(r) if is_sym(r) else int(r))
    if dtype == "b":
        return rtruth(r)
    return v


class Arr:
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, shape, buf, axes=None, dtype="f"):
        self._shape = tuple(shape)
        self.buf = buf if isinstance(buf, Buf) else Buf(buf)
        self.axes = axes if axes is not None else [("ax", k, 0, 1) for k in range(len(self._shape))]
        self._dtype = dtype
        self.positions = None      # PosInfo when the elements are positions (np.where)

    # ---- reading
    def base_index(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = imul(i, a[3])
                out.append(iadd(i, a[2]))
        return tuple(out)

    def reader(self):
        rd = self.buf.reader()
        if all(a == ("ax", k, 0, 1) for k, a in enumerate(self.axes)) and len(self.axes) == len(self._shape):
            return rd
        return lambda idx: rd(self.base_index(idx))

    def at(self, *idx):
        if len(idx) != len(self._shape):
            raise Unsupported("rank mismatch in model access")
        return self.reader()(tuple(raw(i) for i in idx))

    # ---- attributes
    @property
    def shape(self):
        return tuple(wrap(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return wrap(prod(self._shape))

    @property
    def T(self):
        return self.transpose()

    @property
    def dtype(self):
        return DType(self._dtype)

    @property
    def data(self):
        return self

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return self.ravel()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order=None):
        r = Arr(self._shape, self.reader(), None, self._dtype)
        r.positions = self.positions
        return r

    def tolist(self):
        n = self._shape[0]
        if isz(n):
            from .seq import SymList, SymSeq
            rd = self.reader()
            if self.ndim != 1:
                raise Unsupported("tolist of a symbolic matrix")
            return SymList(SymSeq(n, lambda k: wrap(rd((k,)))))
        return [wrap_el(self[i]) if self.ndim == 1 else self[i].tolist() for i in range(n)]

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return wrap(self.at(*([0] * self.ndim)))

    def astype(self, t, copy=True):
        d = dtype_of(t)
        rd = self.reader()
        if d == self._dtype:
            r = self.copy()
            return r
        return Arr(self._shape, lambda idx: cast_raw(rd(idx), d), None, d)

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        n = self.ndim
        perm = perm or tuple(range(n - 1, -1, -1))
        perm = tuple(p % n for p in perm)
        inv = {p: k for k, p in enumerate(perm)}
        axes = [a if a[0] == "fix" else ("ax", inv[a[1]], a[2], a[3]) for a in self.axes]
        return Arr([self._shape[p] for p in perm], self.buf, axes, self._dtype)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [raw(s) for s in shape]
        total = prod(self._shape)
        if any(not isz(s) and s == -1 for s in shape):
            k = [i for i, s in enumerate(shape) if not isz(s) and s == -1][0]
            rest = prod([s for i, s in enumerate(shape) if i != k])
            if not isz(rest) and rest == 1:
                shape[k] = total
            elif not isz(total) and not isz(rest):
                if rest == 0 or total % rest:
                    raise ValueError("cannot reshape array")
                shape[k] = total // rest
            else:
                # cancel common symbolic factors
                fs = list(self._shape)
                ok = True
                for s in [s for i, s in enumerate(shape) if i != k]:
                    for j, f in enumerate(fs):
                        if (isz(f) and isz(s) and f.eq(s)) or (not isz(f) and not isz(s) and f == s):
                            fs.pop(j)
                            break
                    else:
                        if not isz(s) and s == 1:
                            continue
                        ok = False
                if not ok:
                    raise Unsupported("reshape of a symbolic array")
                shape[k] = prod(fs)
        elif not dim_eq(prod(shape), total):
            raise ValueError("cannot reshape array of size %s" % (total,))
        rd = self.reader()
        src = self._shape
        s1 = [d for d in src if isz(d) or d != 1]
        s2 = [d for d in shape if isz(d) or d != 1]
        same = len(s1) == len(s2) and all((isz(a) and isz(b) and a.eq(b)) or (not isz(a) and not isz(b) and a == b)
                                          for a, b in zip(s1, s2))
        if same:
            # only unit axes are added or removed: keep it a view
            tgt = [k for k, d in enumerate(shape) if isz(d) or d != 1]
            srck = [k for k, d in enumerate(src) if isz(d) or d != 1]
            m = dict(zip(srck, tgt))
            axes = []
            for a in self.axes:
                if a[0] == "fix":
                    axes.append(a)
                elif a[1] in m:
                    axes.append(("ax", m[a[1]], a[2], a[3]))
                else:
                    axes.append(("fix", a[2]))
            return Arr(shape, self.buf, axes, self._dtype)

        def fn(idx):
            flat = 0
            for i, d in zip(idx, shape):
                flat = iadd(imul(flat, d), i)
            out = []
            for d in reversed(src[1:]):
                if isz(flat) or isz(d):
                    out.append(fold(z3.simplify(to_int(flat) % to_int(d))))
                    flat = fold(z3.simplify(to_int(flat) / to_int(d)))
                else:
                    out.append(flat % d)
                    flat = flat // d
            out.append(flat)
            return rd(tuple(reversed(out)))
        return Arr(shape, fn, None, self._dtype)

    def ravel(self, order="C"):
        return self.reshape((-1,))

    flatten = ravel

    def squeeze(self, axis=None):
        shape = [d for d in self._shape if isz(d) or d != 1]
        return self.reshape(tuple(shape)) if shape else wrap(self.at(*([0] * self.ndim)))

    def repeat(self, n, axis=None):
        n = raw(n)
        if axis is None:
            if self.ndim != 1:
                raise Unsupported("repeat without axis")
            axis = 0
        axis = axis % self.ndim
        rd = self.reader()
        shape = list(self._shape)
        one = not isz(shape[axis]) and shape[axis] == 1
        shape[axis] = imul(shape[axis], n)

        def fn(idx):
            j = list(idx)
            if one:
                j[axis] = 0
            else:
                j[axis] = idx[axis] // n if not isz(idx[axis]) and not isz(n) else \
                    fold(z3.simplify(to_int(idx[axis]) / to_int(n)))
            return rd(tuple(j))
        return Arr(shape, fn, None, self._dtype)

    # ---- reductions and methods deferring to the function model
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import npmodel
        if name in ("sum", "mean", "max", "min", "any", "all", "argmin", "argmax", "clip", "dot", "round",
                    "cumsum", "prod", "nonzero", "std", "argsort"):
            f = getattr(npmodel.NP, name)
            return lambda *a, **k: f(self, *a, **k)
        raise Unsupported("ndarray." + name)

    def sort(self, axis=-1):
        n = self._shape[0]
        if self.ndim != 1 or isz(n):
            raise Unsupported("in-place sort of a symbolic array")
        els = sorted([wrap_el(self.at(i)) for i in range(n)])
        raws = [raw(e) for e in els]
        self[:] = Arr((n,), lambda idx: pick(raws, idx[0]), None, self._dtype)

    def fill(self, v):
        self[...] = v

    # ---- indexing
    def __len__(self):
        n = self._shape[0] if self._shape else None
        if n is None:
            raise TypeError("len() of unsized object")
        if isz(n):
            raise Unsupported("len() of a symbolic array through the runtime")
        return n

    def _pv_len__(self):
        return self._shape[0]

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if isz(n):
            if self.ndim >= 1 and ctx().known_value(n) is not None:
                n = ctx().known_value(n)
            else:
                raise Unsupported("iteration over a symbolic array outside a loop")
        for i in range(n):
            yield self[i]

    def __contains__(self, x):
        from . import npmodel
        return bool(npmodel.NP.any(self == x))

    def norm_index(self, key):
        """-> list of ('int', raw) | ('slice', start, len, step) | ('new',) | ('arr', Arr)"""
        if not isinstance(key, tuple):
            key = (key,)
        nel = sum(1 for k in key if k is not None and k is not Ellipsis and not
                  (isinstance(k, Arr) and k._dtype == "b"))
        nel += sum(k.ndim for k in key if isinstance(k, Arr) and k._dtype == "b")
        out = []
        ax = 0
        seen_ell = False
        for k in key:
            if k is None:
                out.append(("new",))
                continue
            if k is Ellipsis:
                seen_ell = True
                for _ in range(self.ndim - nel):
                    out.append(("slice", 0, self._shape[ax], 1))
                    ax += 1
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            n = self._shape[ax]
            if isinstance(k, slice):
                out.append(("slice",) + self.norm_slice(k, n))
                ax += 1
            elif isinstance(k, Arr):
                if k.ndim == 0:
                    out.append(("int", self.norm_int(raw(k.item()), n)))
                    ax += 1
                elif k._dtype == "b":
                    if k.ndim == 1:
                        if not dim_eq(k._shape[0], n):
                            raise IndexError("boolean index did not match indexed array")
                        from . import npmodel
                        out.append(("arr", npmodel.NP.where(k)[0]))
                        ax += 1
                    else:
                        out.append(("mask", k))
                        ax += k.ndim
                else:
                    out.append(("arr", k))
                    ax += 1
            elif isinstance(k, (list, tuple)):
                from . import npmodel
                a = npmodel.NP.array(k)
                if a._dtype == "b":
                    a = npmodel.NP.where(a)[0]
                out.append(("arr", a))
                ax += 1
            else:
                r = raw(k)
                if r is None and hasattr(k, "__index__"):
                    r = k.__index__()
                if r is None or kind(r) not in "i":
                    raise IndexError("only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices")
                out.append(("int", self.norm_int(r, n)))
                ax += 1
        while ax < self.ndim:
            out.append(("slice", 0, self._shape[ax], 1))
            ax += 1
        return out

    def norm_int(self, r, n):
        c = ctx()
        if not isz(r) and not isz(n):
            if r < -n or r >= n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (r, n))
            return r + n if r < 0 else r
        if c.trust_index(r, n):
            return r
        if not isz(r):
            bad = to_int(n) <= (r if r >= 0 else -r - 1)
        else:
            bad = z3.Or(r >= to_int(n), r < -to_int(n))
        neg = r < 0
        if c.guards:
            g = z3.And(*[x if isz(x) else z3.BoolVal(x) for x in c.guards])
            if c.implied(z3.Implies(g, z3.Not(bad))):
                bad = False
            if isz(neg) and c.implied(z3.Implies(g, z3.Not(neg))):
                neg = False
        if bad is not False and c.truth(bad):
            raise IndexError("index out of bounds")
        if not isz(r):
            return r if r >= 0 else isub(n, -r)
        if neg is not False and c.truth(neg):
            return iadd(r, n)
        return r

    def norm_slice(self, s, n):
        step = raw(s.step) if s.step is not None else 1
        if isz(step):
            raise Unsupported("symbolic slice step")
        if step == -1 and s.start is None and s.stop is None:
            return (isub(n, 1), n, -1)
        if step <= 0:
            raise Unsupported("negative slice step")

        def norm(x, default):
            if x is None:
                return default
            r = raw(x)
            if r is None:
                r = x.__index__()
            if not isz(r) and not isz(n):
                return max(0, min(n, r + n if r < 0 else r))
            rr, nn = to_int(r), to_int(n)
            if not isz(r) and r < 0:
                e = z3.If(rr + nn < 0, z3.IntVal(0), rr + nn)
            elif not isz(r):
                e = z3.If(rr > nn, nn, rr)
            else:
                e = z3.If(rr < 0, z3.If(rr + nn < 0, z3.IntVal(0), rr + nn), z3.If(rr > nn, nn, rr))
            return fold(z3.simplify(e))
        st = norm(s.start, 0)
        en = norm(s.stop, n)
        if not isz(st) and not isz(en):
            ln = max(0, -((st - en) // step))
        elif not isz(st) and st == 0 and step == 1:
            ln = en
        else:
            d = to_int(en) - to_int(st)
            if step == 1:
                ln = fold(z3.simplify(z3.If(d < 0, z3.IntVal(0), d)))
            else:
                ln = fold(z3.simplify(z3.If(d < 0, z3.IntVal(0), (d + step - 1) / step)))
        return (st, ln, step)

    def view(self, ix):
        """Basic indexing."""
        shape, amap, ax = [], {}, 0
        for k in ix:
            if k[0] == "new":
                shape.append(1)
            elif k[0] == "int":
                amap[ax] = ("fix", k[1])
                ax += 1
            else:
                amap[ax] = ("ax", len(shape), k[1], k[3])
                shape.append(k[2])
                ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            m = amap[a[1]]
            if m[0] == "fix":
                axes.append(("fix", iadd(imul(m[1], a[3]), a[2])))
            else:
                axes.append(("ax", m[1], iadd(imul(m[2], a[3]), a[2]), imul(m[3], a[3])))
        return Arr(shape, self.buf, axes, self._dtype)

    def __getitem__(self, key):
        ix = self.norm_index(key)
        if not any(k[0] in ("arr", "mask") for k in ix):
            v = self.view(ix)
            if not v._shape:
                if any(k is None for k in (key if isinstance(key, tuple) else (key,))):
                    return v
                return wrap_el(v.at())
            if self.positions is not None and len(ix) == 1:
                v.positions = None
            return v
        if any(k[0] == "mask" for k in ix):
            if len(ix) != 1:
                raise Unsupported("mixed mask index")
            raise Unsupported("n-dimensional mask read")
        # advanced indexing: index arrays broadcast together; the gathered axes go first-position
        arrs = [k[1] for k in ix if k[0] == "arr"]
        ints = [k for k in ix if k[0] == "int"]
        pos = [i for i, k in enumerate(ix) if k[0] == "arr"]
        if len(arrs) > 1 or ints:
            adv = [i for i, k in enumerate(ix) if k[0] in ("arr", "int")]
            first = adv[0] if adv == list(range(adv[0], adv[0] + len(adv))) else 0
        else:
            first = pos[0]
        gshape, readers = broadcast([a for a in arrs])
        rd = self.reader()
        shape, plan = [], []
        # result axes: slices before `first`, gathered, remaining
        slices = [(i, k) for i, k in enumerate(ix) if k[0] in ("slice", "new")]
        before = [s for s in slices if s[0] < first]
        after = [s for s in slices if s[0] >= first]
        for s in before:
            shape.append(1 if s[1][0] == "new" else s[1][2])
        g0 = len(shape)
        shape += list(gshape)
        g1 = len(shape)
        for s in after:
            shape.append(1 if s[1][0] == "new" else s[1][2])
        axmap = {}
        for q, s in enumerate(before):
            axmap[s[0]] = q
        for q, s in enumerate(after):
            axmap[s[0]] = g1 + q

        limits = []
        ax = 0
        for k in ix:
            if k[0] == "new":
                continue
            limits.append(self._shape[ax])
            ax += 1

        for k, lim in zip([k for k in ix if k[0] != "new"], limits):
            if k[0] == "arr" and k[1].positions is None:
                a = k[1]
                if all(not isz(d) for d in a._shape):
                    import itertools
                    for j in itertools.product(*[range(d) for d in a._shape]):
                        self.norm_int(a.at(*j), lim)

        def fn(idx):
            g = idx[g0:g1]
            b = []
            na = 0
            ax = 0
            for i, k in enumerate(ix):
                if k[0] == "new":
                    continue
                if k[0] == "int":
                    b.append(k[1])
                elif k[0] == "slice":
                    b.append(iadd(imul(idx[axmap[i]], k[3]), k[1]))
                else:
                    j = readers[na](g)
                    na += 1
                    lim = self._shape[ax]
                    if not isz(j):
                        if j < 0:
                            j = iadd(lim, j)
                    elif k[1].positions is None:
                        j = rite(rcmp("<", j, 0), iadd(j, lim), j)
                    b.append(j)
                ax += 1
            return rd(tuple(b))
        r = Arr(shape, fn, None, self._dtype)
        if len(ix) == 1 and arrs[0].positions is not None and self.positions is None:
            r.gathered_from = (self, arrs[0].positions)
        return r

    gathered_from = None

    def __setitem__(self, key, value):
        ix = self.norm_index(key)
        dt = self._dtype
        if any(k[0] in ("arr", "mask") for k in ix):
            return self.set_advanced(ix, value)
        v = self.view(ix)
        src = as_arr(value, allow_object=(dt == "O"))
        rdv = broadcast_to(src, v._shape)
        old = self.buf.reader()
        axes, vshape = v.axes, v._shape

        def fn(b):
            cond = True
            idx = [0] * len(vshape)
            for a, i in zip(axes, b):
                if a[0] == "fix":
                    cond = rand_(cond, rcmp("==", i, a[1]))
                else:
                    n = vshape[a[1]]
                    off = isub(i, a[2])
                    if a[3] != 1:
                        if isz(off):
                            cond = rand_(cond, to_int(off) % a[3] == 0)
                            off = fold(z3.simplify(to_int(off) / a[3]))
                        else:
                            cond = rand_(cond, off % a[3] == 0)
                            off //= a[3]
                    if not isz(off) and not isz(n):
                        cond = rand_(cond, 0 <= off < n)
                    elif not (isz(i) and ctx().trust_index(off, n)):
                        cond = rand_(cond, rand_(rcmp(">=", off, 0), rcmp("<", off, n)))
                    idx[a[1]] = off
                if cond is False:
                    return old(b)
            if cond is True:
                return cast_raw(rdv(tuple(idx)), dt)
            with ctx().guarded(cond):
                new = cast_raw(rdv(tuple(idx)), dt)
            with ctx().guarded(rnot(cond)):
                was = old(b)
            return rite_obj(cond, new, was)
        self.buf.set(fn)

    def set_advanced(self, ix, value):
        dt = self._dtype
        if self.axes != [("ax", k, 0, 1) for k in range(self.ndim)]:
            raise Unsupported("advanced store through a view")
        old = self.buf.reader()
        src = as_arr(value, allow_object=(dt == "O"))
        if len(ix) == 1 and ix[0][0] == "mask":
            rdm = ix[0][1].reader()
            if src.ndim:
                raise Unsupported("n-d mask store of an array")
            s = cast_raw(src.at(), dt)
            self.buf.set(lambda b: rite_obj(rdm(b), s, old(b)))
            return
        arrs = [k for k in ix if k[0] == "arr"]
        if len(arrs) == 1 and arrs[0][1].positions is not None:
            ax = [i for i, k in enumerate(ix) if k[0] == "arr"][0]
            p = arrs[0][1].positions
            if all(k[0] == "arr" or (k[0] == "slice" and k[1] == 0 and k[3] == 1) for k in ix) and \
                    (not src.ndim or (self.ndim == 1 and src.ndim == 1)):
                if src.ndim and not dim_eq(src._shape[0], p.n) and not dim_eq(src._shape[0], 1):
                    raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
                rs = src.reader()

                def fn(b):
                    m = p.mask(b[ax])
                    if m is False:
                        return old(b)
                    with ctx().guarded(m):
                        if not src.ndim:
                            new = rs(())
                        elif src.gathered_from is not None and src.gathered_from[1] is p:
                            new = rs((p.inverse(b[ax]),))
                        else:
                            new = rs((p.inverse(b[ax]),))
                        new = cast_raw(new, dt)
                    return rite_obj(m, new, old(b))
                self.buf.set(fn)
                return
        if len(arrs) == 1 and all(not isz(d) for d in arrs[0][1]._shape) and len(ix) == self.ndim == 1:
            a = arrs[0][1]
            rs = broadcast_to(src, a._shape)
            for j in range(a._shape[0]):
                self[wrap(a.at(j))] = wrap_el(rs((j,)))
            return
        raise Unsupported("advanced store")

    # ---- operators
    def __add__(self, o): return arr_bin(radd, self, o)
    def __radd__(self, o): return arr_bin(radd, o, self)
    def __sub__(self, o): return arr_bin(rsub, self, o)
    def __rsub__(self, o): return arr_bin(rsub, o, self)
    def __mul__(self, o): return arr_bin(rmul, self, o)
    def __rmul__(self, o): return arr_bin(rmul, o, self)
    def __truediv__(self, o): return arr_bin(n_div, self, o)
    def __rtruediv__(self, o): return arr_bin(n_div, o, self)
    def __floordiv__(self, o): return arr_bin(n_floordiv, self, o)
    def __rfloordiv__(self, o): return arr_bin(n_floordiv, o, self)
    def __mod__(self, o): return arr_bin(n_mod, self, o)
    def __rmod__(self, o): return arr_bin(n_mod, o, self)
    def __pow__(self, o): return arr_bin(n_pow, self, o)
    def __rpow__(self, o): return arr_bin(n_pow, o, self)
    def __matmul__(self, o):
        from . import npmodel
        return npmodel.NP.matmul(self, o)
    def __rmatmul__(self, o):
        from . import npmodel
        return npmodel.NP.matmul(o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return arr_un(rneg, self)
    def __pos__(self): return self
    def __abs__(self): return arr_un(rabs, self)
    def __invert__(self):
        if self._dtype != "b":
            raise Unsupported("bitwise not")
        return arr_un(rnot, self, "b")

    def __lt__(self, o): return arr_bin(lambda a, b: rcmp("<", a, b), self, o)
    def __le__(self, o): return arr_bin(lambda a, b: rcmp("<=", a, b), self, o)
    def __gt__(self, o): return arr_bin(lambda a, b: rcmp(">", a, b), self, o)
    def __ge__(self, o): return arr_bin(lambda a, b: rcmp(">=", a, b), self, o)
    def __eq__(self, o): return arr_bin(lambda a, b: rcmp("==", a, b), self, o)
    def __ne__(self, o): return arr_bin(lambda a, b: rcmp("!=", a, b), self, o)
    def __and__(self, o): return arr_bin(rand_, self, o)
    __rand__ = __and__
    def __or__(self, o): return arr_bin(ror_, self, o)
    __ror__ = __or__
    def __xor__(self, o): return arr_bin(lambda a, b: rnot(rcmp("==", to_bool(a), b)), self, o)

    def _inplace(self, r):
        if r is NotImplemented:
            raise Unsupported("in-place operation")
        if r._dtype == "f" and self._dtype == "i":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __imod__(self, o): return self._inplace(self % o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __ifloordiv__(self, o): return self._inplace(self // o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    def __bool__(self):
        if all(not isz(d) and d == 1 for d in self._shape):
            return bool(wrap(self.at(*([0] * self.ndim))))
        c = ctx()
        if c.truth(to_int(prod(self._shape)) == 1):
            return bool(wrap(self.at(*([0] * self.ndim))))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        raise Unsupported("float of an array through the runtime")

    def __index__(self):
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __str__(self):
        return "<array>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<array>"


class DType:
    def __init__(self, d):
        self.d = d

    @property
    def kind(self):
        return {"U": "U"}.get(self.d, self.d)

    @property
    def name(self):
        return DT[self.d]

    def __eq__(self, o):
        try:
            return dtype_of(o) == self.d
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.d)


def dtype_of(t):
    if isinstance(t, DType):
        return t.d
    if t is None:
        return "f"
    name = t if isinstance(t, str) else getattr(t, "__name__", None)
    if name is None:
        raise Unsupported("dtype %r" % (t,))
    n = name.lower()
    if n.startswith("float") or n in ("double", "number", "floating", "f8", "f", "d", "<f8", "longdouble"):
        return "f"
    if n.startswith("int") or n in ("i8", "i", "<i8", "intp", "long", "uint64", "int_"):
        return "i"
    if n.startswith("bool") or n == "?":
        return "b"
    if n in ("object", "o", "object_"):
        return "O"
    raise Unsupported("dtype %r" % (t,))


def wrap_el(v):
    if isinstance(v, (bool, int, Fraction)) or is_sym(v):
        return wrap(v)
    return v


def rite_obj(c, a, b):
    c = fold(c)
    if isinstance(c, bool):
        return a if c else b
    ra, rb = raw(a), raw(b)
    if ra is None or rb is None:
        if a is b:
            return a
        if type(a) is type(b) and hasattr(type(a), "_pv_named"):
            return type(a)._pv_named(rite(c, a._pv_ident, b._pv_ident))
        return a if ctx().truth(c) else b
    return rite(c, ra, rb)


def pick(items, i):
    """items[i] for a symbolic i."""
    if not isz(i):
        return items[i]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = rite_obj(to_int(i) == k, items[k], r)
    return r


def as_arr(v, allow_object=False):
    if isinstance(v, Arr):
        return v
    r = raw(v)
    if r is not None:
        return Arr((), lambda idx: r, None, kind(r))
    if isinstance(v, (list, tuple)) or hasattr(v, "_pv_seq__"):
        from . import npmodel
        return npmodel.NP.array(v)
    return Arr((), lambda idx: v, None, "O")


def broadcast(arrs):
    """-> (shape, readers taking an index of that shape)"""
    nd = max((a.ndim for a in arrs), default=0)
    shape = []
    for k in range(nd):
        d = 1
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            e = a._shape[j]
            if not isz(e) and e == 1:
                continue
            if not isz(d) and d == 1:
                d = e
            elif (isz(d) and isz(e) and d.eq(e)) or (not isz(d) and not isz(e) and d == e):
                pass
            elif not isz(d) and not isz(e):
                raise ValueError("operands could not be broadcast together")
            elif dim_eq(d, e):
                pass
            elif dim_eq(e, 1):
                pass
            elif dim_eq(d, 1):
                d = e
            else:
                raise ValueError("operands could not be broadcast together")
        shape.append(d)
    return tuple(shape), [broadcast_reader(a, shape) for a in arrs]


def broadcast_reader(a, shape):
    rd = a.reader()
    off = len(shape) - a.ndim
    if a.ndim == 0:
        v = rd(())
        return lambda idx: v
    ones = []
    for j, d in enumerate(a._shape):
        t = shape[off + j]
        if not isz(d) and d == 1 and not (not isz(t) and t == 1):
            ones.append(j)
        elif isz(d) and not (isz(t) and d.eq(t)):
            # d equals t on this path, or d is 1 on this path
            if not dim_eq(d, t):
                ones.append(j)

    def f(idx):
        i = list(idx[off:])
        for j in ones:
            i[j] = 0
        return rd(tuple(i))
    return f


def broadcast_to(a, shape):
    if a.ndim > len(shape):
        extra = a.ndim - len(shape)
        if all(not isz(d) and d == 1 for d in a._shape[:extra]):
            a = a.reshape(tuple(a._shape[extra:]))
        else:
            raise ValueError("could not broadcast input array")
    off = len(shape) - a.ndim
    for j, d in enumerate(a._shape):
        if not isz(d) and d == 1:
            continue
        if not dim_eq(d, shape[off + j]):
            if isz(d) and dim_eq(d, 1):
                continue
            raise ValueError("could not broadcast input array from shape into shape")
    return broadcast_reader(a, shape)


# partial operations: outside their domain numpy yields nan/inf
def n_div(a, b):
    if raw(b) is None or raw(a) is None:
        raise Unsupported("division of objects")
    ctx().partial(rcmp("!=", b, 0), "divisor is not zero", b)
    return rdiv(a, b)


def n_floordiv(a, b):
    ctx().partial(rcmp("!=", b, 0), "divisor is not zero", b)
    return rfloordiv(a, b)


def n_mod(a, b):
    ctx().partial(rcmp("!=", b, 0), "divisor is not zero", b)
    return rmod(a, b)


def n_pow(a, b):
    if not is_sym(b):
        if b < 0:
            ctx().partial(rcmp("!=", a, 0), "base of a negative power is not zero", a)
        if isinstance(b, Fraction) and b.denominator != 1:
            ctx().partial(rcmp(">=", a, 0), "base of a fractional power is not negative", a)
        if kind(a) == "i" and kind(b) == "i" and b < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
    return rpow(a, b)


INT_OPS = {radd, rsub, rmul, n_floordiv, n_mod, n_pow, rneg, rabs}


def result_dtype(f, kinds):
    if "O" in kinds:
        return "O"
    if f in (n_div,):
        return "f"
    if f in INT_OPS:
        return "f" if "f" in kinds else "i"
    return None


def arr_bin(f, a, b, d=None):
    if (not isinstance(a, (Arr, Scalar, bool, int, float, list, tuple)) and raw(a) is None) or \
       (not isinstance(b, (Arr, Scalar, bool, int, float, list, tuple)) and raw(b) is None):
        if f in INT_OPS or f is n_div:
            for o in (a, b):
                if not isinstance(o, Arr) and o is not None and not isinstance(o, str):
                    return NotImplemented
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            x = a if isinstance(a, Arr) else b
            if f in INT_OPS or f is n_div:
                raise TypeError("unsupported operand types")
            raise Unsupported("comparison of an array with a non-number")
        return NotImplemented
    x, y = as_arr(a), as_arr(b)
    shape, (ra, rb) = broadcast([x, y])
    d = d or result_dtype(f, (x._dtype, y._dtype))
    if d == "O":
        def fo(idx):
            p, q = raw(ra(idx)), raw(rb(idx))
            if p is None or q is None:
                raise Unsupported("operation on objects")
            return wrap(f(p, q))
        return Arr(shape, fo, None, "O")
    g = (lambda idx: f(ra(idx), rb(idx)))
    if d is None:
        d = "b"
    if x.ndim == 0 and y.ndim == 0:
        return wrap(g(()))
    if d == "f":
        def h(idx):
            v = g(idx)
            return to_real(v) if is_sym(v) and kind(v) != "f" else (v if is_sym(v) else Fraction(v))
        return Arr(shape, h, None, "f")
    return Arr(shape, g, None, d)


def arr_un(f, a, d=None):
    rd = a.reader()
    if a._dtype == "O":
        return Arr(a._shape, lambda idx: wrap(f(raw(rd(idx)))), None, "O")
    return Arr(a._shape, lambda idx: f(rd(idx)), None, d or ("i" if a._dtype == "b" else a._dtype))


def sym_array(c, name, n, dtype="f", fn=None):
    """A fresh symbolic 1-d array of length n."""
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]
    f = fn or z3.Function(c.name(name), z3.IntSort(), sort)
    return Arr((n,), lambda idx: f(to_int(idx[0])), None, dtype)


class Positions:
    """The increasing enumeration of {k : mask(k)} within [0, n0)."""

    def __init__(self, mask, n0):
        c = ctx()
        self.mask = mask
        self.n0 = n0
        self.n = z3.Int(c.name("count"))
        nm = c.name("pos")
        self.f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.g = z3.Function(c.name("inv"), z3.IntSort(), z3.IntSort())
        self.reads = []
        self.r = None
        c.made = getattr(c, "made", []) + [self]
        c.assume(z3.And(self.n >= 0, self.n <= to_int(n0)))
        # an empty enumeration means that no position qualifies
        c.assume_forall(n0, lambda j: z3.Implies(to_bool(self.mask(j)), z3.And(
            self.n > 0, self.g(to_int(j)) >= 0, self.g(to_int(j)) < self.n,
            self.f(self.g(to_int(j))) == to_int(j))), "positions are complete")
        if c.positions_hook is not None:
            c.positions_hook(self)

    def at(self, k):
        c = ctx()
        if isz(k) and z3.is_app(k) and k.decl().eq(self.g):
            return fold(k.arg(0))
        k = to_int(k)
        if not any(k.eq(r) for r in self.reads):
            j = self.f(k)
            c.register_index(j, self.n0)
            inr = z3.And(k >= 0, k < self.n)
            c.assume(z3.Implies(inr, z3.And(j >= 0, j < to_int(self.n0), self.g(j) == k, j >= k)))
            with c.guarded(inr):
                m = self.mask(j)
            c.assume(z3.Implies(inr, to_bool(m)))
            for r in self.reads:
                both = z3.And(inr, r >= 0, r < self.n)
                c.assume(z3.Implies(both, z3.And((k < r) == (self.f(k) < self.f(r)),
                                                 (k == r) == (self.f(k) == self.f(r)))))
            self.reads.append(k)
        return self.f(k)

    def inverse(self, j):
        return self.g(to_int(j))

    def rank(self, x):
        """Number of positions below x (0 <= x <= n0), and its defining facts at the places on either side of x."""
        c = ctx()
        x = to_int(x)
        if self.r is None:
            self.r = z3.Function(c.name("below"), z3.IntSort(), z3.IntSort())
        t = self.r(x)
        c.assume(z3.And(t >= 0, t <= self.n))
        for k in (t - 1, t):
            self.at(k)
            c.assume(z3.Implies(z3.And(k >= 0, k < self.n), (k < t) == (self.f(k) < x)))
        return t

    def array(self):
        a = Arr((self.n,), lambda idx: self.at(idx[0]), None, "i")
        a.positions = self
        return a
