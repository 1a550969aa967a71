"""Model of the numpy functions the code uses (and their usual alternatives)."""
import itertools
from fractions import Fraction
import z3
from . import sym
from .core import Unsupported, is_sym, fold, to_int, to_real, to_bool
from .poly import PI_Q
from .sym import (raw, wrap, kind, rite, rcmp, rand_, ror_, rnot, radd, rsub, rmul, rdiv, rneg, rabs,
                  rsin, rcos, rtan, rsqrt, racos, rasin, ratan, ratan2, rexp, rlog, rfloor, rround,
                  rmax, rmin, rtrunc, rsign, rtruth, Scalar, Num, SymInt, SymBool, ctx)
from .arr import (Arr, as_arr, arr_bin, arr_un, broadcast, broadcast_to, dtype_of, DType, isz, dim_eq, iadd,
                  isub, imul, prod, cast_raw, wrap_el, rite_obj, pick, Positions, n_div, n_mod, n_floordiv,
                  n_pow, INT_OPS)


def cast(x, t):
    if isinstance(x, Arr):
        return x.astype(t)
    return wrap(cast_raw(x, dtype_of(t)))


def is_scalar(x):
    return not isinstance(x, (Arr, list, tuple)) and raw(x) is not None


def lift1(f, x, d="f", dom=None, what=""):
    def g(v):
        if dom is not None:
            ctx().partial(dom(v), what, v)
        return f(v)
    if is_scalar(x):
        return wrap(g(raw(x)))
    a = as_arr(x)
    if a._dtype == "O":
        def go(v):
            r = raw(v)
            if r is None:
                raise TypeError("loop of ufunc does not support argument")
            return wrap(g(r))
        rd = a.reader()
        return Arr(a._shape, lambda i: go(rd(i)), None, "O")
    if a.ndim == 0:
        return wrap(g(a.at()))
    return arr_un(g, a, d)


def lift2(f, x, y, d=None):
    if is_scalar(x) and is_scalar(y):
        return wrap(f(raw(x), raw(y)))
    x, y = as_arr(x), as_arr(y)
    if d == "num":
        d = "f" if "f" in (x._dtype, y._dtype) else "i"
    return arr_bin(f, x, y, d)


def axis_reduce(a, axis, f, keepdims=False, d=None):
    """f(list of raw) -> raw over a concrete axis."""
    a = as_arr(a)
    if axis is None:
        if any(isz(n) for n in a._shape):
            return None
        rd = a.reader()
        return wrap_el(f([rd(i) for i in itertools.product(*[range(n) for n in a._shape])]))
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    axis = raw(axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise ValueError("axis %d is out of bounds for array of dimension %d" % (axis, a.ndim))
    axis = axis % a.ndim
    n = a._shape[axis]
    if isz(n):
        return None
    rd = a.reader()
    shape = a._shape[:axis] + ((1,) if keepdims else ()) + a._shape[axis + 1:]

    def fn(idx):
        rest = list(idx)
        if keepdims:
            rest.pop(axis)
        return f([rd(tuple(rest[:axis] + [k] + rest[axis:])) for k in range(n)])
    if not shape:
        return wrap_el(fn(()))
    return Arr(shape, fn, None, d or a._dtype)


def fold_left(f, init=None):
    def g(xs):
        if not xs:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return init
        r = raw(xs[0])
        for x in xs[1:]:
            r = f(r, raw(x))
        return r
    return g


def bool_sum(xs):
    r = 0
    for x in xs:
        x = raw(x)
        r = radd(r, rite(x, 1, 0) if kind(x) == "b" else x)
    return r


class _Newaxis:
    pass


class Linalg:
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        a = as_arr(x)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        r = axis_reduce(a, axis, lambda xs: rsqrt(fold_left(radd, Fraction(0))([rmul(raw(v), raw(v)) for v in xs])),
                        keepdims, "f")
        if r is None:
            raise Unsupported("norm over a symbolic axis")
        return r

    @staticmethod
    def _mat(a):
        n = a._shape[-1]
        if isz(n) or isz(a._shape[-2]) or n != a._shape[-2] or n > 3:
            raise Unsupported("matrix shape")
        return n

    @staticmethod
    def det(x):
        a = as_arr(x)
        n = Linalg._mat(a)
        rd = a.reader()

        def fn(idx):
            return _det([[rd(tuple(idx) + (i, j)) for j in range(n)] for i in range(n)])
        return Arr(a._shape[:-2], fn, None, "f") if a.ndim > 2 else wrap(fn(()))

    @staticmethod
    def inv(x):
        a = as_arr(x)
        n = Linalg._mat(a)
        rd = a.reader()
        memo = {}

        def fn(idx):
            lead = tuple(idx[:-2])
            key = tuple(i if not isz(i) else i.get_id() for i in lead)
            if key not in memo:
                m = [[rd(lead + (i, j)) for j in range(n)] for i in range(n)]
                d = _det(m)
                ctx().partial(rcmp("!=", d, 0), "matrix is regular", d, raises="LinAlgError")
                memo[key] = (lead, _adj(m), d)
            _l, adj, d = memo[key]
            i, j = idx[-2], idx[-1]
            if isz(i) or isz(j):
                raise Unsupported("symbolic matrix index")
            return rdiv(adj[i][j], d)
        return Arr(a._shape, fn, None, "f")

    class LinAlgError(ValueError):
        pass


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return rsub(rmul(m[0][0], m[1][1]), rmul(m[0][1], m[1][0]))
    r = None
    for j in range(3):
        minor = _det([[m[i][k] for k in range(3) if k != j] for i in (1, 2)])
        t = rmul(m[0][j], minor)
        r = t if r is None else (radd(r, t) if j % 2 == 0 else rsub(r, t))
    return r


def _adj(m):
    n = len(m)
    if n == 1:
        return [[Fraction(1)]]

    def cof(i, j):
        c = _det([[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i])
        return c if (i + j) % 2 == 0 else rneg(c)
    return [[cof(j, i) for j in range(n)] for i in range(n)]


def deep_list(x):
    """Nested list -> (shape, flat list of leaves) or arrays stacked."""
    if isinstance(x, Arr):
        return x
    from .seq import SymList, SymSeq, as_seq
    if hasattr(x, "_pv_seq__"):
        s = x._pv_seq__()
        first = None
        if isz(s.n) and not getattr(s, "objects", False):
            c = ctx()
            first = s.get(c.index(s.n, "probe") if c.implied(s.n >= 1) else z3.Int(c.name("probe")))
        r = raw(first)
        d = kind(r) if r is not None else "O"
        return Arr((s.n,), lambda idx: (raw(s.get(idx[0])) if d != "O" else s.get(idx[0])), None, d)
    if isinstance(x, (list, tuple)):
        items = [deep_list(y) for y in x]
        return items
    return x


def stack_items(items):
    """list (of lists/arrays/scalars) -> Arr"""
    if isinstance(items, Arr):
        return items
    if not isinstance(items, list):
        r = raw(items)
        if r is not None:
            return Arr((), lambda idx: r, None, kind(r))
        if isinstance(items, str):
            return Arr((), lambda idx: items, None, "U")
        return Arr((), lambda idx: items, None, "O")
    subs = [stack_items(i) for i in items]
    if not subs:
        return Arr((0,), lambda idx: Fraction(0), None, "f")
    nd = {s.ndim for s in subs}
    if len(nd) != 1:
        raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    base = subs[0]._shape
    for s in subs[1:]:
        for a, b in zip(base, s._shape):
            if not dim_eq(a, b):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
    return stack_arrs(subs)


def join_dtype(ds):
    ds = set(ds)
    if "O" in ds or ("U" in ds and len(ds) > 1):
        return "O"
    for d in "Ufib":
        if d in ds:
            return d
    return "f"


def stack_arrs(subs):
    d = join_dtype(s._dtype for s in subs)
    rds = [s.reader() for s in subs]

    def fn(idx):
        i = idx[0]
        if not isz(i):
            v = rds[i](tuple(idx[1:]))
            return cast_raw(v, d) if d in "fib" else v
        vals = [r(tuple(idx[1:])) for r in rds]
        v = pick([cast_raw(q, d) if d in "fib" else q for q in vals], i)
        return v
    return Arr((len(subs),) + tuple(subs[0]._shape), fn, None, d)


class NPNS:
    ndarray = Arr
    newaxis = None
    inf = None
    linalg = Linalg()
    pi = Num(PI_Q)

    class float64(float):
        pass

    class int64(int):
        pass

    class bool_:
        pass

    float32 = float64
    double = float64
    floating = float64
    int32 = int64
    integer = int64
    number = float64
    object_ = object

    @staticmethod
    def array(x, dtype=None, copy=True, ndmin=0):
        a = deep_list(x)
        if isinstance(a, Arr):
            r = a.copy()
        else:
            if dtype is not None and dtype_of(dtype) == "O" and isinstance(a, list):
                # array of objects: keep inner sequences that do not stack as objects
                try:
                    r = stack_items(a)
                except ValueError:
                    items = list(x)
                    r = Arr((len(items),), lambda idx: items[idx[0]], None, "O")
            else:
                r = stack_items(a)
        if dtype is not None and dtype_of(dtype) != r._dtype:
            r = r.astype(dtype)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + tuple(wrap(s) for s in r._shape))
        return r

    @staticmethod
    def asarray(x, dtype=None):
        if isinstance(x, Arr) and (dtype is None or dtype_of(dtype) == x._dtype):
            return x
        return NPNS.array(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def copy(x):
        return NPNS.array(x)

    @staticmethod
    def full(shape, v, dtype=None):
        sh = _shape(shape)
        if isinstance(v, (Arr, list, tuple)):
            src = as_arr(v)
            rdv = broadcast_to(src, sh)
            d = dtype_of(dtype) if dtype is not None else src._dtype
            return Arr(sh, lambda idx: cast_raw(rdv(idx), d), None, d)
        r = raw(v)
        d = dtype_of(dtype) if dtype is not None else (kind(r) if r is not None else "O")
        val = cast_raw(v, d)
        return Arr(sh, lambda idx: val, None, d)

    @staticmethod
    def zeros(shape, dtype=None):
        return NPNS.full(shape, Fraction(0), dtype or "f")

    @staticmethod
    def empty(shape, dtype=None):
        d = dtype_of(dtype) if dtype is not None else "f"
        sh = _shape(shape)
        c = ctx()
        if d == "O":
            return NPNS.full(shape, None, "O")
        f = z3.Function(c.name("empty"), *([z3.IntSort()] * max(1, len(sh))),
                        {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[d])
        return Arr(sh, lambda idx: f(*[to_int(i) for i in (idx or (0,))]), None, d)

    @staticmethod
    def ones(shape, dtype=None):
        return NPNS.full(shape, Fraction(1), dtype or "f")

    @staticmethod
    def zeros_like(x, dtype=None):
        a = as_arr(x)
        return NPNS.full(a.shape, 0 if a._dtype == "i" else Fraction(0), dtype or DType(a._dtype))

    @staticmethod
    def ones_like(x, dtype=None):
        a = as_arr(x)
        return NPNS.full(a.shape, 1 if a._dtype == "i" else Fraction(1), dtype or DType(a._dtype))

    @staticmethod
    def full_like(x, v, dtype=None):
        a = as_arr(x)
        return NPNS.full(a.shape, v, dtype or DType(a._dtype))

    @staticmethod
    def empty_like(x, dtype=None):
        a = as_arr(x)
        return NPNS.empty(a.shape, dtype or DType(a._dtype))

    @staticmethod
    def eye(n, dtype=None):
        n = raw(n)
        return Arr((n, n), lambda i: rite(rcmp("==", i[0], i[1]), Fraction(1), Fraction(0)), None, "f")

    identity = eye

    @staticmethod
    def arange(a, b=None, step=1, dtype=None):
        if b is None:
            a, b = 0, a
        a, b, step = raw(a), raw(b), raw(step)
        if step != 1 or kind(a) != "i" or kind(b) != "i":
            if not any(isz(v) for v in (a, b, step)):
                vals = []
                v = a
                while v < b:
                    vals.append(v)
                    v += step
                return NPNS.array([wrap(v) for v in vals])
            raise Unsupported("arange")
        n = isub(b, a)
        if isz(n):
            n = fold(z3.simplify(z3.If(n < 0, z3.IntVal(0), n)))
        else:
            n = max(0, n)
        return Arr((n,), lambda i: iadd(i[0], a), None, "i")

    @staticmethod
    def linspace(a, b, n=50):
        n, a, b = raw(n), raw(a), raw(b)
        return Arr((n,), lambda i: radd(a, rdiv(rmul(rsub(b, a), i[0]), isub(n, 1))), None, "f")

    @staticmethod
    def concatenate(xs, axis=0):
        subs = [as_arr(x) for x in xs]
        if not subs:
            raise ValueError("need at least one array to concatenate")
        nd = subs[0].ndim
        if any(s.ndim != nd for s in subs) or nd == 0:
            raise ValueError("all the input array dimensions must match")
        if axis is None:
            subs = [s.ravel() for s in subs]
            nd, axis = 1, 0
        axis %= nd
        for k in range(nd):
            if k != axis:
                for s in subs[1:]:
                    if not dim_eq(subs[0]._shape[k], s._shape[k]):
                        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        d = join_dtype(s._dtype for s in subs)
        rds = [s.reader() for s in subs]
        offs = [0]
        for s in subs:
            offs.append(iadd(offs[-1], s._shape[axis]))
        shape = list(subs[0]._shape)
        shape[axis] = offs[-1]

        def fn(idx):
            i = idx[axis]
            if not isz(i) and not any(isz(o) for o in offs):
                for k in range(len(subs)):
                    if i < offs[k + 1]:
                        j = list(idx)
                        j[axis] = i - offs[k]
                        v = rds[k](tuple(j))
                        return cast_raw(v, d) if d in "fib" else v
            res = None
            for k in range(len(subs) - 1, -1, -1):
                j = list(idx)
                j[axis] = isub(i, offs[k])
                here = rcmp("<", i, offs[k + 1])
                v = rds[k](tuple(j))
                v = cast_raw(v, d) if d in "fib" else v
                res = v if res is None else rite_obj(here, v, res)
            return res
        return Arr(shape, fn, None, d)

    @staticmethod
    def stack(xs, axis=0):
        subs = [as_arr(x) for x in xs]
        for s in subs[1:]:
            if s.ndim != subs[0].ndim or not all(dim_eq(a, b) for a, b in zip(s._shape, subs[0]._shape)):
                raise ValueError("all input arrays must have the same shape")
        r = stack_arrs(subs)
        axis = axis % r.ndim
        if axis:
            perm = list(range(1, r.ndim))
            perm.insert(axis, 0)
            r = r.transpose(*perm)
        return r

    @staticmethod
    def vstack(xs):
        return NPNS.concatenate([NPNS.atleast_2d(x) for x in xs], 0)

    row_stack = vstack

    @staticmethod
    def hstack(xs):
        subs = [NPNS.atleast_1d(x) for x in xs]
        return NPNS.concatenate(subs, 0 if subs[0].ndim == 1 else 1)

    @staticmethod
    def column_stack(xs):
        subs = []
        for x in xs:
            a = as_arr(x)
            subs.append(a.reshape((-1, 1)) if a.ndim < 2 else a)
        return NPNS.concatenate(subs, 1)

    @staticmethod
    def dstack(xs):
        raise Unsupported("dstack")

    @staticmethod
    def atleast_1d(x):
        a = as_arr(x)
        return a.reshape((1,)) if a.ndim == 0 else a

    @staticmethod
    def atleast_2d(x):
        a = as_arr(x)
        if a.ndim == 0:
            return a.reshape((1, 1))
        return a[None, :] if a.ndim == 1 else a

    @staticmethod
    def expand_dims(x, axis):
        a = as_arr(x)
        axis = axis % (a.ndim + 1)
        return a[tuple([slice(None)] * axis + [None])]

    @staticmethod
    def append(a, b, axis=None):
        return NPNS.concatenate([NPNS.atleast_1d(a), NPNS.atleast_1d(b)], axis or 0)

    @staticmethod
    def insert(a, i, v):
        a = as_arr(a)
        return NPNS.concatenate([a[:i], NPNS.atleast_1d(v), a[i:]])

    @staticmethod
    def delete(a, i):
        a = as_arr(a)
        return NPNS.concatenate([a[:i], a[i + 1:]])

    @staticmethod
    def reshape(a, shape):
        return as_arr(a).reshape(shape)

    @staticmethod
    def transpose(a, axes=None):
        a = as_arr(a)
        return a.transpose(*axes) if axes is not None else a.T

    @staticmethod
    def swapaxes(a, i, j):
        return as_arr(a).swapaxes(i, j)

    @staticmethod
    def moveaxis(a, s, t):
        a = as_arr(a)
        p = list(range(a.ndim))
        p.remove(s % a.ndim)
        p.insert(t % a.ndim, s % a.ndim)
        return a.transpose(*p)

    @staticmethod
    def ravel(a):
        return as_arr(a).ravel()

    @staticmethod
    def squeeze(a, axis=None):
        return as_arr(a).squeeze()

    @staticmethod
    def repeat(a, n, axis=None):
        return as_arr(a).repeat(n, axis)

    @staticmethod
    def tile(a, reps):
        raise Unsupported("tile")

    @staticmethod
    def broadcast_to(a, shape):
        a = as_arr(a)
        sh = _shape(shape)
        rd = broadcast_to(a, sh)
        return Arr(sh, rd, None, a._dtype)

    @staticmethod
    def flip(a, axis=None):
        a = as_arr(a)
        if a.ndim != 1:
            raise Unsupported("flip")
        return a[::-1]

    # ---- elementwise
    @staticmethod
    def sin(x): return lift1(rsin, x)
    @staticmethod
    def cos(x): return lift1(rcos, x)
    @staticmethod
    def tan(x):
        return lift1(lambda v: (ctx().partial(rcmp("!=", rcos(v), 0), "tangent is defined", v),
                                rdiv(rsin(v), rcos(v)))[1], x)
    @staticmethod
    def arcsin(x): return lift1(rasin, x, "f", lambda v: rand_(rcmp(">=", v, -1), rcmp("<=", v, 1)), "arcsine argument within [-1, 1]")
    @staticmethod
    def arccos(x): return lift1(racos, x, "f", lambda v: rand_(rcmp(">=", v, -1), rcmp("<=", v, 1)), "arccosine argument within [-1, 1]")
    @staticmethod
    def arctan(x): return lift1(ratan, x)
    @staticmethod
    def arctan2(y, x): return lift2(ratan2, y, x, "f")
    @staticmethod
    def hypot(x, y): return lift2(lambda a, b: rsqrt(radd(rmul(a, a), rmul(b, b))), x, y, "f")
    @staticmethod
    def sqrt(x): return lift1(rsqrt, x, "f", lambda v: rcmp(">=", v, 0), "square root argument is not negative")
    @staticmethod
    def square(x): return lift1(lambda v: rmul(v, v), x, None)
    @staticmethod
    def exp(x): return lift1(rexp, x)
    @staticmethod
    def log(x): return lift1(rlog, x, "f", lambda v: rcmp(">", v, 0), "logarithm argument is positive")
    @staticmethod
    def radians(x): return lift1(lambda v: rmul(v, PI_Q / 180), x)
    deg2rad = radians
    @staticmethod
    def degrees(x): return lift1(lambda v: rmul(v, 180 / PI_Q), x)
    rad2deg = degrees
    @staticmethod
    def abs(x):
        return abs(x) if isinstance(x, (Arr, Scalar, int)) else lift1(rabs, x, None)
    absolute = abs
    fabs = abs
    @staticmethod
    def sign(x): return lift1(rsign, x, None)
    @staticmethod
    def negative(x): return -x
    @staticmethod
    def floor(x): return lift1(lambda v: _real(rfloor(v)), x)
    @staticmethod
    def ceil(x): return lift1(lambda v: _real(rneg(rfloor(rneg(v)))), x)
    @staticmethod
    def trunc(x): return lift1(lambda v: _real(rtrunc(v)), x)
    fix = trunc
    @staticmethod
    def rint(x): return lift1(lambda v: _real(rround(v)), x)
    @staticmethod
    def round(x, decimals=0):
        s = 10 ** raw(decimals)
        return lift1(lambda v: rdiv(_real(rround(rmul(v, s))), s), x)
    around = round
    round_ = round
    @staticmethod
    def clip(x, a, b):
        r = x
        if a is not None:
            r = lift2(rmax, r, a, "num")
        if b is not None:
            r = lift2(rmin, r, b, "num")
        return r
    @staticmethod
    def maximum(x, y): return lift2(rmax, x, y, "num")
    @staticmethod
    def minimum(x, y): return lift2(rmin, x, y, "num")
    fmax, fmin = maximum, minimum
    @staticmethod
    def add(x, y): return as_np(x) + y
    @staticmethod
    def subtract(x, y): return as_np(x) - y
    @staticmethod
    def multiply(x, y): return as_np(x) * y
    @staticmethod
    def divide(x, y): return lift2(n_div, x, y, "f")
    true_divide = divide
    @staticmethod
    def power(x, y): return as_np(x) ** y
    float_power = power
    @staticmethod
    def mod(x, y): return lift2(n_mod, x, y, "num")
    remainder = mod
    @staticmethod
    def fmod(x, y):
        return lift2(lambda a, b: rsub(a, rmul(b, rtrunc(rdiv(a, b)))), x, y, "num")
    @staticmethod
    def floor_divide(x, y): return lift2(n_floordiv, x, y, "num")
    @staticmethod
    def divmod(x, y): return (NPNS.floor_divide(x, y), NPNS.mod(x, y))
    @staticmethod
    def modf(x): return (NPNS.fmod(x, 1), NPNS.trunc(x))
    @staticmethod
    def less(x, y): return as_np(x) < y
    @staticmethod
    def less_equal(x, y): return as_np(x) <= y
    @staticmethod
    def greater(x, y): return as_np(x) > y
    @staticmethod
    def greater_equal(x, y): return as_np(x) >= y
    @staticmethod
    def equal(x, y): return as_np(x) == y
    @staticmethod
    def not_equal(x, y): return as_np(x) != y
    @staticmethod
    def logical_and(x, y): return lift2(lambda a, b: rand_(rtruth(a), rtruth(b)), x, y, "b")
    @staticmethod
    def logical_or(x, y): return lift2(lambda a, b: ror_(rtruth(a), rtruth(b)), x, y, "b")
    @staticmethod
    def logical_xor(x, y): return lift2(lambda a, b: rnot(rcmp("==", to_bool(rtruth(a)), rtruth(b))), x, y, "b")
    @staticmethod
    def logical_not(x): return lift1(lambda v: rnot(rtruth(v)), x, "b")
    bitwise_and, bitwise_or, invert = logical_and, logical_or, logical_not
    @staticmethod
    def isnan(x): return lift1(lambda v: False, x, "b")
    @staticmethod
    def isinf(x): return lift1(lambda v: False, x, "b")
    @staticmethod
    def isfinite(x): return lift1(lambda v: True, x, "b")
    @staticmethod
    def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
        return lift2(lambda x, y: rcmp("<=", rabs(rsub(x, y)), radd(raw(atol), rmul(raw(rtol), rabs(y)))), a, b, "b")
    @staticmethod
    def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
        return NPNS.all(NPNS.isclose(a, b, rtol, atol))
    @staticmethod
    def array_equal(a, b):
        a, b = as_arr(a), as_arr(b)
        if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a._shape, b._shape)):
            return False
        return NPNS.all(a == b)
    @staticmethod
    def isscalar(x):
        return isinstance(x, (Scalar, int, float, str))
    @staticmethod
    def ndim(x): return as_arr(x).ndim
    @staticmethod
    def shape(x): return as_arr(x).shape
    @staticmethod
    def size(x): return as_arr(x).size
    @staticmethod
    def float_(x): return wrap(cast_raw(x, "f"))

    @staticmethod
    def cross(a, b, axis=-1):
        a, b = as_arr(a), as_arr(b)
        if axis not in (-1, a.ndim - 1):
            if axis == 0 and a.ndim == 2 and not (isz(a._shape[0])) and a._shape[0] == 3:
                return NPNS.cross(a.T, b.T).T
            raise Unsupported("cross axis")
        if isz(a._shape[-1]) or isz(b._shape[-1]) or a._shape[-1] != 3 or b._shape[-1] != 3:
            raise Unsupported("cross of vectors that are not of length 3")
        shape, (ra, rb) = broadcast([a, b])

        def fn(idx):
            i = idx[-1]
            pre = tuple(idx[:-1])

            def comp(p, q):
                return rsub(rmul(ra(pre + (p,)), rb(pre + (q,))), rmul(ra(pre + (q,)), rb(pre + (p,))))
            if isz(i):
                return pick([comp(1, 2), comp(2, 0), comp(0, 1)], i)
            return comp((i + 1) % 3, (i + 2) % 3)
        return Arr(shape, fn, None, "f" if "f" in (a._dtype, b._dtype) else "i")

    @staticmethod
    def dot(a, b):
        if is_scalar(a) or is_scalar(b):
            return as_np(a) * b
        a, b = as_arr(a), as_arr(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        if b.ndim == 1:
            return NPNS._contract(a, a.ndim - 1, b, 0)
        return NPNS._contract(a, a.ndim - 1, b, b.ndim - 2)

    @staticmethod
    def _contract(a, ka, b, kb):
        n, m = a._shape[ka], b._shape[kb]
        if not dim_eq(n, m):
            raise ValueError("shapes not aligned")
        if isz(n):
            n = m
        if isz(n):
            raise Unsupported("contraction over a symbolic axis")
        ra, rb = a.reader(), b.reader()
        sa = a._shape[:ka] + a._shape[ka + 1:]
        sb = b._shape[:kb] + b._shape[kb + 1:]
        na = len(sa)

        def fn(idx):
            ia, ib = list(idx[:na]), list(idx[na:])
            r = None
            for k in range(n):
                t = rmul(ra(tuple(ia[:ka] + [k] + ia[ka:])), rb(tuple(ib[:kb] + [k] + ib[kb:])))
                r = t if r is None else radd(r, t)
            return r if r is not None else Fraction(0)
        sh = sa + sb
        if not sh:
            return wrap(fn(()))
        return Arr(sh, fn, None, "f" if "f" in (a._dtype, b._dtype) else "i")

    @staticmethod
    def inner(a, b):
        a, b = as_arr(a), as_arr(b)
        return NPNS._contract(a, a.ndim - 1, b, b.ndim - 1)

    @staticmethod
    def outer(a, b):
        return NPNS.einsum("i,j->ij", a, b)

    @staticmethod
    def vdot(a, b): return NPNS.dot(a, b)

    @staticmethod
    def tensordot(a, b, axes):
        raise Unsupported("tensordot")

    @staticmethod
    def matmul(a, b):
        a, b = as_arr(a), as_arr(b)
        if a.ndim == 1 and b.ndim == 1:
            return NPNS.dot(a, b)
        letters = "abcdefgh"
        if b.ndim == 1:
            la = letters[:a.ndim]
            return NPNS.einsum("%s,%s->%s" % (la, la[-1], la[:-1]), a, b)
        if a.ndim == 1:
            lb = letters[:b.ndim]
            return NPNS.einsum("%s,%s->%s" % (lb[-2], lb, lb[:-2] + lb[-1]), a, b)
        nb = max(a.ndim, b.ndim) - 2
        batch = letters[:nb]
        ba, bb = batch[nb - (a.ndim - 2):], batch[nb - (b.ndim - 2):]
        return NPNS.einsum("%sxy,%syz->%sxz" % (ba, bb, batch), a, b)

    @staticmethod
    def einsum(spec, *ops, **kw):
        spec = spec.replace(" ", "")
        if "..." in spec:
            raise Unsupported("einsum ellipsis")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            names = [c for c in ins if c != ","]
            out = "".join(sorted(c for c in set(names) if names.count(c) == 1))
        ins = ins.split(",")
        arrs = [as_arr(o) for o in ops]
        if len(ins) != len(arrs):
            raise ValueError("einsum operand count")
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise ValueError("einstein sum subscripts string does not match operand")
            for c, n in zip(s, a._shape):
                if c in dims:
                    if not isz(n) and n == 1 or not isz(dims[c]) and dims[c] == 1:
                        if not isz(dims[c]) and dims[c] == 1:
                            dims[c] = n
                    elif not dim_eq(dims[c], n):
                        raise ValueError("operands could not be broadcast together with remapped shapes")
                    elif isz(dims[c]) and not isz(n):
                        dims[c] = n
                else:
                    dims[c] = n
        summed = [c for c in dims if c not in out]
        for c in summed:
            if isz(dims[c]):
                raise Unsupported("einsum over a symbolic axis")
        rds = [a.reader() for a in arrs]

        def fn(idx):
            env = dict(zip(out, idx))
            r = None
            for combo in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, combo))
                t = None
                for s, rd, a in zip(ins, rds, arrs):
                    v = rd(tuple(0 if (not isz(a._shape[q]) and a._shape[q] == 1) else env[c] for q, c in enumerate(s)))
                    t = v if t is None else rmul(t, v)
                r = t if r is None else radd(r, t)
            return r if r is not None else Fraction(0)
        if not out:
            return wrap(fn(()))
        return Arr([dims[c] for c in out], fn, None, "f" if any(a._dtype == "f" for a in arrs) else "i")

    # ---- reductions
    @staticmethod
    def sum(x, axis=None, keepdims=False, dtype=None):
        a = as_arr(x)
        d = "i" if a._dtype == "b" else a._dtype
        r = axis_reduce(a, axis, bool_sum, keepdims, d)
        if r is None:
            raise Unsupported("sum over a symbolic axis")
        return r

    @staticmethod
    def prod(x, axis=None):
        r = axis_reduce(x, axis, fold_left(rmul, 1))
        if r is None:
            raise Unsupported("product over a symbolic axis")
        return r

    @staticmethod
    def mean(x, axis=None):
        a = as_arr(x)
        r = axis_reduce(a, axis, lambda xs: rdiv(bool_sum(xs), len(xs)), False, "f")
        if r is None:
            raise Unsupported("mean over a symbolic axis")
        return r

    @staticmethod
    def cumsum(x, axis=None):
        a = as_arr(x)
        if a.ndim != 1 or isz(a._shape[0]):
            raise Unsupported("cumsum")
        acc, out = 0, []
        for i in range(a._shape[0]):
            acc = radd(acc, rite(a.at(i), 1, 0) if a._dtype == "b" else a.at(i))
            out.append(wrap(acc))
        return NPNS.array(out)

    @staticmethod
    def _exists(a, what):
        """Truth of: some element is true."""
        c = ctx()
        if all(not isz(n) for n in a._shape):
            rd = a.reader()
            r = False
            for i in itertools.product(*[range(n) for n in a._shape]):
                r = ror_(r, rtruth(raw(rd(i))))
            return r
        rd = a.reader()
        b = z3.Bool(c.name("any"))
        w = []
        ok = True
        for n in a._shape:
            if isz(n):
                k = z3.Int(c.name("wit"))
                c.register_index(k, n)
                ok = rand_(ok, z3.And(k >= 0, k < n))
                w.append(k)
            else:
                w.append(None)
        fixed = [range(n) for n in a._shape if not isz(n)]

        def at(sym_idx):
            r = False
            for combo in itertools.product(*fixed):
                it, st = iter(combo), iter(sym_idx)
                idx = tuple(next(it) if not isz(n) else next(st) for n in a._shape)
                r = ror_(r, rtruth(raw(rd(idx))))
            return r
        syms = [k for k in w if k is not None]
        with c.guarded(rand_(b, ok)):
            body = at(syms)
        c.assume(z3.Implies(b, z3.And(to_bool(ok), to_bool(body))))
        if len(syms) == 1:
            n = [n for n in a._shape if isz(n)][0]
            c.assume_forall(n, lambda j: z3.Implies(to_bool(at([j])), b), "any")
        else:
            raise Unsupported("any over two symbolic axes")
        return b

    @staticmethod
    def any(x, axis=None, **kw):
        a = as_arr(x)
        if axis is not None:
            r = axis_reduce(a, axis, lambda xs: _or([rtruth(raw(v)) for v in xs]), False, "b")
            if r is None:
                raise Unsupported("any over a symbolic axis")
            return r
        return wrap(NPNS._exists(a, "any"))

    @staticmethod
    def all(x, axis=None, **kw):
        a = as_arr(x)
        if axis is not None:
            r = axis_reduce(a, axis, lambda xs: _and([rtruth(raw(v)) for v in xs]), False, "b")
            if r is None:
                raise Unsupported("all over a symbolic axis")
            return r
        rd = a.reader()
        n = Arr(a._shape, lambda i: rnot(rtruth(raw(rd(i)))), None, "b")
        return wrap(rnot(NPNS._exists(n, "all")))

    @staticmethod
    def count_nonzero(x):
        a = as_arr(x)
        if a.ndim == 1 and isz(a._shape[0]):
            return NPNS.where(a)[0].size
        return NPNS.sum(a != 0)

    @staticmethod
    def _extreme(x, axis, less, name):
        a = as_arr(x)
        f = rmin if less else rmax
        r = axis_reduce(a, axis, fold_left(f))
        if r is not None:
            return r
        if a.ndim != 1:
            raise Unsupported(name)
        k = NPNS._arg_extreme(a, less)
        return wrap(a.at(raw(k)))

    @staticmethod
    def max(x, axis=None, **kw): return NPNS._extreme(x, axis, False, "max")
    amax = max
    nanmax = max
    @staticmethod
    def min(x, axis=None, **kw): return NPNS._extreme(x, axis, True, "min")
    amin = min
    nanmin = min

    @staticmethod
    def ptp(x, axis=None): return NPNS.max(x, axis) - NPNS.min(x, axis)

    @staticmethod
    def _arg_extreme(a, less):
        c = ctx()
        n = a._shape[0]
        rd = a.reader()
        op = "<=" if less else ">="
        if not isz(n):
            if n == 0:
                raise ValueError("attempt to get argmin of an empty sequence")
            best, bi = rd((0,)), 0
            for k in range(1, n):
                v = rd((k,))
                better = rcmp("<" if less else ">", v, best)
                best, bi = rite(better, v, best), rite(better, k, bi)
            return wrap(bi)
        if c.truth(to_int(n) <= 0):
            raise ValueError("attempt to get argmin of an empty sequence")
        w = z3.Int(c.name("arg"))
        c.register_index(w, n)
        c.assume(z3.And(w >= 0, w < n))
        best = rd((w,))
        c.assume_forall(n, lambda j: z3.And(to_bool(rcmp(op, best, rd((j,)))),
                                            z3.Implies(to_int(j) < w, to_bool(rcmp(op[0], best, rd((j,)))))), "arg")
        return wrap(w)

    @staticmethod
    def argmin(x, axis=None):
        if axis not in (None, 0):
            raise Unsupported("argmin axis")
        a = as_arr(x)
        if a.ndim != 1:
            raise Unsupported("argmin of a matrix")
        return NPNS._arg_extreme(a, True)

    @staticmethod
    def argmax(x, axis=None):
        a = as_arr(x)
        if a.ndim != 1:
            raise Unsupported("argmax of a matrix")
        if a._dtype == "b":
            a = a.astype("int")
        return NPNS._arg_extreme(a, False)

    @staticmethod
    def argsort(x, *a, **k):
        x = as_arr(x)
        n = x._shape[0]
        if isz(n):
            raise Unsupported("argsort of a symbolic array")
        idx = sorted(range(n), key=lambda i: wrap_el(x.at(i)))
        return NPNS.array(idx)

    @staticmethod
    def sort(x, *a):
        x = as_arr(x)
        if isz(x._shape[0]):
            raise Unsupported("sort of a symbolic array")
        return NPNS.array(sorted([wrap_el(x.at(i)) for i in range(x._shape[0])]))

    @staticmethod
    def unique(x):
        raise Unsupported("unique")

    # ---- index functions
    @staticmethod
    def where(cond, x=None, y=None):
        if x is None and y is None:
            a = as_arr(cond)
            if a.ndim == 0:
                raise Unsupported("where of a scalar")
            if a.ndim != 1:
                raise Unsupported("where of a matrix")
            rd = a.reader()
            n = a._shape[0]
            mask = lambda j: rtruth(raw(rd((j,))))
            if not isz(n):
                ms = [mask(j) for j in range(n)]
                if not any(isz(m) for m in ms):
                    return (NPNS._ints([j for j in range(n) if ms[j]]),)
            return (Positions(mask, n).array(),)
        c, x, y = as_arr(cond), as_arr(x), as_arr(y)
        shape, (rc, rx, ry) = broadcast([c, x, y])
        d = join_dtype((x._dtype, y._dtype))

        def fn(idx):
            b = rtruth(rc(idx))
            if isinstance(b, bool):
                v = rx(idx) if b else ry(idx)
                return cast_raw(v, d) if d in "fib" else v
            with ctx().guarded(b):
                p = rx(idx)
            with ctx().guarded(rnot(b)):
                q = ry(idx)
            if d in "fib":
                return rite(b, cast_raw(p, d), cast_raw(q, d))
            return rite_obj(b, p, q)
        if not shape:
            return wrap(fn(()))
        return Arr(shape, fn, None, d)

    @staticmethod
    def _ints(xs):
        r = Arr((len(xs),), lambda idx: pick(xs, idx[0]) if xs else 0, None, "i")
        return r

    @staticmethod
    def nonzero(x): return NPNS.where(as_arr(x))
    @staticmethod
    def flatnonzero(x): return NPNS.where(as_arr(x).ravel())[0]
    @staticmethod
    def argwhere(x): return NPNS.where(x)[0].reshape((-1, 1))
    @staticmethod
    def extract(c, x): return as_arr(x)[as_arr(c)]
    @staticmethod
    def select(conds, choices, default=0):
        r = default
        for c, x in reversed(list(zip(conds, choices))):
            r = NPNS.where(c, x, r)
        return r

    @staticmethod
    def diff(x, n=1):
        a = as_arr(x)
        if a.ndim != 1 or n != 1:
            raise Unsupported("diff")
        return a[1:] - a[:-1]

    @staticmethod
    def indices(shape):
        sh = _shape(shape)
        if len(sh) != 1:
            raise Unsupported("indices of a matrix")
        n = sh[0]
        return Arr((1, n), lambda idx: idx[1], None, "i")

    @staticmethod
    def intersect1d(a, b, **kw):
        a, b = as_arr(a), as_arr(b)
        return set_op(a, b, True)

    @staticmethod
    def isin(a, b):
        a, b = as_arr(a), as_arr(b).ravel()
        if isz(b._shape[0]):
            m = member(b)
            rd = a.reader()
            return Arr(a._shape, lambda i: m(rd(i)), None, "b")
        rd, rb = a.reader(), b.reader()
        return Arr(a._shape, lambda i: _or([rcmp("==", rd(i), rb((k,))) for k in range(b._shape[0])]), None, "b")
    in1d = isin

    @staticmethod
    def searchsorted(a, v, side="left"):
        raise Unsupported("searchsorted")

    @staticmethod
    def split(a, cuts, axis=0):
        a, cuts = as_arr(a), as_arr(cuts)
        if not isz(cuts._shape[0]):
            cs = [raw(cuts.at(k)) for k in range(cuts._shape[0])]
            out, prev = [], 0
            for c in cs:
                out.append(a[wrap(prev):wrap(c)])
                prev = c
            out.append(a[wrap(prev):])
            return out
        from .seq import SymList, SymSeq
        m = cuts._shape[0]
        rc = cuts.reader()

        def get(k):
            c = ctx()
            lo = rite(rcmp("<=", k, 0), 0, rc((isub(k, 1),)))
            hi = rite(rcmp(">=", k, m), a._shape[0], rc((k,)))
            if not isz(k):
                return a[wrap(lo):wrap(hi)]
            lo_, hi_ = z3.Int(c.name("from")), z3.Int(c.name("to"))
            c.assume(z3.And(lo_ == to_int(lo), hi_ == to_int(hi)))
            n = to_int(a._shape[0])
            if not c.implied(z3.Implies(z3.And(k >= 0, k <= to_int(m)), z3.And(0 <= lo_, lo_ <= hi_, hi_ <= n))):
                return a[wrap(lo_):wrap(hi_)]
            ln = z3.Int(c.name("len"))
            c.assume(z3.And(ln == hi_ - lo_))
            return a.view([("slice", lo_, ln, 1)] + [("slice", 0, s, 1) for s in a._shape[1:]])
        return SymList(SymSeq(iadd(m, 1), get))

    array_split = split

    @staticmethod
    def vectorize(f):
        def g(*xs):
            arrs = [as_arr(x) for x in xs]
            sh, rds = broadcast(arrs)
            return Arr(sh, lambda i: raw(f(*[wrap(r(i)) for r in rds])), None, "f")
        return g

    @staticmethod
    def errstate(**kw):
        import contextlib
        return contextlib.nullcontext()

    def __getattr__(self, name):
        raise Unsupported("numpy." + name)


def _real(v):
    return to_real(v) if is_sym(v) else Fraction(v)


def _or(xs):
    r = False
    for x in xs:
        r = ror_(r, x)
    return r


def _and(xs):
    r = True
    for x in xs:
        r = rand_(r, x)
    return r


def as_np(x):
    return x if isinstance(x, (Arr, Scalar)) else (as_arr(x) if isinstance(x, (list, tuple)) else x)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(raw(x) for x in s)
    return (raw(s),)


def member(b):
    """Membership predicate of an index array (positions or a range)."""
    if b.positions is not None:
        p = b.positions
        return lambda j: rand_(rand_(rcmp(">=", j, 0), rcmp("<", j, p.n0)), p.mask(j))
    rd = b.reader()
    probe = z3.Int(ctx().name("probe"))
    v = rd((probe,)) if b.ndim == 1 else None
    if v is not None and isz(v) and v.eq(probe):
        return lambda j: rand_(rcmp(">=", j, 0), rcmp("<", j, b._shape[0]))
    raise Unsupported("membership in a general symbolic array")


def set_op(a, b, both):
    flat = lambda x: x if x.ndim == 1 else x[0] if x.ndim == 2 and not isz(x._shape[0]) and x._shape[0] == 1 else x.ravel()
    a, b = flat(a), flat(b)
    if not isz(a._shape[0]) and not isz(b._shape[0]) and a.positions is None and b.positions is None:
        xs = [raw(a.at(i)) for i in range(a._shape[0])]
        ys = [raw(b.at(i)) for i in range(b._shape[0])]
        if not any(isz(v) for v in xs + ys):
            return NPNS._ints(sorted(set(xs) & set(ys)))
    ma, mb = member(a), member(b)
    n0 = a.positions.n0 if a.positions is not None else (b.positions.n0 if b.positions is not None else a._shape[0])
    return Positions(lambda j: rand_(ma(j), mb(j)), n0).array()


NP = NPNS()
