"""Symbolic Python values: the real code of /repo computes with these.

A *raw* value is bool | int | Fraction | z3 term (Bool, Int, Real).  `wrap`
turns a raw value into what the program sees: bool, int, Num, SymInt, SymBool.
Every real number is exact (rational or symbolic); every comparison of a
symbolic value forks the execution when its truth is demanded."""
import math
from fractions import Fraction
import z3
from . import core
from .core import Unsupported, is_sym, to_real, to_int, to_bool, fold
from .poly import SIN, COS, TAN, SQRT, ACOS, ASIN, ATAN, ATAN2, EXP, LOG, POW, PI_Q, R, I

B = z3.BoolSort()
ROUND = z3.Function("round", R, I)
MODF = z3.Function("modf", R, R, R)      # x - y*floor(x/y) for non-constant y


def ctx():
    return core.CTX


# ------------------------------------------------------------------ raw ops ---
def kind(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return "b"
    if isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int()):
        return "i"
    if isinstance(v, (Fraction, z3.ArithRef)):
        return "f"
    return "o"


def raw(v):
    """program value -> raw"""
    if isinstance(v, (bool, int, Fraction)) or is_sym(v):
        return v
    if isinstance(v, (Num, SymInt, SymBool)):
        return v.v
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise Unsupported("non-finite constant")
        return Fraction(repr(v))
    if hasattr(type(v), "_pv_scalar__"):
        return v._pv_scalar__()
    return None


def wrap(v):
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, Fraction):
        return Num(v)
    if is_sym(v):
        v = fold(v)
        if not is_sym(v):
            return wrap(v)
        if isinstance(v, z3.BoolRef):
            return SymBool(v)
        if isinstance(v, z3.ArithRef):
            return SymInt(v) if v.is_int() else Num(v)
        raise Unsupported("sort %s" % v.sort())
    return v


def _num(v):
    return int(v) if isinstance(v, bool) else v


def _arith(a, b):
    """Common kind for + - *: returns ('c'|'i'|'f', a, b)."""
    a, b = _num(a), _num(b)
    if isinstance(a, z3.BoolRef):
        a = to_int(a)
    if isinstance(b, z3.BoolRef):
        b = to_int(b)
    if not is_sym(a) and not is_sym(b):
        return "c", a, b
    if kind(a) == "i" and kind(b) == "i":
        return "i", to_int(a), to_int(b)
    return "f", to_real(a), to_real(b)


def radd(a, b):
    k, x, y = _arith(a, b)
    if k == "c":
        return x + y
    if not is_sym(a) and a == 0 and kind(b) == ("i" if k == "i" else "f"):
        return b
    if not is_sym(b) and b == 0 and kind(a) == ("i" if k == "i" else "f"):
        return a
    return x + y


def rsub(a, b):
    k, x, y = _arith(a, b)
    if k == "c":
        return x - y
    if not is_sym(b) and b == 0 and kind(a) == ("i" if k == "i" else "f"):
        return a
    return x - y


def rmul(a, b):
    k, x, y = _arith(a, b)
    if k == "c":
        return x * y
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            if p == 0:
                return 0 if k == "i" else Fraction(0)
            if p == 1 and kind(q) == ("i" if k == "i" else "f"):
                return q
    return x * y


def rneg(a):
    a = _num(a)
    if isinstance(a, z3.BoolRef):
        a = to_int(a)
    return -a


def rdiv(a, b, partial=None):
    """True division; the caller has dealt with a zero divisor."""
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            return z3.Real(ctx().name("div0"))
        return Fraction(a) / Fraction(b)
    if not is_sym(b) and b == 1:
        return to_real(a)
    if not is_sym(b) and b != 0:
        return to_real(a) * core.rat(Fraction(1) / Fraction(b))
    return to_real(a) / to_real(b)


def rfloor(a):
    a = _num(a)
    if not is_sym(a):
        return math.floor(a)
    if kind(a) == "i":
        return a
    a = z3.simplify(a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return fold(a.arg(0))
    r = int_ratio(a)
    if r is not None and r[1] > 1:
        return fold(r[0] / z3.IntVal(r[1]))
    return z3.ToInt(a)


def int_ratio(a):
    """(integer term, positive integer) whose quotient is a, if a is linear over integers."""
    terms, const = [], Fraction(0)
    stack = [(Fraction(1), a)]
    while stack:
        k, t = stack.pop()
        d = t.decl().kind()
        if z3.is_rational_value(t):
            const += k * t.as_fraction()
        elif d == z3.Z3_OP_TO_REAL:
            terms.append((k, t.arg(0)))
        elif d == z3.Z3_OP_ADD:
            stack.extend((k, x) for x in t.children())
        elif d == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            stack.append((k * t.arg(0).as_fraction(), t.arg(1)))
        elif d == z3.Z3_OP_UMINUS:
            stack.append((-k, t.arg(0)))
        else:
            return None
    if not terms:
        return None
    den = const.denominator
    for k, _t in terms:
        den = den * k.denominator // math.gcd(den, k.denominator)
    num = z3.IntVal(int(const * den))
    for k, t in terms:
        num = num + int(k * den) * t
    return z3.simplify(num), den


def rfloordiv(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        r = a // b
        return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
    if kind(a) == "i" and kind(b) == "i":
        if not is_sym(b) and b > 0:
            return to_int(a) / to_int(b)
        return z3.ToInt(to_real(a) / to_real(b))
    q = rfloor(rdiv(a, b))
    return to_real(q) if is_sym(q) else Fraction(q)


def rmod(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        return a % b
    if kind(a) == "i" and kind(b) == "i" and not is_sym(b) and b > 0:
        return to_int(a) % to_int(b)
    return rsub(a, rmul(b, rfloordiv(a, b)))


def rpow(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(b):
        if isinstance(b, Fraction) and b.denominator == 1:
            n = int(b)
        elif isinstance(b, int):
            n = b
        else:
            n = None
        if n is not None:
            if not is_sym(a):
                if n >= 0:
                    return a ** n if isinstance(b, int) else Fraction(a) ** n
                return Fraction(a) ** n if a else z3.Real(ctx().name("div0"))
            if n == 0:
                return 1 if kind(a) == "i" and isinstance(b, int) else Fraction(1)
            if abs(n) <= 12:
                p = a
                for _ in range(abs(n) - 1):
                    p = rmul(p, a)
                return p if n > 0 else rdiv(1, p)
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return rsqrt(a)
    if not is_sym(a) and not is_sym(b):
        if a == 0:
            return Fraction(0)
    if not is_sym(a) and a == 1:
        return Fraction(1)
    return POW(to_real(a), to_real(b))


def rsqrt(a):
    a = _num(a)
    if not is_sym(a):
        f = Fraction(a)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    return SQRT(to_real(a))


def rfn(name, f, at0=None):
    def g(a):
        a = _num(a)
        if not is_sym(a) and a == 0 and at0 is not None:
            return Fraction(at0)
        return f(to_real(a))
    return g


rsin, rcos, rtan = rfn("sin", SIN, 0), rfn("cos", COS, 1), rfn("tan", TAN, 0)
rasin, ratan = rfn("arcsin", ASIN, 0), rfn("arctan", ATAN, 0)
rexp, rlog = rfn("exp", EXP, 1), rfn("log", LOG)


def racos(a):
    a = _num(a)
    if not is_sym(a) and a == 1:
        return Fraction(0)
    if not is_sym(a) and a == -1:
        return PI_Q
    return ACOS(to_real(a))


def ratan2(y, x):
    if not is_sym(y) and not is_sym(x) and y == 0:
        if x >= 0:
            return Fraction(0)
        return PI_Q
    return ATAN2(to_real(y), to_real(x))


def rcmp(op, a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if op in ("==", "!=") and isinstance(a, (z3.BoolRef,)) and isinstance(b, (bool, z3.BoolRef)):
        e = to_bool(a) == to_bool(b)
        return e if op == "==" else z3.Not(e)
    if isinstance(a, z3.BoolRef):
        a = to_int(a)
    if isinstance(b, z3.BoolRef):
        b = to_int(b)
    if kind(a) == "i" and kind(b) == "i":
        x, y = to_int(a), to_int(b)
    else:
        x, y = to_real(a), to_real(b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
            "==": lambda: x == y, "!=": lambda: x != y}[op]()


def rite(c, a, b):
    c = fold(c)
    if isinstance(c, bool):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and type(a) == type(b) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return z3.If(c, to_bool(a), to_bool(b))
    if ka in "bi" and kb in "bi":
        return z3.If(c, to_int(a), to_int(b))
    if "o" in (ka, kb):
        raise Unsupported("conditional object")
    return z3.If(c, to_real(a), to_real(b))


def rabs(a):
    if not is_sym(a):
        return abs(_num(a))
    return rite(rcmp(">=", a, 0), a, rneg(a))


def rsign(a):
    if not is_sym(a):
        a = _num(a)
        return type(a)((a > 0) - (a < 0))
    return rite(rcmp(">", a, 0), Fraction(1), rite(rcmp("<", a, 0), Fraction(-1), Fraction(0)))


def rmax(a, b):
    return rite(rcmp(">=", a, b), a, b)


def rmin(a, b):
    return rite(rcmp("<=", a, b), a, b)


def rtrunc(a):
    if not is_sym(a):
        return math.trunc(_num(a))
    if kind(a) == "i":
        return a
    c = ctx()
    if c is not None and c.implied(to_real(a) >= 0):
        return rfloor(a)
    return rite(rcmp(">=", a, 0), rfloor(a), rneg(rfloor(rneg(a))))


def rround(a):
    if not is_sym(a):
        return round(_num(a))
    if kind(a) == "i":
        return a
    a = z3.simplify(a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return fold(a.arg(0))
    return ROUND(to_real(a))


def rnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(to_bool(a))


def rand_(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def ror_(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def rtruth(v):
    """raw -> raw bool"""
    if kind(v) == "b":
        return v
    return rcmp("!=", v, 0)


# --------------------------------------------------------------- formatting ---
class Token:
    """A formatted symbolic value inside a Python string."""

    def __init__(self, value, spec, conv):
        self.value = value
        self.spec = spec
        self.conv = conv

    def __repr__(self):
        return "{%s:%s}" % (self.value, self.spec)


OPEN, CLOSE = "\ue000", "\ue001"


def token(value, spec="", conv=""):
    c = ctx()
    k = (value.get_id() if is_sym(value) else value, spec, conv)
    if k not in c.tokens:
        c.tokens[k] = len(c.token_list)
        c.token_list.append(Token(value, spec, conv))
    return "%s%d%s" % (OPEN, c.tokens[k], CLOSE)


def pieces(s):
    """Split a string into literal strings and Tokens."""
    out = []
    rest = s
    while OPEN in rest:
        a, rest = rest.split(OPEN, 1)
        k, rest = rest.split(CLOSE, 1)
        if a:
            out.append(a)
        out.append(ctx().token_list[int(k)])
    if rest:
        out.append(rest)
    return out


def fmt_number(v, spec, conv):
    if is_sym(v):
        return token(v, spec, conv)
    if isinstance(v, Fraction):
        f = float(v)
        return format(f, spec) if conv == "" and spec else (repr(f))
    return format(v, spec)


# ------------------------------------------------------------------ scalars ---
class Scalar:
    __slots__ = ("v",)
    __array_priority__ = 0

    def __init__(self, v):
        self.v = v

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return fmt_number(self.v, spec, "")

    def __str__(self):
        return fmt_number(self.v, "", "s")

    def __repr__(self):
        return fmt_number(self.v, "", "s")

    def __hash__(self):
        if is_sym(self.v):
            raise Unsupported("hash of a symbolic number")
        return hash(self.v)

    def __bool__(self):
        return ctx().truth(self.v)

    def __index__(self):
        if isinstance(self.v, int):
            return int(self.v)
        if isinstance(self, SymInt):
            return ctx().concretize(self.v)
        raise TypeError("float object cannot be interpreted as an integer")

    def __float__(self):
        raise Unsupported("conversion of a symbolic number by the runtime")

    __int__ = __float__

    def _bin(self, o, f, swap=False):
        from .arr import Arr, arr_bin
        if isinstance(o, Arr):
            return arr_bin(f, o, self) if swap else arr_bin(f, self, o)
        r = raw(o)
        if r is None:
            return NotImplemented
        return wrap(f(r, self.v) if swap else f(self.v, r))

    def __add__(self, o): return self._bin(o, radd)
    def __radd__(self, o): return self._bin(o, radd, True)
    def __sub__(self, o): return self._bin(o, rsub)
    def __rsub__(self, o): return self._bin(o, rsub, True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return sym_repeat(o, self)
        return self._bin(o, rmul)
    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return sym_repeat(o, self)
        return self._bin(o, rmul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, s_floordiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting of a symbolic value")
        return self._bin(o, s_mod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __neg__(self): return wrap(rneg(self.v))
    def __pos__(self): return self
    def __abs__(self): return wrap(rabs(self.v))

    def _cmp(self, op, o):
        from .arr import Arr, arr_bin
        if isinstance(o, Arr):
            return arr_bin(lambda a, b: rcmp(op, a, b), self, o)
        r = raw(o)
        if r is None:
            return NotImplemented
        return wrap(rcmp(op, self.v, r))

    def __lt__(self, o): return self._cmp("<", o)
    def __le__(self, o): return self._cmp("<=", o)
    def __gt__(self, o): return self._cmp(">", o)
    def __ge__(self, o): return self._cmp(">=", o)
    def __eq__(self, o): return self._cmp("==", o)
    def __ne__(self, o): return self._cmp("!=", o)

    def __round__(self, n=None):
        return sym_round(self, n)

    def __floor__(self): return wrap(rfloor(self.v))
    def __ceil__(self): return wrap(rneg(rfloor(rneg(self.v))))
    def __trunc__(self): return wrap(rtrunc(self.v))

    # numpy scalar look
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def real(self): return self
    def item(self): return self
    def copy(self): return self
    def astype(self, t):
        from . import npmodel
        return npmodel.cast(self, t)
    def max(self): return self
    def min(self): return self
    def sum(self): return self
    def conjugate(self): return self


def sym_round(x, n=None):
    v = raw(x)
    if n is None:
        return wrap(rround(v))
    k = raw(n)
    if is_sym(k):
        raise Unsupported("round to symbolic digits")
    s = 10 ** abs(k)
    if k >= 0:
        r = rround(rmul(v, s))
        return wrap(rdiv(to_real(r) if is_sym(r) else Fraction(r), s))
    r = rround(rdiv(v, s))
    return wrap(rmul(to_real(r) if is_sym(r) else Fraction(r), s))


def sym_repeat(o, n):
    v = n.v
    if isinstance(v, int):
        return o * v
    if isinstance(o, str):
        if not o:
            return ""
        return token(v, o, "rep")
    from .seq import SymList
    return SymList.repeat(o, v)


def s_div(a, b):
    if ctx().truth(rcmp("==", b, 0)):
        if ctx().np_scalars:
            return ctx().nonfinite("division by zero")
        raise ZeroDivisionError("float division by zero")
    return rdiv(a, b)


def s_floordiv(a, b):
    if ctx().truth(rcmp("==", b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    return rfloordiv(a, b)


def s_mod(a, b):
    if ctx().truth(rcmp("==", b, 0)):
        raise ZeroDivisionError("float modulo")
    return rmod(a, b)


def s_pow(a, b):
    if is_sym(b) and kind(a) == "f" and kind(b) == "i":
        b = to_real(b)
    if not is_sym(b) and b < 0 and ctx().truth(rcmp("==", a, 0)):
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return rpow(a, b)


class Num(Scalar):
    """A real number (a Python float or numpy float64, taken as exact)."""
    __slots__ = ()

    def is_integer(self):
        return wrap(rcmp("==", self.v, rfloor(self.v)))


class SymInt(Scalar):
    __slots__ = ()

    def _int(self, o, f):
        raise Unsupported("bit operation on a symbolic integer")
    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = lambda self, o: self._int(o, None)


class SymBool(Scalar):
    __slots__ = ()

    def _b(self, o, f):
        from .arr import Arr, arr_bin
        if isinstance(o, Arr):
            return arr_bin(f, self, o)
        r = raw(o)
        if r is None or kind(r) != "b":
            return NotImplemented
        return wrap(f(self.v, r))

    def __and__(self, o): return self._b(o, rand_)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, ror_)
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, lambda a, b: rcmp("!=", to_bool(a), b))
    def __invert__(self): return wrap(rnot(self.v))
    def any(self): return self
    def all(self): return self


class Opaque:
    """A value about which nothing is known except its identity."""

    def __init__(self, name, **kw):
        self._name = name
        self.__dict__.update(kw)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<opaque %s>" % self._name
