"""What the harnesses share: symbolic arguments and specification vocabulary."""
from fractions import Fraction
import z3
from pyvc import core, sym, arr, load, npmodel, seq, loops
from pyvc.core import Unsupported, PathEnd, is_sym, fold, to_real, rat
from pyvc.sym import raw, wrap, Num, SymInt, SymBool, radd, rsub, rmul, rdiv, rneg, rcmp, rmod, rite, rabs, rfloor, rsqrt
from pyvc.arr import Arr, sym_array
from pyvc.load import World
from pyvc.poly import PI, PI_Q, SIN, COS, SQRT, ACOS, ASIN, ATAN2
from vc.base import unit

AND, OR, NOT, IMP = z3.And, z3.Or, z3.Not, z3.Implies


def F(x):
    return Fraction(str(x))


def length(c, lo=1, name="n"):
    n = c.int(name)
    c.assume(n >= lo)
    return n


def eq(a, b):
    return rcmp("==", raw(a), raw(b))


def el(a, *idx):
    """Element of an array or scalar as a raw term."""
    if isinstance(a, Arr):
        return raw(a.at(*idx))
    return raw(a)


def shape_is(c, name, a, *dims):
    ok = isinstance(a, Arr) and len(a.shape) == len(dims)
    if not c.holds(name, ok, "result is %r" % (a,)):
        return False
    for x, y in zip(a.shape, dims):
        c.prove(name, rcmp("==", raw(x), y))
    return True


def raises(c, name, exc, f):
    """f must raise exc on every path."""
    try:
        r = f()
    except exc:
        c.holds(name, True)
        return
    except Exception as e:
        c.fail(name, "raised %s instead of %s" % (type(e).__name__, getattr(exc, "__name__", exc)))
        return
    c.fail(name, "returned instead of raising %s" % getattr(exc, "__name__", exc))
