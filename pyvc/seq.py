"""Python sequences of symbolic length."""
import z3
from .core import Unsupported, is_sym, fold, to_int, to_bool
from .sym import raw, wrap, rcmp, rite, ctx
from . import arr as _arr
from .arr import isz, iadd, isub, imul


class SymSeq:
    """Immutable: get(k) is the k-th element (a program value)."""

    def __init__(self, n, get):
        self.n = n
        self._get = get
        self.cache = {}

    def get(self, k):
        key = k if not isz(k) else ("z", k.get_id())
        if key not in self.cache:
            c = ctx()
            local = c.local if c is not None else 0
            v = self._get(k)
            if c is not None and c.local != local:
                return v        # known under the present guards only
            self.cache[key] = (k, v)
        return self.cache[key][1]


class SymList:
    """A Python list whose length may be symbolic."""
    __hash__ = None

    def __init__(self, seq):
        self.seq = seq

    @staticmethod
    def repeat(lst, n):
        lst = list(lst)
        if len(lst) != 1:
            raise Unsupported("list repetition")
        n2 = rite(rcmp("<", n, 0), 0, n)
        return SymList(SymSeq(n2, lambda k: lst[0]))

    def _pv_seq__(self):
        return self.seq

    def _pv_len__(self):
        return self.seq.n

    def __len__(self):
        if isz(self.seq.n):
            raise Unsupported("len() of a symbolic list through the runtime")
        return self.seq.n

    def __bool__(self):
        return ctx().truth(rcmp("!=", self.seq.n, 0))

    def __iter__(self):
        n = self.seq.n
        if isz(n):
            raise Unsupported("iteration over a symbolic list outside a loop")
        for k in range(n):
            yield self.seq.get(k)

    def __getitem__(self, key):
        n = self.seq.n
        if isinstance(key, slice):
            if key.step not in (None, 1):
                raise Unsupported("slice step of a symbolic list")
            st, ln, _ = _arr.Arr.norm_slice(None, key, n)
            s = self.seq
            return SymList(SymSeq(ln, lambda k: s.get(iadd(k, st))))
        r = raw(key)
        if r is None:
            r = key.__index__()
        return self.seq.get(_arr.Arr.norm_int(None, r, n))

    def __setitem__(self, key, value):
        r = _arr.Arr.norm_int(None, raw(key), self.seq.n)
        old = self.seq
        self.seq = SymSeq(old.n, lambda k: _arr.rite_obj(rcmp("==", k, r), value, old.get(k)))

    def append(self, v):
        old = self.seq
        n = old.n
        def get(k):
            if isz(k) and ctx().trust_index(k, n):
                return old.get(k)
            cond = rcmp("==", k, n)
            cond = fold(z3.simplify(cond)) if isz(cond) else cond
            return v if cond is True else old.get(k) if cond is False else _arr.rite_obj(cond, v, old.get(k))
        self.seq = SymSeq(iadd(n, 1), get)
        self.seq.prev, self.seq.value = old, v

    def __contains__(self, x):
        try:
            self.index(x)
            return True
        except ValueError:
            return False

    def index(self, x):
        """The first place that holds x."""
        c = ctx()
        n, get = self.seq.n, self.seq.get
        rx = ident(x)
        if not isz(n):
            for k in range(n):
                if ident(get(k)) is None or rx is None:
                    if get(k) is not x:
                        raise Unsupported("index of an object in a symbolic list")
                    return k
                if c.truth(rcmp("==", ident(get(k)), rx)):
                    return k
            raise ValueError("%s is not in list")
        if rx is None:
            raise Unsupported("index of an object in a symbolic list")
        is_ = lambda k: to_bool(rcmp("==", ident(get(k)), rx))
        k = c.int("at")
        if isz(rx):
            c.register_index(rx, n)
        if c.branch(c.bool("found")):
            c.assume(z3.And(k >= 0, k < to_int(n)))
            c.register_index(k, n)
            c.assume(is_(k))
            c.assume_forall(n, lambda j: z3.Implies(to_int(j) < k, z3.Not(is_(j))))
            return wrap(k)
        c.assume_forall(n, lambda j: z3.Not(is_(j)))
        raise ValueError("%s is not in list")

    def pop(self, k=-1):
        v = self[k]
        k = _arr.Arr.norm_int(None, raw(k), self.seq.n)
        self._without(k)
        return v

    def __delitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("deletion of a slice of a symbolic list")
        self.pop(k)

    def remove(self, x):
        self._without(raw(self.index(x)))

    def _without(self, k):
        old = self.seq
        self.seq = SymSeq(isub(old.n, 1), lambda j: _arr.rite_obj(rcmp("<", j, k), old.get(j), old.get(iadd(j, 1))))

    def extend(self, o):
        self.seq = self.__add__(o).seq

    def copy(self):
        return SymList(self.seq)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        s = self.seq
        return SymList(SymSeq(s.n, lambda k: copy.deepcopy(s.get(k))))

    def reverse(self):
        s = self.seq
        self.seq = SymSeq(s.n, lambda k: s.get(isub(isub(s.n, 1), k)))

    def __add__(self, o):
        o = as_seq(o)
        s = self.seq

        def get(k):
            return _arr.rite_obj(rcmp("<", k, s.n), s.get(k), o.get(isub(k, s.n)))
        return SymList(SymSeq(iadd(s.n, o.n), get))

    def __radd__(self, o):
        return SymList(as_seq(o)).__add__(self)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic lists")

    def __str__(self):
        return "<list>"


def ident(x):
    """What equality of x means: its value, or the name of an object known by name."""
    r = getattr(type(x), "_pv_ident", None)
    return raw(x) if r is None else x._pv_ident


def as_seq(x):
    """A finite iterable as a SymSeq, or None."""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, _arr.Arr):
        if not x._shape:
            raise TypeError("iteration over a 0-d array")
        return SymSeq(x._shape[0], lambda k: x[wrap(k)])
    if hasattr(x, "_pv_seq__"):
        return x._pv_seq__()
    if isinstance(x, (list, tuple)):
        x = list(x)
        return SymSeq(len(x), lambda k: _arr.pick(x, k))
    it = own_iter(x)
    return as_seq(it) if it is not None else None


def own_iter(x):
    """What the __iter__ of a class of the code under verification returns, when that is a symbolic sequence."""
    if type(x).__module__.startswith("celest") and hasattr(type(x), "__iter__"):
        it = type(x).__iter__(x)
        if isinstance(it, _arr.Arr) or hasattr(it, "_pv_seq__"):
            return it
    return None


def is_symbolic_iter(x):
    """Does iterating x need an inductive argument?"""
    if isinstance(x, _arr.Arr):
        return bool(x._shape) and isz(x._shape[0]) and ctx().known_value(x._shape[0]) is None
    if hasattr(x, "_pv_seq__"):
        n = x._pv_seq__().n
        return isz(n) and ctx().known_value(n) is None
    it = own_iter(x)
    return it is not None and is_symbolic_iter(it)


def concrete_iter(x):
    if isinstance(x, _arr.Arr):
        return iter(x)
    if hasattr(x, "_pv_seq__"):
        s = x._pv_seq__()
        n = ctx().known_value(s.n) if isz(s.n) else s.n
        return (s.get(k) for k in range(n))
    it = own_iter(x)
    if it is not None:
        return concrete_iter(it)
    return iter(x)


class SymRange:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step
        if step == 1:
            n = isub(b, a)
        elif step == -1:
            n = isub(a, b)
        else:
            raise Unsupported("range step")
        self.n = fold(z3.simplify(z3.If(to_int(n) < 0, z3.IntVal(0), to_int(n)))) if isz(n) else max(0, n)
        # the usual case: a bound known to be non-negative
        if isz(n) and ctx().implied(to_int(n) >= 0):
            self.n = n

    def _pv_seq__(self):
        return SymSeq(self.n, lambda k: wrap(iadd(self.a, k) if self.step == 1 else isub(self.a, k)))

    def _pv_len__(self):
        return self.n

    def __iter__(self):
        return concrete_iter(self)

    def __getitem__(self, k):
        return SymList(self._pv_seq__())[k]


class SymView:
    """zip / enumerate / map / reversed of symbolic sequences."""

    def __init__(self, seq):
        self._seq = seq

    def _pv_seq__(self):
        return self._seq

    def _pv_len__(self):
        return self._seq.n

    def __iter__(self):
        if isz(self._seq.n) and ctx().known_value(self._seq.n) is None:
            raise Unsupported("iteration over a symbolic sequence outside a loop")
        return concrete_iter(self)
