"""Loads the real modules of /repo for verification.

Every module is parsed from /repo's current source on every run and executed
by CPython itself after a mechanical rewrite that changes no statement's
meaning over exact arithmetic:
  * a float literal becomes the rational number it denotes;
  * `/` and `**` go to helpers (exact on integers), `==`, `!=`, `in` go to
    helpers that understand formatted symbolic values inside strings;
  * comprehensions over one iterable go to a helper that accepts iterables of
    symbolic length;
  * `for` and `while` are bracketed with hooks, which do nothing for loops
    over concrete data and cut the loop for induction otherwise;
  * builtins (len, range, zip, isinstance, int, float, round, max, ...), numpy,
    math and random are the models of this package.
Nothing is dropped; docstrings and annotations stay where they are."""
import ast
import builtins
import importlib
import os
import sys
import types
from fractions import Fraction
import z3
from . import core, sym, arr, npmodel, seq
from .core import Unsupported, is_sym, PathEnd, fold, to_int, to_real
from .sym import raw, wrap, kind, Num, SymInt, SymBool, Scalar, ctx
from .arr import Arr, isz
from . import loops
from .seq import SymList, SymSeq, SymRange, SymView, as_seq, is_symbolic_iter, concrete_iter

REPO = os.environ.get("PYVC_REPO", "/repo")


# ------------------------------------------------------------------ rewriting ---
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = [modname]
        self.loopno = [0]
        self.scopes = [None]
        self.nest = None            # functions to define before the present statement; None where a name may be bound inside an expression
        self.made = 0

    def visit(self, n):
        old = self.nest
        if isinstance(n, ast.stmt):
            self.nest = [] if len(self.scopes) > 1 and self.scopes[-1] is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.While)) else None
        elif isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.SetComp, ast.DictComp)) or isinstance(n, ast.ListComp) and len(n.generators) == 1:
            self.nest = None
        r = super().visit(n)
        made, self.nest = self.nest, old
        if isinstance(n, ast.stmt) and made:
            return made + (r if isinstance(r, list) else [] if r is None else [r])
        return r

    def call(self, name, *args):
        return ast.Call(ast.Name("_pv_" + name, ast.Load()), list(args), [])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return self.call("q", ast.Constant(repr(n.value)))
        return n

    def visit_JoinedStr(self, n):
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v = ast.FormattedValue(self.call("fmt", self.visit(v.value), ast.Constant(v.conversion),
                                                 self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant("")), -1, None)
            vals.append(v)
        return ast.JoinedStr(vals)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in STRM:
            return ast.copy_location(ast.Call(ast.Name("_pv_strm", ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and len(self.scopes) > 1:
            return ast.copy_location(ast.Subscript(self.call("item", n.value), n.slice, n.ctx), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return self.call("div", n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return self.call("pow", n.left, n.right)
        if isinstance(n.op, ast.Mod):
            return self.call("mod", n.left, n.right)
        if isinstance(n.op, ast.Mult):
            return self.call("mul", n.left, n.right)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        name = {ast.Div: "idiv", ast.Pow: "ipow"}.get(type(n.op))
        if name and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(n.target.id, ast.Store())],
                                                self.call(name, ast.Name(n.target.id, ast.Load()), n.value)), n)
        if name and isinstance(n.target, ast.Attribute):
            tgt_l = ast.Attribute(n.target.value, n.target.attr, ast.Load())
            return ast.copy_location(ast.Assign([n.target], self.call(name, tgt_l, n.value)), n)
        if name and isinstance(n.target, ast.Subscript):
            tgt_l = ast.Subscript(n.target.value, n.target.slice, ast.Load())
            return ast.copy_location(ast.Assign([n.target], self.call(name, tgt_l, n.value)), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            name = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}.get(type(n.ops[0]))
            if name in ("is", "isnot") and (isinstance(n.left, ast.Constant) or isinstance(n.comparators[0], ast.Constant)):
                return n
            if name:
                return self.call(name, n.left, n.comparators[0])
            return n
        if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)) for o in n.ops):
            ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "=="}
            lams = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), c) for c in n.comparators[1:]]
            return self.call("chain", ast.Constant(tuple(ops[type(o)] for o in n.ops)), n.left, n.comparators[0], *lams)
        return n

    def _comp(self, n, how):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            if all(isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Store, ast.Load)) for x in ast.walk(g.target)):
                # inner functions taking the element and unpacking it
                def lam(body):
                    args = ast.arguments([], [ast.arg("_pve")], None, [], [], None, [])
                    if isinstance(g.target, ast.Name):
                        args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
                        return ast.Lambda(args, body)
                    inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
                    return ast.Lambda(args, ast.Call(inner, [ast.Starred(self.call("unpack", ast.Name("_pve", ast.Load()),
                                      ast.Constant(ast.unparse(g.target))), ast.Load())], []))
                cond = None
                for c in g.ifs:
                    cond = c if cond is None else ast.BoolOp(ast.And(), [cond, c])
                return self.call(how, lam(n.elt), g.iter, lam(cond) if cond is not None else ast.Constant(None))
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load):
            return self.call("emptylist")
        return n

    def visit_ListComp(self, n):
        if len(n.generators) > 1 and not any(g.is_async for g in n.generators) and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and self.nest is not None:
            return self._nested(n)
        return self._comp(n, "listcomp")

    def _nested(self, n):
        """A list comprehension over several iterables as the loops it stands for."""
        self.made += 1
        name = "_pvcomp%d" % self.made
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("_pvr", ast.Load()), "append", ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        f = ast.FunctionDef(name, ast.arguments([], [], None, [], [], None, []), [ast.Assign([ast.Name("_pvr", ast.Store())], ast.List([], ast.Load()))] + body + [ast.Return(ast.Name("_pvr", ast.Load()))], [])
        f = ast.fix_missing_locations(ast.copy_location(f, n))
        self.nest.append(self.visit(f))
        return ast.Call(ast.Name(name, ast.Load()), [], [])

    def visit_SetComp(self, n):
        return self.call("mkset", self._comp(ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n), "genexp"))

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.call("mkset", ast.List(n.elts, ast.Load()))

    def visit_GeneratorExp(self, n):
        return self._comp(n, "genexp")

    # -- functions and loops
    def plain_generator(self, n):
        """for T in X: [if C:] yield E  as the generator expression it stands for."""
        ys = [x for x in own_nodes(n) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        if len(ys) != 1:
            return
        last = n.body[-1]
        v = None
        if isinstance(last, ast.Expr) and last.value is ys[0] and isinstance(ys[0], ast.YieldFrom):
            v = ast.Call(ast.Name("iter", ast.Load()), [ys[0].value], [])
        elif isinstance(last, ast.For) and not last.orelse:
            conds, b = [], last.body
            while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                conds.append(b[0].test)
                b = b[0].body
            if len(b) == 2 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue):
                conds.append(ast.UnaryOp(ast.Not(), b[0].test))
                b = b[1:]
            if len(b) == 1 and isinstance(b[0], ast.Expr) and b[0].value is ys[0] and isinstance(ys[0], ast.Yield) and ys[0].value is not None:
                v = ast.GeneratorExp(ys[0].value, [ast.comprehension(last.target, last.iter, conds, 0)])
        if v is not None:
            n.body[-1] = ast.fix_missing_locations(ast.copy_location(ast.Return(v), last))

    def visit_FunctionDef(self, n):
        self.plain_generator(n)
        self.fn.append(n.name)
        self.loopno.append(0)
        declared = set()
        for x in own_nodes(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                declared |= set(x.names)
        self.scopes.append(declared)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.body(n.body)
        self.fn.pop()
        self.loopno.pop()
        self.scopes.pop()
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.loopno.append(0)
        self.scopes.append(None)
        self.generic_visit(n)
        self.fn.pop()
        self.loopno.pop()
        self.scopes.pop()
        return n

    def loop_id(self):
        k = self.loopno[-1]
        self.loopno[-1] += 1
        return ".".join(self.fn) + "#%d" % k

    def assigned(self, node):
        names = []
        for s in node.body:
            for x in [s] + list(own_nodes(s)):
                t = []
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    t = [x.id]
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    t = [x.name]
                for q in t:
                    if q not in names and not q.startswith("__pv"):
                        names.append(q)
        return names

    def havoc(self, var, names):
        if self.scopes[-1] is None or not names:      # module or class level: concrete loops only
            return []
        names = [x for x in names if x not in self.scopes[-1]]
        if not names:
            return []
        h = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                       ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "havoc", ast.Load()),
                                [ast.Constant(tuple(names)), ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
        dels = ast.Expr(ast.Constant(None))
        return [ast.If(ast.Attribute(ast.Name(var, ast.Load()), "cut", ast.Load()), [h], [])]

    def visit_For(self, n):
        names = self.assigned(n)
        tnames = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        lid = self.loop_id()
        var = "_pv_l%d" % (abs(hash(lid)) % 10**8)
        it = self.visit(n.iter)
        body = self.body(n.body)
        orelse = self.body(n.orelse)
        n.target = self.visit(n.target)
        pre = ast.Assign([ast.Name(var, ast.Store())],
                         self.call("for", ast.Constant(lid), it, ast.Constant(tuple(names)), ast.Constant(tuple(tnames))))
        hv = self.havoc(var, names)
        if not hv:
            pre2 = []
        else:
            pre2 = hv
        loop = ast.For(n.target, ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "run", ast.Load()), [], []),
                       body, orelse, None)
        return [ast.copy_location(x, n) for x in [pre] + pre2 + [loop]]

    def visit_While(self, n):
        names = self.assigned(n)
        lid = self.loop_id()
        var = "_pv_l%d" % (abs(hash(lid)) % 10**8)
        test = self.visit(n.test)
        body = self.body(n.body)
        orelse = self.body(n.orelse)
        pre = ast.Assign([ast.Name(var, ast.Store())], self.call("while", ast.Constant(lid), ast.Constant(tuple(names))))
        hv = self.havoc(var, names)
        t = ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "test", ast.Load()),
                     [ast.Lambda(ast.arguments([], [], None, [], [], None, []), test),
                      ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        # while True:  [havoc]  if not test: orelse; break  body
        if orelse:
            if hv:
                raise_ = self.call("unsupported", ast.Constant("while/else"))
                return [ast.Expr(raise_)]
        head = ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "head", ast.Load()),
                                 [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
        loop = ast.While(ast.Constant(True), [head] + hv + [ast.If(ast.UnaryOp(ast.Not(), t), orelse + [ast.Break()], [])]
                         + body, [])
        return [ast.copy_location(x, n) for x in [pre, loop]]


def own_nodes(n):
    """Nodes of a statement without those of nested functions and classes."""
    stack = list(ast.iter_child_nodes(n))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.GeneratorExp,
                              ast.SetComp, ast.DictComp)):
            stack.extend(ast.iter_child_nodes(x))


# ------------------------------------------------------------------- helpers ---
def q(text):
    return Num(Fraction(text))


def h_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Num(Fraction(a, b) if not isinstance(b, bool) else Fraction(a, int(b)))
    return a / b


def h_pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        if a == 0:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return Num(Fraction(a) ** b)
    return a ** b


def h_mul(a, b):
    if isinstance(a, (list, str)) and isinstance(b, Scalar):
        return sym.sym_repeat(a, b)
    if isinstance(b, (list, str)) and isinstance(a, Scalar):
        return sym.sym_repeat(b, a)
    return a * b


def h_mod(a, b):
    if isinstance(a, str):
        return percent(a, b)
    return a % b


import re
SPEC = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")


def percent(fmt, args):
    args = args if isinstance(args, tuple) else (args,)
    if sym.OPEN in fmt:
        ps = sym.pieces(fmt)
        if len(ps) != 1 or ps[0].conv != "format" or len(args) != 1 or not isinstance(args[0], Scalar):
            raise Unsupported("an unknown format")
        return sym.token(raw(args[0]), str(ps[0].value), "formatted")
    if not any(isinstance(a, Scalar) for a in args):
        if not any(isinstance(a, str) and sym.OPEN in a for a in args):
            return fmt % args
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1) or m.group(3) == "*":
            raise Unsupported("format " + fmt)
        a = args[k]
        k += 1
        spec = m.group(0)
        r = raw(a)
        if r is None or not is_sym(r):
            if r is not None:
                r2 = float(r) if isinstance(r, Fraction) else r
                out.append(spec % r2)
            elif isinstance(a, str) and sym.OPEN in a:
                if m.group(4) is None and m.group(3) is None:
                    out.append(a)
                else:
                    out.append(str_token(a, spec))
            else:
                out.append(spec % (a,))
        else:
            out.append(sym.token(r, spec, "%"))
    out.append(fmt[pos:])
    return "".join(out)


def str_token(s, spec):
    """A formatted string operation applied to a string with symbolic parts."""
    m = SPEC.fullmatch(spec)
    if not m or m.group(5) != "s" or m.group(2) not in ("", "-"):
        raise Unsupported("format " + spec)
    if m.group(4) is not None:
        ps = sym.pieces(s)
        f = number_format(ps[0]) if len(ps) == 1 and not isinstance(ps[0], str) else None
        n = int(m.group(4))
        v = to_real(ps[0].value) if f is not None else None
        if f is None or f[1] is not None or f[0] > n or not ctx().implied(z3.And(v >= 0, v < 10**n)):
            raise Unsupported("truncated text of a number")
    return justify(s, "ljust" if m.group(2) else "rjust", int(m.group(3)), " ") if m.group(3) else s


STRM = {"zfill", "ljust", "rjust", "center", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "splitlines", "startswith", "endswith",
        "upper", "lower", "title", "capitalize", "swapcase", "find", "rfind", "partition", "rpartition", "isdigit", "isnumeric", "isalpha", "isspace",
        "encode", "expandtabs", "removeprefix", "removesuffix", "translate", "format", "format_map", "casefold", "isdecimal", "isalnum"}


def h_strm(s, name, *a, **k):
    """A method of a string, possibly with formatted symbolic values inside."""
    if not isinstance(s, str) or (sym.OPEN not in s and not any(isinstance(x, Scalar) or (isinstance(x, str) and sym.OPEN in x) for x in a)) or (name in ("format", "format_map") and sym.OPEN not in s):
        if name == "format" and isinstance(s, str) and any(isinstance(x, str) and sym.OPEN in x for x in list(a) + list(k.values())) and re.search(r"\{[^}]*[:!]", s):
            raise Unsupported("str.format of formatted numbers")
        return getattr(s, name)(*a, **k)
    if k:
        raise Unsupported("str.%s of a formatted number" % name)
    if name in ("ljust", "rjust", "center") and (len(a) == 1 or isinstance(a[1], str) and len(a[1]) == 1):
        return justify(s, name, a[0], a[1] if len(a) > 1 else " ")
    if name == "zfill" and len(a) == 1 and not is_sym(raw(a[0])):
        return zfill(s, raw(a[0]))
    ps = sym.pieces(s)
    if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], str) and sym.OPEN not in a[0]:
        e = ps[0] if name == "startswith" else ps[-1]
        if isinstance(e, str) and (len(e) >= len(a[0]) or not (e.startswith(a[0][:len(e)]) if name == "startswith" else e.endswith(a[0][-len(e):]))):
            return getattr(e, name)(a[0])
        if len(ps) == 1 and e.conv == "text":
            return wrap(z3.Function("%s %r" % (name, a[0]), z3.IntSort(), z3.BoolSort())(e.value))
    raise Unsupported("str.%s of a formatted number" % name)


def justify(s, how, width, fill):
    n, w = raw(b_len(s)), raw(width)
    d = sym.rsub(w, n)
    if how == "center":
        raise Unsupported("centred text")
    if not is_sym(d):
        pad = fill * max(0, d)
    else:
        pad = sym.token(d, fill, "rep")
    return s + pad if how == "ljust" else pad + s


NUMSPEC = re.compile(r"%(0?)(\d*)(?:\.(\d+))?([dif])")


def number_format(t):
    """(zero padding width, decimals or None) of a token that is a plainly formatted number, or None."""
    if t.conv in ("s", "") and not t.spec and sym.kind(t.value) == "i":
        return (0, None)
    spec = t.spec if t.conv == "%" else "%" + t.spec if t.conv == "" else ""
    m = NUMSPEC.fullmatch(spec)
    if not m or (m.group(2) and not m.group(1)) or (m.group(4) == "f") != (m.group(3) is not None) or (m.group(4) != "f" and sym.kind(t.value) != "i"):
        return None
    return (int(m.group(2) or 0), int(m.group(3)) if m.group(4) == "f" else None)


def zfill(s, w):
    ps = sym.pieces(s)
    f = number_format(ps[0]) if len(ps) == 1 and not isinstance(ps[0], str) else None
    if f is None:
        raise Unsupported("zero padding of a text")
    k = max(f[0], w)
    return sym.token(ps[0].value, "%%0%dd" % k if f[1] is None else "%%0%d.%df" % (k, f[1]), "%")


def h_fmt(v, conv, spec):
    if conv == 115:
        v = str(v)
    elif conv in (114, 97):
        if isinstance(v, str) and sym.OPEN in v:
            raise Unsupported("repr of a formatted number")
        v = repr(v)
    if isinstance(v, str) and sym.OPEN in v and spec:
        m = re.fullmatch(r"(?:(.)?([<>]))?(\d+)s?", spec)
        if not m or m.group(3).startswith("0"):
            raise Unsupported("format " + spec)
        return justify(v, "rjust" if m.group(2) == ">" else "ljust", int(m.group(3)), m.group(1) or " ")
    return format(v, spec)


def h_item(v):
    if isinstance(v, str) and sym.OPEN in v:
        raise Unsupported("a part of a formatted number")
    return v


def h_eq(a, b):
    if isinstance(a, str) and isinstance(b, str) and (sym.OPEN in a or sym.OPEN in b):
        return str_eq(a, b)
    return a == b


def h_ne(a, b):
    if isinstance(a, str) and isinstance(b, str) and (sym.OPEN in a or sym.OPEN in b):
        r = str_eq(a, b)
        return (not r) if isinstance(r, bool) else ~r
    return a != b


def str_eq(a, b):
    """Equality of strings with formatted symbolic numbers: literal parts must
    agree and (shortest-repr formatting being injective) the numbers must be equal."""
    if a == b:
        return True
    pa, pb = sym.pieces(a), sym.pieces(b)
    if [p if isinstance(p, str) else (p.spec, p.conv) for p in pa] == \
            [p if isinstance(p, str) else (p.spec, p.conv) for p in pb]:
        r = True
        for x, y in zip(pa, pb):
            if not isinstance(x, str):
                if x.spec or x.conv != "s":
                    raise Unsupported("comparison of formatted numbers")
                r = sym.rand_(r, sym.rcmp("==", x.value, y.value))
        return wrap(r)
    # one side concrete where the other is symbolic
    ta = "".join(p if isinstance(p, str) else "\0" for p in pa)
    tb = "".join(p if isinstance(p, str) else "\0" for p in pb)
    num = r"(-?\d+(?:\.\d+)?(?:e[-+]?\d+)?)"
    for s, t, ps in ((ta, b, pa), (tb, a, pb)):
        if sym.OPEN not in t:
            m = re.fullmatch(num.join(re.escape(x) for x in s.split("\0")), t)
            if not m:
                return False
            r = True
            toks = [p for p in ps if not isinstance(p, str)]
            for tok, g in zip(toks, m.groups()):
                r = sym.rand_(r, sym.rcmp("==", tok.value, Fraction(g)))
            return wrap(r)
    if all(isinstance(p, str) or (not p.spec and p.conv in ("s", "")) for p in pa + pb):
        return words_eq(pa, pb)
    if len(pa) != len(pb):
        # different literal skeletons: a number never contains the separators used here
        return False
    raise Unsupported("comparison of formatted strings")


def words_eq(pa, pb):
    """Strings of blank-separated words; a number's text has no blank."""
    def words(ps):
        out = [[]]
        for p in ps:
            if isinstance(p, str):
                parts = p.split(" ")
                for k, x in enumerate(parts):
                    if k:
                        out.append([])
                    if x:
                        out[-1].append(x)
            else:
                out[-1].append(p)
        return out
    wa, wb = words(pa), words(pb)
    if len(wa) != len(wb):
        return False
    r = True
    for x, y in zip(wa, wb):
        f = word_eq(x, y)
        if f is False:
            return False
        r = sym.rand_(r, f)
    return wrap(r)


def word_eq(x, y):
    """Words that are literal text, a number, or literal text followed by a number."""
    def split(w):
        toks = [k for k, p in enumerate(w) if not isinstance(p, str)]
        if len(toks) > 1:
            raise Unsupported("comparison of formatted strings")
        if not toks:
            return "".join(w), None, ""
        k = toks[0]
        return "".join(w[:k]), w[k], "".join(w[k + 1:])
    (la, ta, sa), (lb, tb, sb) = split(x), split(y)
    if ta is None and tb is None:
        return la == lb
    if sa != sb:
        if ta is None and la.endswith(sb):
            la = la[:len(la) - len(sb)]
        elif tb is None and lb.endswith(sa):
            lb = lb[:len(lb) - len(sa)]
        elif re.search(r"[\w.+-]$", sa) or re.search(r"[\w.+-]$", sb) or sa.endswith(sb) and sb or sb.endswith(sa) and sa:
            raise Unsupported("comparison of formatted strings")
        else:
            return False
    if la == lb:
        if ta is None or tb is None:
            return False                      # a number's text is not empty
        return sym.rcmp("==", ta.value, tb.value)
    if len(la) > len(lb):
        la, ta, lb, tb = lb, tb, la, ta
    if not lb.startswith(la) or ta is None:
        return False
    rest = lb[len(la):]
    if tb is None:
        m = re.fullmatch(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", rest)
        return sym.rcmp("==", ta.value, Fraction(rest)) if m else False
    if re.match(r"-?(\d|$)", rest):
        raise Unsupported("comparison of formatted strings")
    return False


def h_is(a, b):
    if a is b:
        return True
    x, y = getattr(type(a), "_pv_ident", None), getattr(type(b), "_pv_ident", None)
    if x is None or y is None:
        if type(a) is type(b) and (getattr(type(a), "_pv_alias", False) or getattr(a, "ghost", None) is not None):
            raise Unsupported("identity of objects known by symbolic names")
        return False
    return wrap(rcmp("==", a._pv_ident, b._pv_ident))


def h_isnot(a, b):
    r = h_is(a, b)
    return (not r) if isinstance(r, bool) else ~r


def h_in(x, c):
    if isinstance(c, (list, tuple)):
        for y in c:
            if y is x or h_truth(h_eq(y, x)):
                return True
        return False
    return x in c


def h_notin(x, c):
    return not h_in(x, c)


def h_truth(v):
    return bool(v)


def h_chain(ops, a, b, *rest):
    """a op b op c: merged into one condition when all parts are numbers."""
    import operator
    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": h_eq}
    r = f[ops[0]](a, b)
    for op, lam in zip(ops[1:], rest):
        if isinstance(r, bool):
            if not r:
                return False
        elif not isinstance(r, SymBool):
            if not r:
                return r
            r = True
        c = lam()
        s = f[op](b, c)
        if isinstance(r, SymBool) and isinstance(s, (bool, SymBool)):
            r = r & s if isinstance(s, SymBool) else (r if s else False)
        elif isinstance(r, SymBool):
            r = s if r else False
        else:
            r = s
        b = c
    return r


def h_unpack(e, pattern):
    t = ast.parse(pattern + " = 0").body[0].targets[0]
    out = []

    def go(tt, v):
        if isinstance(tt, ast.Name):
            out.append(v)
        else:
            vs = list(concrete_iter(v))
            if len(vs) != len(tt.elts):
                raise ValueError("not enough values to unpack" if len(vs) < len(tt.elts) else "too many values to unpack")
            for a, b in zip(tt.elts, vs):
                go(a, b)
    go(t, e)
    return out


def h_emptylist():
    """[]; a list whose length may become symbolic where loops are cut."""
    if ctx() is not None and ctx().loop_spec is not None and ctx().loop_spec.lists:
        return SymList(SymSeq(0, lambda k: unsupported("element of an empty list")))
    return []


class SymSet:
    """A set with symbolic elements: equality of elements is decided by branching."""

    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if x not in self:
                self.xs.append(x)

    def __contains__(self, x):
        return any(bool(h_eq(x, y)) for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        o = o if isinstance(o, SymSet) else SymSet(o)
        return len(o) == len(self) and all(x in o for x in self.xs)

    __hash__ = None

    def __iter__(self):
        if len(self.xs) > 1:
            raise Unsupported("order of a set")
        return iter(self.xs)

    def pop(self):
        if len(self.xs) != 1:
            raise Unsupported("order of a set")
        return self.xs.pop()


class SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymSet))

    def __eq__(cls, o):
        return cls is o or o is set

    __hash__ = type.__hash__


class SetCtor(metaclass=SetMeta):
    def __new__(cls, xs=()):
        return h_mkset(xs)


def h_mkset(xs=()):
    xs = list(concrete_iter(xs)) if not isinstance(xs, (list, tuple)) else list(xs)
    return SymSet(xs) if any(is_sym(raw(x)) for x in xs) else set(xs)


def h_listcomp(f, it, cond):
    if is_symbolic_iter(it):
        s = as_seq(it)
        f = loops.Frozen(f)
        if cond is not None:
            return filtered(f, s, loops.Frozen(cond))
        return SymList(mapped(f, s))
    return [f(x) for x in concrete_iter(it) if cond is None or cond(x)]


def mapped(f, s):
    r = SymSeq(s.n, lambda k: f(s.get(k)))
    o = getattr(s, "origin", None)
    if o is not None:
        r.origin = (o[0], lambda x: f(o[1](x)), o[2])
    return r


def filtered(f, s, cond):
    def value(k):
        v = raw(cond(s.get(k)))
        if v is None:
            raise Unsupported("filter condition")
        return sym.rtruth(v)

    def mask(k):
        v = ctx().merge(lambda: value(k))
        return value(k) if v is None else v
    p = arr.Positions(mask, s.n)
    r = SymList(SymSeq(p.n, lambda k: f(s.get(p.at(k)))))
    r.positions = p
    r.seq.origin = (s, f, mask)
    return r


def h_genexp(f, it, cond):
    if is_symbolic_iter(it):
        s = as_seq(it)
        f = loops.Frozen(f)
        if cond is not None:
            return filtered(f, s, loops.Frozen(cond))
        return SymView(mapped(f, s))
    return (f(x) for x in concrete_iter(it) if cond is None or cond(x))


# ------------------------------------------------------------------ builtins ---
class TypeModel:
    """int / float / bool / str: callable conversions that also act as types."""

    def __init__(self, name, real, conv, check):
        self.__name__ = name
        self.real = real
        self.conv = conv
        self.check = check

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __repr__(self):
        return "<class '%s'>" % self.__name__

    def __getitem__(self, k):
        return self

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)


def c_int(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, Arr):
        x = x.item()
    r = raw(x)
    if isinstance(x, str) and sym.OPEN in x:
        raise Unsupported("the value of a formatted number")
    if r is None:
        if hasattr(type(x), "__int__") and not isinstance(x, str):
            return x.__int__()
        return int(x)
    return wrap(sym.rtrunc(r))


def c_float(x=0):
    if isinstance(x, Arr):
        x = x.item()
    r = raw(x)
    if r is None:
        if isinstance(x, str):
            if sym.OPEN in x:
                raise Unsupported("the value of a formatted number")
            if x.strip().lower().lstrip("+-") in ("inf", "nan", "infinity"):
                raise Unsupported("non-finite constant")
            return Num(Fraction(x.strip()))
        if hasattr(type(x), "__float__"):
            return x.__float__()
        raise TypeError("float() argument must be a string or a real number")
    return wrap(to_real(r) if is_sym(r) else Fraction(r))


def c_bool(x=False):
    return True if x else False


def c_str(x=""):
    return str(x)


T_INT = TypeModel("int", int, c_int, lambda v: (isinstance(v, (int, SymInt, SymBool))))
T_FLOAT = TypeModel("float", float, c_float, lambda v: isinstance(v, (Num, float)))
T_BOOL = TypeModel("bool", bool, c_bool, lambda v: isinstance(v, (bool, SymBool)))
T_LIST = None


def b_isinstance(v, t):
    if isinstance(t, tuple):
        return any(b_isinstance(v, x) for x in t)
    if isinstance(t, TypeModel):
        return t.check(v)
    if t is npmodel.NPNS.float64:
        return isinstance(v, (Num, float))
    if t is npmodel.NPNS.int64:
        return isinstance(v, SymInt)
    if t is list:
        return isinstance(v, (list, SymList))
    if t is Arr:
        return isinstance(v, Arr)
    if t is object:
        return True
    if isinstance(t, type):
        import numbers
        if t in (numbers.Number, numbers.Real):
            return isinstance(v, (int, Scalar)) 
        if t in (numbers.Integral,):
            return isinstance(v, (int, SymInt))
        if getattr(t, "__module__", "") == "collections.abc" and isinstance(v, (Arr, SymList)):
            return t.__name__ in ("Iterable", "Sized", "Sequence", "Container", "Collection") and (
                t.__name__ != "Sequence" or isinstance(v, SymList))
        return isinstance(v, t)
    if hasattr(t, "__origin__") or hasattr(t, "__args__"):
        return any(b_isinstance(v, x) for x in t.__args__)
    raise Unsupported("isinstance with %r" % (t,))


def b_len(x):
    if hasattr(x, "_pv_len__"):
        return wrap(x._pv_len__())
    if isinstance(x, str) and sym.OPEN in x:
        return str_len(x)
    if hasattr(type(x), "__len__") and not isinstance(x, (list, tuple, str, dict, set)):
        return type(x).__len__(x)
    return len(x)


SLEN = {}


def str_len(s):
    c = ctx()
    total = 0
    for p in sym.pieces(s):
        if isinstance(p, str):
            total = sym.radd(total, len(p))
        elif p.conv == "rep":
            n = sym.rite(sym.rcmp("<", p.value, 0), 0, p.value)
            total = sym.radd(total, sym.rmul(n, len(p.spec)))
        else:
            n = c.token_length(p)
            total = sym.radd(total, n)
    return wrap(total)


def b_range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = (a[0], a[1], a[2] if len(a) > 2 else 1)
    rs = []
    for x in (lo, hi, st):
        r = raw(x)
        if r is None:
            r = x.__index__()
        if kind(r) == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        rs.append(r)
    for k in range(2):
        if is_sym(rs[k]):
            v = ctx().known_value(rs[k])
            rs[k] = v if v is not None else rs[k]
    if not any(is_sym(r) for r in rs):
        return range(*rs)
    return SymRange(rs[0], rs[1], rs[2])


def b_zip(*its, strict=False):
    if any(is_symbolic_iter(i) for i in its):
        ss = [as_seq(i) for i in its]
        if any(s is None for s in ss):
            raise Unsupported("zip of a symbolic and a lazy sequence")
        n = ss[0].n
        for s in ss[1:]:
            if not arr.dim_eq(n, s.n):
                n = sym.rmin(n, s.n)
        return SymView(SymSeq(n, lambda k: tuple(s.get(k) for s in ss)))
    return zip(*[concrete_iter(i) for i in its])


def b_enumerate(it, start=0):
    if is_symbolic_iter(it):
        s = as_seq(it)
        return SymView(SymSeq(s.n, lambda k: (wrap(arr.iadd(k, raw(start))), s.get(k))))
    return enumerate(concrete_iter(it), start)


def b_map(f, *its):
    if any(is_symbolic_iter(i) for i in its):
        z = as_seq(b_zip(*its))
        f = loops.Frozen(f)
        return SymView(SymSeq(z.n, lambda k: f(*z.get(k))))
    return map(f, *[concrete_iter(i) for i in its])


def b_filter(f, it):
    if is_symbolic_iter(it):
        return filtered(lambda x: x, as_seq(it), loops.Frozen(f) if f else (lambda x: x))
    return filter(f, concrete_iter(it))


def b_reversed(it):
    if is_symbolic_iter(it):
        s = as_seq(it)
        return SymView(SymSeq(s.n, lambda k: s.get(arr.isub(arr.isub(s.n, 1), k))))
    if isinstance(it, (Arr, SymList)):
        return reversed(list(concrete_iter(it)))
    return reversed(it)


def b_list(it=()):
    if is_symbolic_iter(it):
        return SymList(as_seq(it))
    return list(concrete_iter(it))


def b_tuple(it=()):
    if is_symbolic_iter(it):
        return SymList(as_seq(it))
    return tuple(concrete_iter(it))


def b_iter(x, *a):
    if a:
        return iter(x, *a)
    if is_symbolic_iter(x):
        return SymView(as_seq(x))
    if isinstance(x, (Arr, SymList, SymView, SymRange)):
        return concrete_iter(x)
    return iter(x)


def b_sorted(it, key=None, reverse=False):
    if is_symbolic_iter(it):
        hook = ctx().sort_hook
        if hook is not None:
            return hook(it, loops.Frozen(key) if key is not None else None, reverse)
        raise Unsupported("sorting a symbolic sequence")
    return sorted(list(concrete_iter(it)), key=key, reverse=bool(reverse))


def _minmax(args, key, default, less):
    if len(args) == 1:
        it = args[0]
        if is_symbolic_iter(it):
            if key is None:
                return seq_extreme(as_seq(it), less, default)
            raise Unsupported("max of a symbolic sequence with a key")
        items = list(concrete_iter(it))
    else:
        items = list(args)
    if not items:
        if default is not NODEF:
            return default
        raise ValueError("max() arg is an empty sequence")
    if key is None and all(raw(i) is not None for i in items):
        r = raw(items[0])
        for x in items[1:]:
            x = raw(x)
            # max keeps the first of equals, as does this
            r = sym.rite(sym.rcmp("<" if less else ">", x, r), x, r)
        return wrap(r)
    best = items[0]
    kb = key(best) if key else best
    for x in items[1:]:
        kx = key(x) if key else x
        if (kx < kb) if less else (kx > kb):
            best, kb = x, kx
    return best


class _NoDef:
    pass


NODEF = _NoDef()


def seq_extreme(s, less, default):
    c = ctx()
    if c.truth(sym.rcmp("==", s.n, 0)):
        if default is NODEF:
            raise ValueError("max() arg is an empty sequence")
        return default
    a = Arr((s.n,), lambda i: raw(s.get(i[0])), None, "f")
    probe = raw(s.get(c.index(s.n, "probe")))
    a._dtype = kind(probe)
    return (npmodel.NP.min if less else npmodel.NP.max)(a)


def b_max(*args, key=None, default=NODEF):
    return _minmax(args, key, default, False)


def b_min(*args, key=None, default=NODEF):
    return _minmax(args, key, default, True)


def b_sum(it, start=0):
    if is_symbolic_iter(it):
        hook = ctx().sum_hook
        if hook is not None:
            return hook(as_seq(it), start)
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for x in concrete_iter(it):
        r = r + x
    return r


def _truth(v):
    """Truth of an element as a term."""
    r = raw(v)
    return sym.rtruth(r) if r is not None else bool(v)


def _truths(s, other):
    """Truth of the elements of a sequence; those a filter drops count as `other`."""
    o = getattr(s, "origin", None)
    if o is None:
        n, value = s.n, lambda k: _truth(s.get(k))
    else:
        src, f, mask = o
        n = src.n

        def value(k):
            m = mask(k)
            if m is False:
                return other
            with ctx().guarded(m):
                v = _truth(f(src.get(k)))
            return sym.rand_(m, v) if not other else sym.ror_(sym.rnot(m), v)

    def at(k):
        v = ctx().merge(lambda: value(k))
        return value(k) if v is None else v
    return n, at


def b_any(it):
    if is_symbolic_iter(it):
        n, at = _truths(as_seq(it), False)
        return npmodel.NP.any(Arr((n,), lambda i: at(i[0]), None, "b"))
    for x in concrete_iter(it):
        if x:
            return True
    return False


def b_all(it):
    if is_symbolic_iter(it):
        n, at = _truths(as_seq(it), True)
        return npmodel.NP.all(Arr((n,), lambda i: at(i[0]), None, "b"))
    for x in concrete_iter(it):
        if not x:
            return False
    return True


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, Arr):
        return npmodel.NP.round(x, n or 0)
    if raw(x) is None:
        return round(x) if n is None else round(x, n)
    return sym.sym_round(x, n)


def b_pow(a, b, m=None):
    if m is not None:
        raise Unsupported("three-argument pow")
    return h_pow(a, b)


def b_divmod(a, b):
    return (a // b, h_mod(a, b))


def b_type(*a):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, Num):
            return T_FLOAT
        if isinstance(v, SymBool) or isinstance(v, bool):
            return T_BOOL
        if isinstance(v, (SymInt, int)) and type(v) in (SymInt, int):
            return T_INT
        if isinstance(v, SymList):
            return list
        return type(v)
    return type(*a)


def b_hasattr(x, n):
    return hasattr(x, n)


def b_callable(x):
    return callable(x)


def b_open(*a, **k):
    h = ctx().open_hook
    if h is None:
        raise Unsupported("open()")
    return h(*a, **k)


def b_issubclass(a, b):
    def real(t):
        return t.real if isinstance(t, TypeModel) else t
    if isinstance(b, tuple):
        return any(b_issubclass(a, x) for x in b)
    return issubclass(real(a), real(b))


def b_slice(*a):
    return slice(*a)


class MathModel:
    pi = Num(npmodel.PI_Q)

    @staticmethod
    def _1(f, dom=None, exc=ValueError):
        def g(x):
            if isinstance(x, Arr):
                x = x.item()
            r = raw(x)
            if r is None:
                if hasattr(type(x), "__float__"):
                    r = raw(x.__float__())
                else:
                    raise TypeError("must be real number, not " + type(x).__name__)
            if dom is not None and not ctx().truth(dom(r)):
                raise exc("math domain error")
            return wrap(f(r))
        return staticmethod(g)

    @staticmethod
    def atan2(y, x): return wrap(sym.ratan2(raw(y), raw(x)))
    @staticmethod
    def hypot(*xs):
        t = Fraction(0)
        for x in xs:
            t = sym.radd(t, sym.rmul(raw(x), raw(x)))
        return wrap(sym.rsqrt(t))
    @staticmethod
    def pow(a, b): return c_float(a) ** c_float(b)
    @staticmethod
    def fmod(a, b): return npmodel.NP.fmod(a, b)
    @staticmethod
    def modf(x): return (npmodel.NP.fmod(x, 1), c_float(c_int(x)))
    @staticmethod
    def log(x, base=None):
        r = raw(x)
        if not ctx().truth(sym.rcmp(">", r, 0)):
            raise ValueError("math domain error")
        v = wrap(sym.rlog(r))
        return v if base is None else v / wrap(sym.rlog(raw(base)))
    @staticmethod
    def fsum(xs): return b_sum(xs, Num(Fraction(0)))
    @staticmethod
    def prod(xs):
        r = 1
        for x in concrete_iter(xs):
            r = r * x
        return r
    @staticmethod
    def isclose(a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
        d = abs(a - b)
        return (d <= b_max(wrap(raw(rel_tol)) * b_max(abs(a), abs(b)), wrap(raw(abs_tol))))
    @staticmethod
    def isnan(x): return False
    @staticmethod
    def isinf(x): return False
    @staticmethod
    def isfinite(x): return True
    @staticmethod
    def copysign(a, b):
        m = sym.rabs(raw(a))
        return wrap(sym.rite(sym.rcmp(">=", raw(b), 0), m, sym.rneg(m)))
    @staticmethod
    def dist(p, q):
        return MathModel.hypot(*[a - b for a, b in zip(p, q)])
    @staticmethod
    def gcd(*a):
        import math
        return math.gcd(*a)

    def __getattr__(self, n):
        raise Unsupported("math." + n)


def exp_(v):
    c = ctx()
    if not (c.implied(to_real(v) <= 709) if is_sym(v) else v <= 709) and c.truth(sym.rcmp(">", v, 709)):
        raise OverflowError("math range error")
    return sym.rexp(v)


for _n, _f, _d in [("sin", sym.rsin, None), ("cos", sym.rcos, None),
                   ("tan", lambda v: sym.rdiv(sym.rsin(v), sym.rcos(v)), None),
                   ("sqrt", sym.rsqrt, lambda v: sym.rcmp(">=", v, 0)),
                   ("exp", exp_, None), ("floor", sym.rfloor, None), ("trunc", sym.rtrunc, None),
                   ("ceil", lambda v: sym.rneg(sym.rfloor(sym.rneg(v))), None),
                   ("fabs", lambda v: sym.rabs(to_real(v) if is_sym(v) else Fraction(v)), None),
                   ("radians", lambda v: sym.rmul(v, npmodel.PI_Q / 180), None),
                   ("degrees", lambda v: sym.rmul(v, 180 / npmodel.PI_Q), None),
                   ("atan", sym.ratan, None),
                   ("asin", sym.rasin, lambda v: sym.rand_(sym.rcmp(">=", v, -1), sym.rcmp("<=", v, 1))),
                   ("acos", sym.racos, lambda v: sym.rand_(sym.rcmp(">=", v, -1), sym.rcmp("<=", v, 1)))]:
    setattr(MathModel, _n, MathModel._1(_f, _d))


class RandomModel:
    """Every outcome of the generator is considered."""

    @staticmethod
    def random():
        c = ctx()
        r = c.real("rnd")
        c.assume(z3.And(r >= 0, r < 1))
        return wrap(r)

    @staticmethod
    def uniform(a, b):
        c = ctx()
        r = c.real("rnd")
        a, b = raw(a), raw(b)
        c.assume(z3.And(to_real(r) >= to_real(a), to_real(r) <= to_real(b)))
        return wrap(r)

    @staticmethod
    def choice(xs):
        c = ctx()
        if is_symbolic_iter(xs):
            s = as_seq(xs)
            if c.truth(sym.rcmp("==", s.n, 0)):
                raise IndexError("Cannot choose from an empty sequence")
            k = c.index(s.n, "choice")
            return s.get(k)
        xs = list(concrete_iter(xs))
        if not xs:
            raise IndexError("Cannot choose from an empty sequence")
        return xs[c.choose(len(xs))]

    @staticmethod
    def choices(population, weights=None, *, cum_weights=None, k=1):
        c = ctx()
        xs = list(concrete_iter(population))
        if weights is not None:
            ws = list(concrete_iter(weights))
            if len(ws) != len(xs):
                raise ValueError("The number of weights does not match the population")
            total = ws[0]
            for w in ws[1:]:
                total = total + w
            if total <= 0:
                raise ValueError("Total of weights must be greater than zero")
            if c.choices_hook is not None:
                c.choices_hook(xs, ws)
        return [xs[c.choose(len(xs))] for _ in range(k)]

    @staticmethod
    def randint(a, b):
        c = ctx()
        r = c.int("rnd")
        c.assume(z3.And(r >= to_int(raw(a)), r <= to_int(raw(b))))
        return wrap(r)

    @staticmethod
    def randrange(a, b=None):
        if b is None:
            a, b = 0, a
        return RandomModel.randint(a, b - 1)

    @staticmethod
    def sample(xs, k):
        c = ctx()
        k = raw(k)
        if is_symbolic_iter(xs) or is_sym(k):
            return RandomModel.sample_of(as_seq(xs), k)
        xs = list(concrete_iter(xs))
        if k > len(xs) or k < 0:
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(xs.pop(c.choose(len(xs))))
        return out

    @staticmethod
    def sample_of(s, k):
        """k different places of a sequence, in any order."""
        c = ctx()
        n, k = to_int(raw(s.n)), to_int(k)
        if c.truth(z3.Or(k < 0, k > n)):
            raise ValueError("Sample larger than population or is negative")
        P = z3.Function(c.name("drawn"), z3.IntSort(), z3.IntSort())
        V = z3.Function(c.name("draw"), z3.IntSort(), z3.IntSort())

        def get(i):
            i = to_int(raw(i))
            p = P(i)
            c.assume(z3.Implies(z3.And(i >= 0, i < k), z3.And(p >= 0, p < n, V(p) == i)))
            c.register_index(p, n)
            return s.get(p)
        return SymList(SymSeq(k, get))

    @staticmethod
    def shuffle(xs):
        xs[:] = RandomModel.sample(xs, len(xs))

    def __getattr__(self, n):
        raise Unsupported("random." + n)


def unsupported(msg):
    raise Unsupported(msg)


BUILTINS = dict(isinstance=b_isinstance, len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, map=b_map,
                filter=b_filter, reversed=b_reversed, sorted=b_sorted, max=b_max, min=b_min, sum=b_sum,
                any=b_any, all=b_all, round=b_round, pow=b_pow, divmod=b_divmod, type=b_type, open=b_open,
                int=T_INT, float=T_FLOAT, bool=T_BOOL, iter=b_iter, issubclass=b_issubclass,
                abs=b_abs)


class ListType:
    """`list` and `tuple` called on symbolic sequences; otherwise the type itself."""


# ------------------------------------------------------------------- modules ---
class World:
    """One fresh load of the modules of /repo."""
    code_cache = {}
    functions = {}

    def __init__(self, overrides=None):
        self.modules = {}
        self.overrides = overrides or {}     # "module:qualname" -> wrapper(real) applied after load
        self.natives = {"numpy": npmodel.NP, "math": MathModel(), "random": RandomModel(), "copy": CopyModel(),
                        "datetime": DatetimeModel, "jplephem": Namespace("jplephem", spk=Namespace("jplephem.spk", SPK=SPKModel)),
                        "jplephem.spk": Namespace("jplephem.spk", SPK=SPKModel),
                        "pkg_resources": Namespace("pkg_resources", resource_filename=lambda *a: "data"),
                        "os": Namespace("os", path=os.path, PathLike=os.PathLike)}

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            q_ = os.path.join(p, "__init__.py")
            return q_, True
        return p + ".py", False

    def get(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.get(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            if pkg:
                m = types.ModuleType(name)
                m.__path__ = []
                self.modules[name] = m
                return m
            raise ModuleNotFoundError("No module named '%s'" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        if "." in name:
            setattr(self.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        self.prepare(m)
        code = self.compile(name, path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        for key, w in self.overrides.items():
            mod, qual = key.split(":")
            if mod == name:
                holder, attr = m, qual
                while "." in attr:
                    h, attr = attr.split(".", 1)
                    holder = getattr(holder, h)
                if attr in vars(holder):
                    setattr(holder, attr, w(vars(holder)[attr]))
        return m

    def compile(self, name, path):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in World.code_cache:
            src = open(path, encoding="utf-8").read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
                tree.body = Rewriter(name).body(tree.body)
                ast.fix_missing_locations(tree)
                World.code_cache[key] = compile(tree, path, "exec")
        return World.code_cache[key]

    def prepare(self, m):
        from . import loops
        d = m.__dict__
        b = dict(vars(builtins))
        b.update(BUILTINS)
        b["__import__"] = self.importer
        b["list"] = ListCtor
        b["tuple"] = TupleCtor
        b["set"] = SetCtor
        d["__builtins__"] = b
        d.update(_pv_q=q, _pv_div=h_div, _pv_pow=h_pow, _pv_mul=h_mul, _pv_mod=h_mod, _pv_idiv=h_div,
                 _pv_ipow=h_pow, _pv_eq=h_eq, _pv_ne=h_ne, _pv_in=h_in, _pv_notin=h_notin, _pv_chain=h_chain,
                 _pv_unpack=h_unpack, _pv_listcomp=h_listcomp, _pv_mkset=h_mkset, _pv_genexp=h_genexp, _pv_unsupported=unsupported, _pv_emptylist=h_emptylist, _pv_strm=h_strm, _pv_fmt=h_fmt, _pv_item=h_item, _pv_is=h_is, _pv_isnot=h_isnot)
        d["_pv_for"] = loops.for_loop
        d["_pv_while"] = loops.while_loop

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            name = base + ("." + name if name else "")
        if name == "celest" or name.startswith("celest."):
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.get(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.get(name.split(".")[0])
        if name in self.natives:
            return self.natives[name]
        if name == "pkgutil":
            return Namespace("pkgutil", extend_path=lambda path, n: path)
        if name == "numpy.linalg":
            return npmodel.NP.linalg if fromlist else npmodel.NP
        if name.split(".")[0] in ("typing", "enum", "abc", "functools", "collections", "dataclasses", "itertools",
                                  "operator", "string", "textwrap", "numbers", "types", "__future__", "bisect",
                                  "contextlib", "warnings", "re", "io", "statistics", "heapq"):
            if name == "itertools":
                return ItertoolsModel()
            if name in ("bisect", "heapq", "statistics"):
                if name == "bisect":
                    return importlib.import_module("_pybisect") if False else PyBisect
                raise Unsupported("import " + name)
            mod = importlib.import_module(name)
            return mod if fromlist else sys.modules[name.split(".")[0]]
        raise Unsupported("import " + name)


class PyBisect:
    @staticmethod
    def bisect_left(a, x, lo=0, hi=None, **k):
        if is_symbolic_iter(a):
            raise Unsupported("bisect of a symbolic sequence")
        a = list(concrete_iter(a))
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            if a[mid] < x:
                lo = mid + 1
            else:
                hi = mid
        return lo

    @staticmethod
    def bisect_right(a, x, lo=0, hi=None, **k):
        if is_symbolic_iter(a):
            raise Unsupported("bisect of a symbolic sequence")
        a = list(concrete_iter(a))
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            if x < a[mid]:
                hi = mid
            else:
                lo = mid + 1
        return lo
    bisect = bisect_right

    @staticmethod
    def insort(a, x, *r, **k):
        a.insert(PyBisect.bisect_right(a, x), x)


class ItertoolsModel:
    def __getattr__(self, n):
        import itertools
        f = getattr(itertools, n)

        def g(*a, **k):
            if any(is_symbolic_iter(x) for x in a if not callable(x)):
                if n == "chain":
                    r = SymList(as_seq(a[0]))
                    for x in a[1:]:
                        r = r + SymList(as_seq(x))
                    return r
                raise Unsupported("itertools.%s of a symbolic sequence" % n)
            return f(*[concrete_iter(x) if isinstance(x, (Arr, SymList, SymView, SymRange)) else x for x in a], **k)
        if n == "chain":
            g.from_iterable = lambda it: f.from_iterable(it)
        return g


class _Ctor(type):
    def __instancecheck__(cls, v):
        return isinstance(v, cls._real)

    def __call__(cls, *a):
        return cls._make(*a)

    def __getitem__(cls, k):
        return cls._real[k]

    def __or__(cls, o):
        return cls

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class ListCtor(metaclass=_Ctor):
    _real = (list, SymList)
    _make = staticmethod(b_list)


class TupleCtor(metaclass=_Ctor):
    _real = (tuple,)
    _make = staticmethod(b_tuple)


class Namespace:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__name__ = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


class CopyModel:
    @staticmethod
    def deepcopy(x, memo=None):
        import copy
        return copy.deepcopy(x) if memo is None else copy.deepcopy(x, memo)

    @staticmethod
    def copy(x):
        import copy
        return copy.copy(x)


class SPKModel:
    @staticmethod
    def open(*a):
        raise Unsupported("ephemeris file")

    @staticmethod
    def close(*a):
        pass


def month_length(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


class DTime:
    """datetime: the instant as day number (proleptic Gregorian) plus seconds."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0):
        self.fields = (raw(year), raw(month), raw(day))
        self.extra = Fraction(0)
        for v in self.fields:
            if v is None or kind(v) != "i":
                raise TypeError("an integer is required")
        y, m, d = [to_int(v) for v in self.fields]
        if not ctx().truth(fold(z3.simplify(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_length(y, m))))):
            raise ValueError("day is out of range for month")
        if hour or minute or second or microsecond:
            self.extra = sym.rdiv(sym.radd(sym.radd(sym.rmul(raw(hour), 3600), sym.rmul(raw(minute), 60)),
                                           sym.radd(raw(second), sym.rdiv(raw(microsecond), 10**6))), 86400)

    def __add__(self, d):
        if not isinstance(d, TDelta):
            return NotImplemented
        r = DTime(*[wrap(f) for f in self.fields])
        r.extra = sym.radd(self.extra, d.days)
        return r

    __radd__ = __add__


class TDelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = raw(days)
        for v, s in ((seconds, 86400), (microseconds, 86400 * 10**6), (milliseconds, 86400 * 1000),
                     (minutes, 1440), (hours, 24)):
            if not (isinstance(v, int) and v == 0):
                t = sym.radd(t, sym.rdiv(raw(v), s))
        if not (isinstance(weeks, int) and weeks == 0):
            t = sym.radd(t, sym.rmul(raw(weeks), 7))
        self.days = t

    def __add__(self, o):
        if isinstance(o, DTime):
            return o + self
        r = TDelta()
        r.days = sym.radd(self.days, o.days)
        return r


DatetimeModel = Namespace("datetime", datetime=DTime, timedelta=TDelta)
