"""Mechanical lifting of the real source.

A module is read from /repo on every run, parsed, and rewritten by `Rewriter`:

* `for`/`while` loops become calls of the loop protocol (`loops.Loop`), so that a loop over a
  symbolic-length sequence is cut with an invariant and any other loop runs as in CPython;
* comprehensions become `__vc.comp(...)`; f-strings become `__vc.fstr(...)`; `assert` stays.

Nothing else is changed: every other statement of every function is executed by CPython as
written, with the imports of third-party packages resolved to contract shims.  What the lifting
drops: type annotations on locals, docstrings, decorators from `functools` caching, log calls
(no-ops) and the text of formatted messages.
"""

from __future__ import annotations

import ast
import builtins
import contextlib
import os
import sys
import types

from . import arrays as A
from . import core
from . import values as V
from .core import EngineExit, PathEnd, Unsupported, ctx, z3
from . import maps
from .lists import ArrList, FamItem, ScalarSeq, SymSeq, iterable, senumerate, srange, szip
from .loops import Loop, Poison, WLoop
from .maps import SymMap
from .npshim import SRng, arr, is_symbolic, np_shim
from .values import Sym, SymBool, SymInt, SymReal, SymU, _Num, tb, tn, unwrap, wrap

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---- AST rewriting --------------------------------------------------------
def _reraises(h):
    """a handler that always leaves with an exception"""
    return isinstance(h.body[-1], ast.Raise) and not any(isinstance(q, (ast.Return, ast.Break, ast.Continue)) for b in h.body for q in ast.walk(b))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.ord = {}
        self.locs = [set()]

    def _key(self, kind):
        f = ".".join(self.fn) or "<module>"
        k = self.ord.get((f, kind), 0)
        self.ord[(f, kind)] = k + 1
        return f"{self.modname}:{f}:{kind}{k}"

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        outer = set()
        for q in ast.walk(node):
            if isinstance(q, (ast.Global, ast.Nonlocal)):
                outer |= set(q.names)
        a = node.args
        mine = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.locs.append((_assigned(node.body) | mine) - outer)
        ends = [id(s) for s in node.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)]
        node.body = self._body(node.body, ends if a.args and a.args[0].arg == "self" else ())
        self.locs.pop()
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = self._body(node.body)
        self.fn.pop()
        return node

    def _body(self, stmts, ends=()):
        out = []
        for s in stmts:
            point = id(s) in ends
            r = self.visit(s)
            if point and r is not None:
                r = [*(r if isinstance(r, list) else [r]), *_loc(_stmts("__vc__.point()"), s)]
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # loops
    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        key = self._key("for")
        it = self.visit(node.iter)
        v = f"__it_{len(self.ord)}_{node.lineno}_{node.col_offset}__"
        names = sorted(_assigned(node.body) | _assigned_target(node.target))
        muts = sorted(_mutated(node.body))
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        pre = _stmts(f"{v} = __vc__.loop({key!r}, None, {names!r}, {muts!r})\nif {v}.sym: {v}.enter(locals())")
        pre[0].value.args[1] = it
        for n in sorted(set(names) | (set(muts) & self.locs[-1])):
            pre += _stmts(f"if {v}.has({n!r}): {n} = {v}.val({n!r})")
        w = _stmts(f"while {v}.more(locals()):\n    __t = {v}.item()")[0]
        w.body[0].targets = [node.target]
        _unpack(w.body[0])
        w.body += body
        w.orelse = orelse
        return _loc(pre + [w], node)

    def visit_While(self, node):
        if not self.fn:
            return self.generic_visit(node)
        key = self._key("while")
        test = self.visit(node.test)
        v = f"__wh_{node.lineno}_{node.col_offset}__"
        names = sorted(_assigned(node.body))
        muts = sorted(_mutated(node.body))
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        pre = _stmts(f"{v} = __vc__.wloop({key!r}, lambda: None, {names!r}, {muts!r})\nif {v}.sym: {v}.enter(locals())")
        pre[0].value.args[1].body = test
        for n in sorted(set(names) | (set(muts) & self.locs[-1])):
            pre += _stmts(f"if {v}.has({n!r}): {n} = {v}.val({n!r})")
        w = _stmts(f"while {v}.head(locals()) and {v}.test(None):\n    pass")[0]
        import copy

        w.test.values[1].args[0] = copy.deepcopy(test)
        w.body = body
        w.orelse = orelse
        return _loc(pre + [w], node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.fn:
            _unpack(node)
        return node

    def visit_Try(self, node):
        self.generic_visit_body(node)
        if self.fn and node.handlers and not all(_reraises(h) for h in node.handlers):
            w = ast.With(items=[ast.withitem(context_expr=ast.Call(func=_attr("__vc__", "tried"), args=[], keywords=[]))], body=node.body)
            node.body = [ast.fix_missing_locations(ast.copy_location(w, node))]
        return node

    def generic_visit_body(self, node):
        node.body = self._body(node.body)
        for h in node.handlers:
            h.type = self.visit(h.type) if h.type is not None else None
            h.body = self._body(h.body)
        node.orelse = self._body(node.orelse)
        node.finalbody = self._body(node.finalbody)

    # comprehensions
    def _comp(self, node, kind, elt):
        gens = node.generators
        if any(g.is_async for g in gens):
            return self.generic_visit(node)

        def build(k):
            if k == len(gens):
                return elt, "elt"
            g = gens[k]
            inner, how = build(k + 1)
            cond = None
            if g.ifs:
                cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
                cond = _lam(g.target, self.visit(cond))
            return ast.Call(
                func=_attr("__vc__", "comp"),
                args=[
                    ast.Constant(kind if k == 0 else "flat"),
                    self.visit(g.iter),
                    _lam(g.target, inner),
                    cond if cond is not None else ast.Constant(None),
                    ast.Constant(how == "nest"),
                ],
                keywords=[],
            ), "nest"

        r, _ = build(0)
        return ast.copy_location(ast.fix_missing_locations(r), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list", self.visit(node.elt)) if self.fn else self.generic_visit(node)

    def visit_SetComp(self, node):
        return self._comp(node, "set", self.visit(node.elt)) if self.fn else self.generic_visit(node)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", self.visit(node.elt)) if self.fn else self.generic_visit(node)

    def visit_DictComp(self, node):
        if not self.fn:
            return self.generic_visit(node)
        e = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
        return self._comp(node, "dict", e)

    def visit_JoinedStr(self, node):
        if not self.fn:
            return self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                if spec is not None and not (isinstance(spec, ast.JoinedStr) and all(isinstance(q, ast.Constant) for q in spec.values)):
                    spec = None
                s = "".join(q.value for q in spec.values) if spec is not None else ""
                args.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), ast.Constant(s)], ctx=ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(ast.fix_missing_locations(ast.Call(func=_attr("__vc__", "fstr"), args=args, keywords=[])), node)

    # boolean structure over symbolic operands keeps Python's short-circuit semantics
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and self.fn:
            call = ast.Call(
                func=_attr("__vc__", "contains"),
                args=[node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], ast.NotIn))],
                keywords=[],
            )
            return ast.copy_location(ast.fix_missing_locations(call), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and self.fn:
            call = ast.Call(
                func=_attr("__vc__", "same"),
                args=[node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], ast.IsNot))],
                keywords=[],
            )
            return ast.copy_location(ast.fix_missing_locations(call), node)
        return node


def _attr(a, b):
    return ast.Attribute(value=ast.Name(id=a, ctx=ast.Load()), attr=b, ctx=ast.Load())


def _unpack(node):
    """tuple assignment asks the runtime for the items (an opaque value has as many as are wanted)"""
    for t in node.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts) and not isinstance(node.value, (ast.Tuple, ast.List)):
            node.value = ast.copy_location(ast.Call(func=_attr("__vc__", "unpack"), args=[node.value, ast.Constant(len(t.elts))], keywords=[]), node)
            ast.fix_missing_locations(node)
            return


def _stmts(src):
    return ast.parse(src).body


def _loc(stmts, node):
    for s in stmts:
        for q in ast.walk(s):
            if not hasattr(q, "lineno"):
                ast.copy_location(q, node)
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
    return stmts


def _lam(target, body):
    """lambda taking one item and binding the comprehension target"""
    if isinstance(target, ast.Name):
        return ast.Lambda(args=_args([target.id]), body=body)
    if isinstance(target, (ast.Tuple, ast.List)):
        names, star_body = [], body
        for k, t in enumerate(target.elts):
            if isinstance(t, ast.Name):
                names.append(t.id)
            else:
                nm = f"__u{k}_{getattr(t, 'col_offset', 0)}__"
                names.append(nm)
                star_body = ast.Call(func=_lam(t, star_body), args=[ast.Name(id=nm, ctx=ast.Load())], keywords=[])
        inner = ast.Lambda(args=_args(names), body=star_body)
        return ast.Lambda(
            args=_args(["__x__"]),
            body=ast.Call(func=inner, args=[ast.Starred(value=ast.Call(func=_attr("__vc__", "unpack"), args=[ast.Name(id="__x__", ctx=ast.Load()), ast.Constant(len(names))], keywords=[]), ctx=ast.Load())], keywords=[]),
        )
    raise Unsupported("comprehension target")


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _assigned_target(t):
    out = set()
    for q in ast.walk(t):
        if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
            out.add(q.id)
    return out


def _assigned(body):
    out = set()

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    for s in body:
        W().visit(s)
    return {n for n in out if not n.startswith("__")}


def _mutated(body):
    """names whose object may be changed in place (a hint; the version check is what decides)"""
    out = set()

    def base(e):
        while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
            e = e.value if not isinstance(e, ast.Call) else e.func
        return e.id if isinstance(e, ast.Name) else None

    for s in body:
        for q in ast.walk(s):
            if isinstance(q, ast.Attribute) and isinstance(q.ctx, (ast.Store, ast.Del)):
                out.add("@attr")
            if isinstance(q, ast.Subscript) and isinstance(q.ctx, (ast.Store, ast.Del)):
                b = base(q)
                if b:
                    out.add(b)
            if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in (
                "append", "extend", "add", "update", "insert", "pop", "setdefault"):
                b = base(q.func.value)
                if b:
                    out.add(b)
            if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name):
                out.add(q.target.id)
    return out


# ---- builtin shims ----------------------------------------------------------
class OpaqueStr:
    """A formatted message with symbolic parts."""

    def __str__(self):
        return "<message>"

    def _no(self, *a, **k):
        raise Unsupported("a formatted string with symbolic parts is used as a value")

    __eq__ = __ne__ = __lt__ = __hash__ = __add__ = __getattr__ = _no


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or isinstance(o, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return cls._real | (o._real if isinstance(o, _Meta) else o)

    def __ror__(cls, o):
        return (o._real if isinstance(o, _Meta) else o) | cls._real

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __getitem__(cls, k):
        return cls


def _mkint():
    class SInt(metaclass=_Meta):
        _real, _sym = int, (SymInt, SymBool)

        def __new__(cls, x=0, *a):
            if isinstance(x, A.SArr):
                x = x.item()
            if isinstance(x, (_Num, SymBool)):
                return V.sint(x)
            if isinstance(x, Sym):
                raise Unsupported("int() of an opaque value")
            return int(x, *a)

    SInt.__name__ = "int"
    return SInt


def _mkfloat():
    class SFloat(metaclass=_Meta):
        _real, _sym = float, (SymReal,)

        def __new__(cls, x=0.0):
            if isinstance(x, A.SArr):
                x = x.item()
            if isinstance(x, (_Num, SymBool)):
                return V.sfloat(x)
            if isinstance(x, Sym):
                raise Unsupported("float() of an opaque value")
            return float(x)

    SFloat.__name__ = "float"
    return SFloat


def _mkbool():
    class SBool(metaclass=_Meta):
        _real, _sym = bool, (SymBool,)

        def __new__(cls, x=False):
            if isinstance(x, SymBool):
                return x
            if isinstance(x, _Num):
                return wrap(tb(x))
            if isinstance(x, A.SArr):
                return wrap(tb(x.item()))
            return bool(x)

    SBool.__name__ = "bool"
    return SBool


def _mkstr():
    class SStr(metaclass=_Meta):
        _real, _sym = str, (SymU,)

        def __new__(cls, x="", *a):
            if isinstance(x, SymU) or hasattr(type(x), "sym_str"):
                return x
            if isinstance(x, (Sym, A.SArr)):
                return OpaqueStr()
            if isinstance(x, BaseException) and any(isinstance(q, OpaqueStr) for q in x.args):
                return OpaqueStr()
            return str(x, *a)

    SStr.__name__ = "str"
    return SStr


def _mklist():
    class SList(metaclass=_Meta):
        _real, _sym = list, (ArrList, ScalarSeq, FamItem)

        def __new__(cls, x=()):
            q = None
            if isinstance(x, SymMap):
                x = x.keys()
            if isinstance(x, (ArrList,)):
                return x.snapshot()
            if isinstance(x, (SymSeq, A.SArr)):
                q = iterable(x)
            if q is not None:
                return q
            return list(x)

    SList.__name__ = "list"
    return SList


def _mktuple():
    class STuple(metaclass=_Meta):
        _real, _sym = tuple, ()

        def __new__(cls, x=()):
            if isinstance(x, SymMap):
                x = x.keys()
            if isinstance(x, (SymSeq, A.SArr)) and iterable(x) is not None:
                return iterable(x)
            return tuple(x)

    STuple.__name__ = "tuple"
    return STuple


SINT, SFLOAT, SBOOL, SSTR, SLIST, STUPLE = _mkint(), _mkfloat(), _mkbool(), _mkstr(), _mklist(), _mktuple()
_UNMAP = {SINT: int, SFLOAT: float, SBOOL: bool, SSTR: str, SLIST: list, STUPLE: tuple}


def s_len(x):
    if isinstance(x, A.SArr):
        return wrap(A.dz(x._shape[0])) if not isinstance(x._shape[0], int) else x._shape[0]
    if isinstance(x, (SymSeq, ArrList, FamItem)):
        return wrap(x.n)
    if hasattr(type(x), "sym_len"):
        return x.sym_len()
    return len(x)


def s_min(*a, **k):
    return _minmax("min", a, k)


def s_max(*a, **k):
    return _minmax("max", a, k)


def _minmax(op, a, k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, A.SArr):
            if k:
                raise Unsupported("min/max default")
            return x.max() if op == "max" else x.min()
        if isinstance(x, (SymSeq, ArrList)):
            raise Unsupported("min/max of a symbolic sequence")
        x = list(x)
    else:
        x = list(a)
    if "key" in k or not any(isinstance(v, Sym) for v in x):
        return (max if op == "max" else min)(x, **{q: w for q, w in k.items() if len(a) == 1 or q == "key"})
    if not x:
        if "default" in k:
            return k["default"]
        raise ValueError("empty")
    r = x[0]
    for v in x[1:]:
        r = V.smin(r, v) if op == "min" else V.smax(r, v)
    return r


def s_sum(x, start=0):
    if isinstance(x, A.SArr):
        return x.sum() + start
    if isinstance(x, (SymSeq, ArrList)):
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for v in x:
        r = r + v
    return r


def s_any(x):
    if isinstance(x, Quant):
        return x.any()
    if isinstance(x, A.SArr):
        return x.any()
    for v in x:
        if v:
            return True
    return False


def s_all(x):
    if isinstance(x, Quant):
        return x.all()
    if isinstance(x, A.SArr):
        return x.all()
    for v in x:
        if not v:
            return False
    return True


def s_abs(x):
    return abs(x)


def s_round(x, nd=None):
    if isinstance(x, Sym):
        return V.sround(x, nd)
    return round(x, nd) if nd is not None else round(x)


def s_sorted(x, key=None, reverse=False):
    if isinstance(x, (A.SArr,)) and key is None and not reverse:
        return np_shim.sort(x)
    if isinstance(x, SymMap):
        x = x.keys()
    if isinstance(x, SymSeq) and hasattr(x, "by_key"):
        return x  # the keys of a mapping are enumerated in an arbitrary order anyway
    if isinstance(x, (SymSeq, ArrList)):
        raise Unsupported("sorted of a symbolic sequence")
    x = list(x)
    if any(isinstance(v, Sym) for v in x):
        raise Unsupported("sorted of symbolic values")
    return sorted(x, key=key, reverse=reverse)


def s_isinstance(o, t):
    if isinstance(t, tuple):
        return any(s_isinstance(o, q) for q in t)
    if hasattr(type(o), "sym_isinstance"):
        return o.sym_isinstance(t)
    if isinstance(o, SymBool) and t in (SINT, int):
        return True
    return isinstance(o, t)


def s_type(*a):
    if len(a) == 1:
        o = a[0]
        for s, k in ((SymBool, SBOOL), (SymInt, SINT), (SymReal, SFLOAT), (SymU, SSTR)):
            if type(o) is s:
                return k
        return {int: SINT, float: SFLOAT, bool: SBOOL, str: SSTR, list: SLIST, tuple: STUPLE}.get(type(o), type(o))
    return type(*a)


def s_iter(x):
    return iter(x)


def s_hash(x):
    if isinstance(x, Sym):
        raise Unsupported("hash of a symbolic value")
    return hash(x)


class Quant:
    """a generator expression over a symbolic sequence, consumed by any()/all()"""

    def __init__(self, seq, f, cond):
        self.seq, self.f, self.cond = seq, f, cond

    def _at(self, i):
        it = self.seq.item_fn(i)
        t = tb(self.f(it))
        g = tb(self.cond(it)) if self.cond else z3.BoolVal(True)
        return g, t

    def _decide(self, want):
        """branch on `exists i: guard(i) and elt(i) == want`"""
        c = ctx()
        n = self.seq.n
        b = c.bool("quant")
        if c.branch(b):
            w = c.int("qw")
            c.assume(z3.And(w >= 0, w < n))
            A.add_probe(w)
            g, t = self._at(w)
            c.assume(z3.And(g, t if want else z3.Not(t)))
            return True

        def fact(i):
            g, t = self._at(i)
            return z3.Implies(z3.And(i >= 0, i < n, g), z3.Not(t) if want else t)

        A.forall(fact)
        # also over every value met (value view of index arrays)
        src = self.seq.src
        if isinstance(src, A.SArr) and src.kind == "i" and src.ndim == 1:
            src.cnt(z3.IntVal(-1))
            cf = src.cntf

            def vfact(x):
                it = wrap(x)
                g = tb(self.cond(it)) if self.cond else z3.BoolVal(True)
                t = tb(self.f(it))
                return z3.Implies(z3.And(cf(x) >= 1, g), z3.Not(t) if want else t)

            A.forall(vfact)
        return False

    def any(self):
        return self._decide(True)

    def all(self):
        return not self._decide(False)

    def __iter__(self):
        raise Unsupported("generator over a symbolic sequence")


class VC:
    """runtime of the lifted code"""

    def __init__(self, world):
        self.world = world

    def unpack(self, v, n):
        return v

    def tried(self):
        return contextlib.nullcontext()

    def point(self):
        """a helper of a method has returned"""

    def loop(self, key, it, names, muts):
        return Loop(key, it, names, muts)

    def wloop(self, key, test, names, muts):
        return WLoop(key, test, names, muts)

    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if is_symbolic(v) or isinstance(v, OpaqueStr):
                    h = self.world.fstr_hook
                    return h(parts) if h else OpaqueStr()
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                try:
                    out.append(format(v, spec))
                except Unsupported:
                    return OpaqueStr()
            else:
                out.append(p)
        return "".join(out)

    def same(self, a, b, neg):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("a name is used in a loop before it is assigned")
        return (a is not b) if neg else (a is b)

    def contains(self, a, b, neg):
        if hasattr(type(b), "sym_contains"):
            r = b.sym_contains(a)
        elif isinstance(b, A.SArr):
            if b.kind == "i" and b.ndim == 1:
                r = wrap(b.cnt(tn(a)) >= 1)
            else:
                raise Unsupported("membership in an array")
        elif isinstance(a, Sym) and isinstance(b, (set, frozenset, tuple, list, dict)):
            r = z3.BoolVal(False)
            for v in b:
                if isinstance(v, str) != isinstance(a, SymU):
                    continue
                q = a == v
                if q is True:
                    r = z3.BoolVal(True)
                elif q is not False:
                    r = z3.Or(r, tb(q))
            r = wrap(r)
        elif isinstance(a, Sym):
            raise Unsupported(f"membership of a symbolic value in {type(b).__name__}")
        else:
            r = a in b
        if not neg:
            return r
        return wrap(z3.Not(r.t)) if isinstance(r, SymBool) else (not r)

    def comp(self, kind, it, f, cond, nest):
        if isinstance(it, SymMap):
            it = it.keys()
        q = iterable(it) if isinstance(it, (SymSeq, ArrList, A.SArr)) else None
        if kind == "dict" and hasattr(q, "by_key"):
            return maps.map_comp(q, f, cond)
        if kind == "set" and hasattr(q, "by_key"):
            return maps.set_comp(q, f, cond)
        if q is None:
            out = []
            for x in it:
                if cond is None or cond(x):
                    v = f(x)
                    if nest:
                        out.extend(v)
                    else:
                        out.append(v)
            if kind in ("list", "flat"):
                return out
            if kind == "gen":
                return iter(out)
            if kind == "set":
                if any(isinstance(v, Sym) for v in out):
                    raise Unsupported("set of symbolic values")
                return set(out)
            return dict(out)
        if nest:
            raise Unsupported("nested comprehension over a symbolic sequence")
        if kind == "gen":
            return Quant(q, f, cond)
        if kind == "dict":
            if _discard_ok():
                return OpaqueStr()
            raise Unsupported("dict comprehension over a symbolic sequence")
        if kind != "list":
            raise Unsupported(kind + " comprehension over a symbolic sequence")
        c = ctx()
        n = q.n
        if cond is not None:
            return self._filtered(it, q, f, cond)
        # shape of the elements: evaluate once at a skolem position
        if not c.entails(n > 0) and not c.branch(n > 0):
            return []
        k = c.int("ci")
        c.assume(z3.And(k >= 0, k < n))
        v = f(q.item_fn(k))
        if isinstance(v, list) and not v:
            return ArrList(n, lambda i, x: A.I0, lambda x: A.I0, A.I0, lambda i: A.I0, nested=True)
        if isinstance(v, A.SArr) and v.ndim == 1 and v.kind == "i" and v.org and v.org[0] == "aitem":
            L = v.org[1]
            if v.org[2].eq(k) and v.org[3] == L.version and isinstance(q.src, ArrList) and q.src is L:
                return L.snapshot()
            raise Unsupported("list of arrays by comprehension")
        if isinstance(v, (Sym, bool, int, float)):
            t = unwrap(v)
            fn = lambda i: unwrap(f(q.item_fn(i)))  # noqa: E731
            r = ScalarSeq(n, fn)
            r.visits = []
            r.src = ("map", q)
            if z3.is_int(t) and isinstance(q.src, A.SArr) and t.eq(unwrap(q.item_fn(k))):
                return q.src.copy()
            return r
        raise Unsupported(f"comprehension of {type(v).__name__} over a symbolic sequence")

    def _filtered(self, it, q, f, cond):
        c = ctx()
        n = q.n
        k = c.int("ci")
        item = q.item_fn(k)
        p = z3.simplify(tb(cond(item)))
        # recognised form: every item except the one at one position
        pos = None
        if z3.is_not(p) and z3.is_eq(p.arg(0)):
            a, b = p.arg(0).arg(0), p.arg(0).arg(1)
            pos = b if a.eq(k) else (a if b.eq(k) else None)
        elif z3.is_distinct(p) and p.num_args() == 2:
            a, b = p.arg(0), p.arg(1)
            pos = b if a.eq(k) else (a if b.eq(k) else None)
        src = q.src
        if pos is None and isinstance(src, (A.SArr,)) and src.ndim == 1 and src.kind == "i":
            v = f(item)
            if isinstance(v, SymInt) and v.t.eq(unwrap(item)):
                fz = A._freeze(src)
                bf = fz.snapshot()
                m = SArrB(fz, lambda i: tb(cond(wrap(bf(i)))), lambda x: tb(cond(wrap(x))))
                return src[m]
        if pos is None:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        v = f(item)
        if isinstance(v, A.SArr) and v.org and v.org[0] == "aitem" and v.org[2].eq(k):
            L = v.org[1].snapshot()
            inr = z3.And(pos >= 0, pos < L.n)
            m = c.func("kept", z3.IntSort(), z3.IntSort(), z3.IntSort())
            ms = c.func("keptsz", z3.IntSort(), z3.IntSort())
            return ArrList(
                z3.simplify(z3.If(inr, L.n - 1, L.n)),
                lambda i, x: m(i, x),
                lambda x: z3.If(inr, L.tot(x) - L.cnt(pos, x), L.tot(x)),
                z3.If(inr, L._S - L.size(pos), L._S),
                lambda i: ms(i),
            )
        raise Unsupported("filtered comprehension over a symbolic sequence")


def SArrB(fz, fn, pred):
    r = A.SArr(fz._shape, "b", fn)
    r.org = ("valpred", fz, pred)
    return r


def _discard_ok():
    # dict displays over symbolic data are only built for log messages
    return True


# ---- modules ------------------------------------------------------------------
class _Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None

    def isEnabledFor(self, *a):
        return False


class _Logging(types.ModuleType):
    def __init__(self):
        super().__init__("logging")
        self.DEBUG, self.INFO, self.WARNING, self.ERROR = 10, 20, 30, 40
        self.Logger = _Logger

    def getLogger(self, *a):
        return _Logger()

    def __getattr__(self, n):
        return lambda *a, **k: None


class _MathShim:
    def __getattr__(self, n):
        import math

        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, Sym) for x in a):
                if n in ("exp", "log"):
                    return V.sexplog(n, a[0])
                if n == "floor":
                    return V.sfloor(a[0])
                if n == "ceil":
                    t = tn(a[0])
                    return wrap(-z3.ToInt(-t)) if z3.is_real(t) else a[0]
                if n == "sqrt":
                    return V.ssqrt(a[0])
                if n in ("isnan", "isinf"):
                    return False
                if n == "isfinite":
                    return True
                raise Unsupported(f"math.{n}")
            return f(*a)

        return g


class _TimeShim:
    def __getattr__(self, n):
        if n in ("perf_counter", "time", "monotonic"):
            return lambda: 0.0
        raise Unsupported("time." + n)


class _InertMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _inert(f"{cls.__name__}.{n}")

    def __call__(cls, *a, **k):
        raise Unsupported(f"call of {cls.__name__}")


def _inert(name):
    """a name of an unmodelled module: may be mentioned (imported, used as a type or base class), never used"""
    return _InertMeta(name, (), {})


class Inert(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _inert(f"{self.__name__}.{n}")


_CODE = {}  # the lifted code of a module, the same for every World of a run


class World:
    """A set of lifted modules with some callees replaced by their contracts."""

    def __init__(self, stubs=None, shims=None, real=(), inert=()):
        self.stubs = dict(stubs or {})  # "module:name" -> contract function
        self.mods = {}
        self.shims = {
            "numpy": np_shim,
            "logging": _Logging(),
            "math": _MathShim(),
            "time": _TimeShim(),
        }
        self.shims.update(shims or {})
        self.real = tuple(real)
        self.inert = tuple(inert)  # modules of the repository the verified functions only mention
        self.vc = VC(self)
        self.fstr_hook = None
        self.lifted_files = {}
        self.builtins = self._mk_builtins()

    def _mk_builtins(self):
        b = dict(builtins.__dict__)
        b.update(
            int=SINT, float=SFLOAT, bool=SBOOL, str=SSTR, list=SLIST, tuple=STUPLE,
            len=s_len, min=s_min, max=s_max, sum=s_sum, any=s_any, all=s_all, abs=s_abs, round=s_round,
            sorted=s_sorted, range=srange, enumerate=senumerate, zip=szip, isinstance=s_isinstance,
            type=s_type, hash=s_hash,
        )
        b["__import__"] = self._import
        b["__build_class__"] = builtins.__build_class__
        return b

    def path_of(self, name):
        rel = name.replace(".", "/")
        for root in (f"{REPO}/src", REPO):
            for cand in (f"{root}/{rel}.py", f"{root}/{rel}/__init__.py"):
                if os.path.isfile(cand):
                    return cand
        return None

    def module(self, name, load=True):
        m = self.mods.get(name)
        if m is None:
            m = _Mod(name, self)
            self.mods[name] = m
            if "." in name:
                parent = self.module(name.rsplit(".", 1)[0], load=False)
                parent.__dict__[name.rsplit(".", 1)[1]] = m
        if load and not m.__dict__.get("__loaded"):
            m.__dict__["__loaded"] = True
            self._load(m)
        return m

    def _load(self, m):
        name = m.__dict__["__lname"]
        path = self.path_of(name)
        if path is None:
            raise ImportError(name)
        code = _CODE.get((name, path))
        if code is None:
            src = open(path, encoding="utf-8").read()
            tree = ast.parse(src, path)
            tree = Rewriter(name).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, path, "exec", dont_inherit=True, flags=__import__("__future__").annotations.compiler_flag)
            _CODE[(name, path)] = code
        ns = m.__dict__
        ns["__builtins__"] = self.builtins
        ns["__name__"] = "lifted." + name
        ns["__file__"] = path
        ns["__package__"] = "lifted." + (name if path.endswith("__init__.py") else name.rsplit(".", 1)[0])
        ns["__vc__"] = self.vc
        sys.modules["lifted." + name] = m  # dataclasses looks its module up here
        exec(code, ns)
        alias = sys.modules["lifted." + name]
        if alias is not m and isinstance(alias, _Mod):  # the module replaced itself by another one
            sys.modules["lifted." + name] = m
            for k, v in alias.__dict__.items():
                if not k.startswith("__"):
                    ns.setdefault(k, v)
        for k, f in self.stubs.items():
            mod, fn = k.split(":")
            if mod == name and "." not in fn:
                ns[fn] = f
        self.lifted_files[name] = path

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"][len("lifted."):]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.split(".")[0]
        if any(name == q or name.startswith(q + ".") for q in self.inert):
            return Inert(name)
        if top in ("modssc", "bench"):
            if fromlist:
                m = self.module(name, load=False)
                for f in fromlist:
                    sub = self.path_of(name + "." + f)
                    if sub is not None:
                        self.module(name + "." + f)
                    else:
                        self.module(name)
                        break
                if not m.__dict__.get("__loaded") and any(f not in m.__dict__ for f in fromlist):
                    self.module(name)
                return m
            self.module(name)
            return self.module(top, load=False)
        if name in self.shims:
            return self.shims[name]
        if top in self.shims:
            o = self.shims[top]
            if fromlist:
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
            return o
        if top in _SAFE or top in self.real:
            return builtins.__import__(name, None, None, fromlist, 0)
        if top in ("torch", "sklearn", "scipy", "pandas", "matplotlib", "faiss"):
            raise ImportError(f"{name} is not modelled")
        return Inert(name)

    def fn(self, module, qual):
        o = self.module(module)
        for p in qual.split("."):
            o = getattr(o, p)
        return o


class _Mod(types.ModuleType):
    def __init__(self, name, world):
        super().__init__("lifted." + name)
        self.__dict__["__lname"] = name
        self.__dict__["__world"] = world

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        w, name = self.__dict__["__world"], self.__dict__["__lname"]
        if w.path_of(name + "." + n) is not None:
            return w.module(name + "." + n)
        if not self.__dict__.get("__loaded"):
            w.module(name)
            if n in self.__dict__:
                return self.__dict__[n]
        raise AttributeError(f"{name}.{n}")


_SAFE = {
    "__future__", "dataclasses", "typing", "collections", "functools", "itertools", "enum", "abc", "contextlib",
    "hashlib", "json", "re", "copy", "inspect", "types", "pathlib", "os", "sys", "warnings", "numbers",
    "importlib", "string", "struct", "io", "tempfile", "platform", "operator", "random", "datetime", "uuid",
    "shutil", "threading", "gc", "urllib", "stat", "errno", "textwrap", "traceback", "typing_extensions", "weakref",
    "ast", "zlib", "base64",
}
