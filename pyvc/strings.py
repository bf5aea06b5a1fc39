"""Arbitrary texts (z3 strings), with Python's split/strip/concatenation, and abstract file paths."""

from __future__ import annotations

from .core import Unsupported, ctx, z3
from .values import Sym, SymBool, wrap as _wrap

STR = z3.StringSort()


def sv(x):
    if isinstance(x, Txt):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported(f"text operation with {type(x).__name__}")


def strip_of(t):
    """str.strip(): some part of the text, unchanged by a second strip"""
    f = z3.Function("strip", STR, STR)
    r = f(t)
    c = ctx()
    done = c.memo.setdefault("stripped", {})
    if t.get_id() in done:
        return t
    done[r.get_id()] = r
    c.assume(z3.And(z3.Contains(t, r), f(r) == r, z3.Implies(t == z3.StringVal(""), r == z3.StringVal(""))))
    for t2, sep in c.memo.get("no separator", []):
        if t2.eq(t):
            c.assume(z3.Not(z3.Contains(r, z3.StringVal(sep))))
            c.memo["no separator"].append((r, sep))
            break
    return r


def stripped(t):
    """assume that a text has no surrounding white space"""
    c = ctx()
    c.assume(z3.Function("strip", STR, STR)(t) == t)
    c.memo.setdefault("stripped", {})[t.get_id()] = t


def without(t, sep):
    """assume that a text does not contain a separator"""
    c = ctx()
    c.assume(z3.Not(z3.Contains(t, z3.StringVal(sep))))
    c.memo.setdefault("no separator", []).append((t, sep))


class Txt(Sym):
    """an arbitrary text"""

    __slots__ = ()

    @classmethod
    def fresh(cls, name):
        c = ctx()
        return cls(z3.String(c.fresh_name(name)))

    def __eq__(self, o):
        return SymBool(self.t == sv(o)) if isinstance(o, (Txt, str)) else False

    def __ne__(self, o):
        return SymBool(self.t != sv(o)) if isinstance(o, (Txt, str)) else True

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return ctx().branch(self.t != z3.StringVal(""))

    def sym_isinstance(self, t):
        return t is str or getattr(t, "_real", None) is str

    def sym_str(self):
        return self

    def sym_contains(self, a):
        return _wrap(z3.Contains(self.t, sv(a)))

    def sym_len(self):
        return _wrap(z3.Length(self.t))

    def strip(self, *a):
        if a:
            raise Unsupported("strip with characters")
        return Txt(strip_of(self.t))

    def isdigit(self):
        return ctx().branch(z3.Function("isdigit", STR, z3.BoolSort())(self.t))

    def lower(self):
        return Txt(z3.Function("lower", STR, STR)(self.t))

    def upper(self):
        return Txt(z3.Function("upper", STR, STR)(self.t))

    def startswith(self, p):
        return _wrap(z3.PrefixOf(sv(p), self.t))

    def endswith(self, p):
        return _wrap(z3.SuffixOf(sv(p), self.t))

    def find(self, s):
        return _wrap(z3.IndexOf(self.t, sv(s), z3.IntVal(0)))

    def _cut(self, sep):
        """(before, after) the first occurrence of a separator that occurs"""
        if not isinstance(sep, str) or not sep:
            raise Unsupported("split at a symbolic separator")
        c = ctx()
        memo = c.memo.setdefault("cuts", {})
        key = (self.t.get_id(), sep)
        t = self.t
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:  # text built as part + separator + rest
            a, m, rest = t.arg(0), t.arg(1), [t.arg(i) for i in range(2, t.num_args())]
            if t.num_args() == 2 and m.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                m, rest = m.arg(0), [m.arg(i) for i in range(1, m.num_args())]
            if z3.is_string_value(m) and m.as_string() == sep and rest and any(q.eq(a) and s == sep for q, s in c.memo.get("no separator", [])):
                memo[key] = (a, rest[0] if len(rest) == 1 else z3.Concat(*rest), t)
        if key not in memo:
            a, b = z3.String(c.fresh_name("before")), z3.String(c.fresh_name("after"))
            c.assume(z3.And(self.t == z3.Concat(a, z3.StringVal(sep), b)))
            if len(sep) == 1:
                c.assume(z3.Not(z3.Contains(a, z3.StringVal(sep))))
                c.memo.setdefault("no separator", []).append((a, sep))
            else:
                raise Unsupported("split at a longer separator")
            memo[key] = (a, b, self.t)
        return memo[key][:2]

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported("split into arbitrarily many parts")
        if not ctx().branch(z3.Contains(self.t, z3.StringVal(sep))):
            return [self]
        a, b = self._cut(sep)
        return [Txt(a), Txt(b)]

    def partition(self, sep):
        if not ctx().branch(z3.Contains(self.t, z3.StringVal(sep))):
            return self, "", ""
        a, b = self._cut(sep)
        return Txt(a), sep, Txt(b)

    def rstrip(self, chars=None):
        """only the form used on canonical names: text built by concatenation"""
        f = z3.Function("rstrip:" + (chars or " "), STR, STR)
        c = ctx()
        r = f(self.t)
        c.assume(z3.PrefixOf(r, self.t))
        return Txt(r)

    def __add__(self, o):
        return Txt(z3.Concat(self.t, sv(o)))

    def __radd__(self, o):
        return Txt(z3.Concat(sv(o), self.t))


def fstr(parts):
    """f-string whose symbolic parts are texts; any other symbolic part makes an opaque message"""
    from .lift import OpaqueStr

    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114 or spec:
                return OpaqueStr()
            if isinstance(v, Txt):
                out.append(v.t)
            elif isinstance(v, str):
                out.append(z3.StringVal(v))
            else:
                return OpaqueStr()
        else:
            out.append(z3.StringVal(p))
    out = [o for o in out if not (z3.is_string_value(o) and o.as_string() == "")]
    if not out:
        return ""
    return Txt(out[0] if len(out) == 1 else z3.Concat(*out))


# ---- paths -------------------------------------------------------------------------------------
class APath:
    """An abstract path: what is known of it is how it was made.

    canonical   the location with every link and dot segment resolved (`resolve`)
    inside(a,b) location a is b or lies below it (pathlib compares whole components)"""

    LOC = z3.DeclareSort("Loc")

    def __init__(self, t, canonical=False):
        self.t, self.canonical = t, canonical

    @classmethod
    def fresh(cls, name="path"):
        c = ctx()
        return cls(z3.Const(c.fresh_name(name), cls.LOC))

    def _f(self, name, *more):
        f = z3.Function("path_" + name, cls_sort(self), *[cls_sort(m) for m in more], APath.LOC)
        return f(self.t, *[m.t for m in more])

    def expanduser(self):
        return APath(self._f("expanduser"))

    def resolve(self, strict=False):
        return APath(self._f("resolve"), canonical=True)

    def is_absolute(self):
        return ctx().branch(is_abs(self.t))

    def __truediv__(self, o):
        o = o if isinstance(o, APath) else path_of(o)
        return APath(self._f("join", o))

    def joinpath(self, *o):
        r = self
        for q in o:
            r = r / q
        return r

    def is_relative_to(self, o):
        return ctx().branch(inside(self.t, o.t))

    def relative_to(self, o):
        if not self.is_relative_to(o):
            raise ValueError("not below")
        return APath(self._f("relative", o))

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, APath) else False

    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"path operation {n}")


def cls_sort(p):
    return APath.LOC


def is_abs(t):
    return z3.Function("path_is_absolute", APath.LOC, z3.BoolSort())(t)


def inside(a, b):
    return z3.Function("path_inside", APath.LOC, APath.LOC, z3.BoolSort())(a, b)


def path_of(x):
    """Path(text)"""
    if isinstance(x, APath):
        return x
    return APath(z3.Function("path_of_text", STR, APath.LOC)(sv(x)))
