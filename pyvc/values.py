"""Symbolic scalars.  Integers are mathematical, floats are modelled as reals."""

from __future__ import annotations

import numbers
from fractions import Fraction

from .core import Unsupported, ctx, z3

U = z3.DeclareSort("U")  # uninterpreted values (labels, strings, foreign objects)

_builtin_int, _builtin_float, _builtin_bool = int, float, bool


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic value")

    def __str__(self):
        raise Unsupported("str() of a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, tb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, tb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.t == tb(o))
        return SymBool(ti(self) == tn(o))

    def __ne__(self, o):
        return SymBool(z3.Not((self == o).t))

    def __hash__(self):
        return id(self)

    def __int__(self):
        raise Unsupported("int() of symbolic bool")

    def __add__(self, o):
        return SymInt(ti(self)) + o

    __radd__ = __add__

    def any(self):
        return self

    all = any

    def item(self):
        return self


class _Num(Sym):
    __slots__ = ()

    # arithmetic -----------------------------------------------------
    def __add__(self, o):
        return _arith(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        return _arith(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return _arith(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _arith(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition by a symbolic count")
        return _arith(self, o, nmul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return sdiv(self, o)

    def __rtruediv__(self, o):
        return sdiv(o, self)

    def __floordiv__(self, o):
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        return sfloordiv(o, self)

    def __mod__(self, o):
        return smod(self, o)

    def __rmod__(self, o):
        return smod(o, self)

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def __neg__(self):
        return type(self)(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    # comparison -----------------------------------------------------
    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _numlike(o):
            return NotImplemented if not isinstance(o, Sym) else SymBool(z3.BoolVal(False))
        return _cmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _numlike(o):
            return True
        return _cmp(self, o, lambda a, b: a != b)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic number reached CPython")

    def item(self):
        return self

    def __round__(self, nd=None):
        return sround(self, nd)


class SymInt(_Num):
    __slots__ = ()

    def __index__(self):
        v = concretize(self)
        if v is None:
            c = ctx()
            if not c.probe_mode and c.entails(z3.And(self.t >= 0, self.t < 6)):
                for v in range(6):  # a position in a short concrete list: one path per position
                    if c.branch(self.t == v):
                        return v
            raise Unsupported("symbolic integer used as a concrete index")
        return v

    def __int__(self):
        v = concretize(self)
        if v is None:
            raise Unsupported("symbolic integer reached CPython int()")
        return v

    def __invert__(self):
        return SymInt(-self.t - 1)

    def __xor__(self, o):
        return _bitop("xor", self, o)

    def __rxor__(self, o):
        return _bitop("xor", o, self)

    def __and__(self, o):
        return _bitop("and", self, o)

    def __rand__(self, o):
        return _bitop("and", o, self)

    def astype(self, *_a, **_k):
        return self


class SymReal(_Num):
    __slots__ = ()


_BITF = {}


def _bitop(name, a, b):
    f = _BITF.setdefault(name, z3.Function("bit" + name, z3.IntSort(), z3.IntSort(), z3.IntSort()))
    return SymInt(f(ti(a), ti(b)))


class SymU(Sym):
    """A value of which only identity (equality) is known: class labels, strings, objects."""

    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, SymU):
            return SymBool(self.t == o.t)
        if isinstance(o, str):
            return SymBool(self.t == strconst(o))
        return SymBool(z3.BoolVal(False))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.t))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        f = z3.Function("truthy", U, z3.BoolSort())
        return ctx().branch(f(self.t))


_STR = {}


def strconst(s):
    """Distinct constants for distinct concrete strings."""
    c = ctx()
    t = z3.Const("str:" + s, U)
    known = c.memo.setdefault("strs", {})
    if s not in known:
        for o in known.values():
            c.assume(o != t)
        known[s] = t
    return t


def _numlike(o):
    import numpy as _np

    return isinstance(o, (_Num, SymBool, bool, int, float, Fraction, numbers.Number, _np.generic))


def tn(x):
    """z3 Int or Real term of a number."""
    import numpy as _np

    if isinstance(x, (SymInt, SymReal)):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in symbolic arithmetic")
        return z3.RealVal(Fraction(f))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported(f"not a number: {type(x).__name__}")


def ti(x):
    t = tn(x)
    if z3.is_real(t):
        raise Unsupported("real where an integer is needed")
    return t


def tr(x):
    t = tn(x)
    if z3.is_int(t):
        return z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
    return t


def tb(x):
    import numpy as _np

    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (_Num, int)):
        return tn(x) != 0
    raise Unsupported(f"not a truth value: {type(x).__name__}")


def wrap(t):
    t = z3.simplify(t) if not z3.is_const(t) else t
    if z3.is_bool(t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    if z3.is_int(t):
        return t.as_long() if z3.is_int_value(t) else SymInt(t)
    if z3.is_real(t):
        return SymReal(t)
    if t.sort() == U:
        return SymU(t)
    raise Unsupported(f"no wrapper for sort {t.sort()}")


def unwrap(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, str):
        return strconst(x)
    if isinstance(x, (bool,)):
        return z3.BoolVal(x)
    return tn(x)


def _pair(a, b):
    ta, tb_ = tn(a), tn(b)
    if z3.is_real(ta) != z3.is_real(tb_):
        ta, tb_ = tr(a), tr(b)
    return ta, tb_


def _isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


_NL = {
    ("mul", True): z3.Function("nlmul", z3.IntSort(), z3.IntSort(), z3.IntSort()),
    ("mul", False): z3.Function("nlmulr", z3.RealSort(), z3.RealSort(), z3.RealSort()),
    ("div", False): z3.Function("nldiv", z3.RealSort(), z3.RealSort(), z3.RealSort()),
    ("idiv", True): z3.Function("nlidiv", z3.IntSort(), z3.IntSort(), z3.IntSort()),
    ("imod", True): z3.Function("nlimod", z3.IntSort(), z3.IntSort(), z3.IntSort()),
}


def nmul(x, y):
    """product; a product of two unknowns is an uninterpreted term with its definition on the side"""
    x, y = z3.simplify(x), z3.simplify(y)
    if _isnum(x) or _isnum(y):
        return x * y
    c = ctx()
    if x.get_id() > y.get_id():
        x, y = y, x
    t = _NL[("mul", z3.is_int(x))](x, y)
    key = ("nl", t.get_id())
    if key not in c.ghost:
        c.ghost[key] = t
        c.assume_nl(t == x * y)
        c.assume(z3.And(
            z3.Implies(z3.And(x >= 0, y >= 0), t >= 0),
            z3.Implies(z3.Or(x == 0, y == 0), t == 0),
            z3.Implies(x == 1, t == y), z3.Implies(y == 1, t == x),
            z3.Implies(z3.And(x >= 0, y >= 0, y <= 1), t <= x),
            z3.Implies(z3.And(x >= 0, y >= 0, x <= 1), t <= y),
            z3.Implies(z3.And(x > 0, y > 0), t > 0),
        ))
        for p, q in ((x, y), (y, x)):
            if q.decl().eq(_NL[("div", False)]):  # p * (a / b) == (p * a) / b
                a, b = q.children()
                c.assume(z3.Implies(b != 0, t == ndiv(nmul(p, a), b)))
    return t


def ndiv(x, y):
    """real quotient (the divisor is known or assumed to be non-zero by the caller)"""
    x, y = z3.simplify(x), z3.simplify(y)
    if _isnum(y):
        return x / y
    c = ctx()
    t = _NL[("div", False)](x, y)
    key = ("nl", t.get_id())
    if key not in c.ghost:
        c.ghost[key] = t
        c.assume_nl(z3.Implies(y != 0, t * y == x))
        c.assume(z3.And(
            z3.Implies(z3.And(x >= 0, y > 0), t >= 0),
            z3.Implies(z3.And(x > 0, y > 0), t > 0),
            z3.Implies(z3.And(x == 0, y != 0), t == 0),
            z3.Implies(z3.And(y != 0, x == y), t == 1),
            z3.Implies(z3.And(y > 0, x <= y), t <= 1),
            z3.Implies(z3.And(y > 0, x >= y), t >= 1),
            z3.Implies(z3.And(y > 0, x < y), t < 1),
        ))
        same = c.ghost.setdefault(("divby", y.get_id()), [])
        for x2, t2, _ in same[:6]:  # quotients by the same divisor keep their order
            c.assume(z3.Implies(y > 0, z3.And((x < x2) == (t < t2), (x == x2) == (t == t2))))
        same.append((x, t, y))
        if y.decl().eq(_NL[("mul", False)]):  # x / (a * b) == (x / a) / b
            a, b = y.children()
            c.assume(z3.Implies(z3.And(a != 0, b != 0), t == ndiv(ndiv(x, a), b)))
        if x.decl().eq(_NL[("div", False)]):  # (p / q) / y == (p / y) / q
            p, q = x.children()
            if not q.eq(y):
                c.assume(z3.Implies(z3.And(q != 0, y != 0), t == ndiv(ndiv(p, y), q)))
    return t


def nidiv(x, y):
    """floor quotient and remainder by a positive unknown"""
    x, y = z3.simplify(x), z3.simplify(y)
    if _isnum(y):
        return x / y, x % y
    c = ctx()
    q, r = _NL[("idiv", True)](x, y), _NL[("imod", True)](x, y)
    key = ("nl", q.get_id())
    if key not in c.ghost:
        c.ghost[key] = (q, r)
        p = nmul(q, y)
        c.assume(z3.Implies(y > 0, z3.And(p + r == x, r >= 0, r < y)))
        c.assume(z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)))
    return q, r


def _arith(a, b, op):
    from .arrays import SArr

    if isinstance(a, SArr) or isinstance(b, SArr):
        return NotImplemented
    if not _numlike(a) or not _numlike(b):
        return NotImplemented
    x, y = _pair(a, b)
    return _w(op(x, y))


def _w(t):
    return SymInt(t) if z3.is_int(t) else SymReal(t)


def _cmp(a, b, op):
    from .arrays import SArr

    if isinstance(a, SArr) or isinstance(b, SArr):
        return NotImplemented
    if isinstance(b, float) and b in (float("inf"), float("-inf")):
        big = b > 0  # every modelled number is finite
        probe = op(z3.RealVal(0), z3.RealVal(1 if big else -1))
        return SymBool(z3.simplify(probe))
    if not _numlike(a) or not _numlike(b):
        return NotImplemented
    x, y = _pair(a, b)
    return SymBool(op(x, y))


def sdiv(a, b):
    from .arrays import SArr

    if isinstance(a, SArr) or isinstance(b, SArr):
        return NotImplemented
    y = tr(b)
    if not ctx().entails(y != 0) and ctx().branch(y == 0):
        raise ZeroDivisionError("division by zero")
    return SymReal(ndiv(tr(a), y))


def sfloordiv(a, b):
    x, y = tn(a), tn(b)
    if z3.is_real(x) or z3.is_real(y):
        raise Unsupported("real floor division")
    if not ctx().entails(y > 0):
        if ctx().branch(y == 0):
            raise ZeroDivisionError
        if ctx().branch(y < 0):
            raise Unsupported("floor division by a negative number")
    return SymInt(nidiv(x, y)[0])


def smod(a, b):
    x, y = tn(a), tn(b)
    if z3.is_real(x) or z3.is_real(y):
        raise Unsupported("real modulo")
    if not ctx().entails(y > 0):
        if ctx().branch(y == 0):
            raise ZeroDivisionError
        if ctx().branch(y < 0):
            raise Unsupported("modulo by a negative number")
    return SymInt(nidiv(x, y)[1])


_POW = None


def spow(a, b):
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = a * r if not isinstance(r, int) else (a if r == 1 else a * r)
        return r
    if isinstance(b, float) and b == 0.5 or isinstance(b, float) and b == -0.5:
        r = ssqrt(a)
        return r if b > 0 else sdiv(1, r)
    f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    x, y = tr(a), tr(b)
    t = f(x, y)
    c = ctx()
    c.assumption_notes.add("pow: 0<a<=1, b>=0 => 0 < a**b <= 1; a>0 => a**b > 0; a**0 = 1")
    c.assume(z3.Implies(z3.And(x > 0), t > 0))
    c.assume(z3.Implies(z3.And(x > 0, x <= 1, y >= 0), t <= 1))
    c.assume(z3.Implies(y == 0, t == 1))
    return SymReal(t)


def ssqrt(a):
    x = tr(a)
    f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    t = f(x)
    c = ctx()
    c.assume(z3.Implies(x >= 0, z3.And(t >= 0, (t > 0) == (x > 0))))
    c.assume_nl(z3.Implies(x >= 0, t * t == x))
    return SymReal(t)


def sexplog(op, a):
    """exp and log: uninterpreted, inverse to each other, strictly monotone between the terms met"""
    c = ctx()
    x = tr(a)
    E, L = z3.Function("exp", z3.RealSort(), z3.RealSort()), z3.Function("log", z3.RealSort(), z3.RealSort())
    if op == "log":
        if not c.entails(x > 0) and c.branch(x <= 0):
            raise ValueError("math domain error")
        y = L(x)
        c.assume(E(y) == x)
    else:
        y = E(x)
        c.assume(z3.And(y > 0, L(y) == x))
    args = c.memo.setdefault("explog", [])
    p, q = (x, y) if op == "exp" else (y, x)  # exp(p) == q
    for p2, q2 in args:
        c.assume(z3.And((p < p2) == (q < q2), (p == p2) == (q == q2)))
    args.append((p, q))
    return SymReal(y)


def sround(a, nd=None):
    if nd is not None:
        raise Unsupported("round with digits")
    t = tn(a)
    if z3.is_int(t):
        return SymInt(t)
    fl = z3.ToInt(t)
    fr = t - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    r = z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return SymInt(r)


def sfloor(a):
    t = tn(a)
    return a if z3.is_int(t) else SymInt(z3.ToInt(t))


def sint(a):
    """Python int(): truncation towards zero."""
    if isinstance(a, SymInt):
        return a
    if isinstance(a, SymBool):
        return SymInt(tn(a))
    t = tn(a)
    if z3.is_int(t):
        return SymInt(t)
    return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def sfloat(a):
    return SymReal(tr(a))


def smin(a, b):
    x, y = _pair(a, b)
    return _w(z3.If(y < x, y, x))


def smax(a, b):
    x, y = _pair(a, b)
    return _w(z3.If(y > x, y, x))


def concretize(x):
    """The unique concrete value of a symbolic integer on this path, or None."""
    t = z3.simplify(x.t)
    if z3.is_int_value(t):
        return t.as_long()
    c = ctx()
    key = ("conc", t.get_id())
    if c._check() != z3.sat:
        return None
    v = c.solver.model().eval(t, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if c.entails(t == v):
        return v.as_long()
    return None
