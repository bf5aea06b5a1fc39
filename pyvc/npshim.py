"""Contracts of the numpy functions the code under verification calls.

These are assumed contracts on a dependency (part of the trusted base); `pyvc.selftest` tests each
of them against the installed numpy on concrete inputs.
"""

from __future__ import annotations

import numpy as _np

from . import arrays as A
from .arrays import (
    DType,
    SArr,
    I0,
    I1,
    add_probe,
    const_array,
    dim,
    dtype_kind,
    dz,
    ew1,
    ew2,
    forall,
    fresh_array,
    same_dim,
)
from .core import PathEnd, Unsupported, ctx, z3
from .lists import ArrList, FamItem, ScalarSeq, SymSeq
from .values import Sym, SymBool, SymInt, SymReal, SymU, U, _numlike, nidiv, sdiv, sfloor, smax, smin, ssqrt, tb, ti, tn, tr, unwrap, wrap


def is_symbolic(x):
    if isinstance(x, (Sym, SArr, SymSeq, ArrList, FamItem)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(v) for v in x)
    if isinstance(x, dict):
        return any(is_symbolic(v) for v in x.values())
    return False


def arr(x, kind=None):
    """coerce to a symbolic array"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, _np.ndarray):
        if x.ndim == 1:
            k = {"i": "i", "u": "i", "f": "f", "b": "b"}.get(x.dtype.kind)
            if k is None:
                raise Unsupported("concrete array of objects")
            return const_array([v.item() for v in x], kind=k)
        raise Unsupported("concrete n-d array in symbolic code")
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, (SArr,)) for v in x):
            raise Unsupported("array of arrays")
        return const_array(x, kind)
    if isinstance(x, SymSeq):
        t = unwrap(x.item_fn(z3.Int("__k0")))
        f = x.item_fn
        r = SArr((x.n,), A.kind_of_term(t), lambda i: unwrap(f(i)))
        ctx().ghost.setdefault("from lists", []).append(r)
        return r
    if isinstance(x, (Sym,)) or _numlike(x):
        t = unwrap(x)
        return SArr((), A.kind_of_term(t), lambda: t)
    raise Unsupported(f"array from {type(x).__name__}")


class NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArr, _np.ndarray))


class ndarray(metaclass=NDMeta):
    pass


class GenMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SRng, _np.random.Generator))


class Generator(metaclass=GenMeta):
    pass


class SRng:
    """numpy.random.Generator: every draw is arbitrary within its contract."""

    def __init__(self, name="rng"):
        self.name = name
        self.draws = 0

    def permutation(self, x):
        self.draws += 1
        c = ctx()
        if isinstance(x, (int, SymInt)):
            x = A.arange(x)
        x = arr(x)
        if x.ndim != 1:
            raise Unsupported("permutation of a matrix")
        f = c.func("perm", z3.IntSort(), A._SORT[x.kind]())
        if x.kind == "i":
            x.cnt(z3.IntVal(-1))
            cf = x.cntf
            r = SArr(x._shape, "i", lambda i: f(i), cntf=cf)
            r.count_facts_done = True
            if c.ghost.get("selection order") and x.org and x.org[0] == "arange":
                lo, n = x.org[1], x.sz
                q = c.func("permpos", z3.IntSort(), z3.IntSort())
                forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(f(i) >= lo, f(i) < lo + n, q(f(i) - lo) == i)))
            return r
        return SArr(x._shape, x.kind, lambda i: f(i))

    def shuffle(self, x):
        if not isinstance(x, SArr):
            raise Unsupported("shuffle of a list")
        p = self.permutation(x)
        cf = p.cntf
        x._store_all(p._fn)
        x.cntf = cf

    def choice(self, a, size=None, replace=True, p=None):
        self.draws += 1
        c = ctx()
        if p is not None:
            raise Unsupported("choice with probabilities")
        if isinstance(a, (int, SymInt)):
            a = A.arange(a)
        a = arr(a)
        if size is None:
            i = c.int("pick")
            c.assume(z3.And(i >= 0, i < a.sz))
            return wrap(a.elem(i))
        if isinstance(size, tuple):
            raise Unsupported("choice with a shape")
        k = ti(size)
        if not c.entails(k >= 0) and c.branch(k < 0):
            raise ValueError("negative dimensions are not allowed")
        f = c.func("choice", z3.IntSort(), A._SORT[a.kind]())
        if replace is False:
            if not c.entails(k <= a.sz) and c.branch(k > a.sz):
                raise ValueError("Cannot take a larger sample than population when replace is False")
        elif replace is not True:
            raise Unsupported("choice replace flag")
        else:
            if not c.entails(a.sz > 0) and c.branch(z3.And(a.sz == 0, k > 0)):
                raise ValueError("a cannot be empty unless no samples are taken")
        if a.kind != "i":
            return SArr((k,), a.kind, lambda i: f(i))
        a.cnt(z3.IntVal(-1))
        acf, n = a.cntf, a.sz
        cf = c.func("choice_cnt", z3.IntSort(), z3.IntSort())
        r = SArr((k,), "i", lambda i: f(i), cntf=lambda x: cf(x))
        r.count_facts_done = True
        if replace is False:
            forall(lambda x: z3.And(cf(x) >= 0, cf(x) <= k, cf(x) <= acf(x), z3.Implies(k == n, cf(x) == acf(x))))
        else:
            forall(lambda x: z3.And(cf(x) >= 0, cf(x) <= k, z3.Implies(cf(x) >= 1, acf(x) >= 1)))
        return r

    def integers(self, low, high=None, size=None, **_k):
        self.draws += 1
        lo, hi = (0, low) if high is None else (low, high)
        c = ctx()
        lo, hi = ti(lo), ti(hi)
        if not c.entails(lo < hi) and c.branch(lo >= hi):
            raise ValueError("low >= high")
        if size is None:
            v = c.int("rint")
            c.assume(z3.And(v >= lo, v < hi))
            return SymInt(v)
        sh = size if isinstance(size, tuple) else (size,)
        a = fresh_array("rint", sh, "i")
        f = a._fn

        def at(*ix):
            t = f(*ix)
            ctx().assume(z3.And(t >= lo, t < hi))
            return t

        a._fn = at
        return a

    def random(self, size=None, **_k):
        self.draws += 1
        c = ctx()
        if size is None:
            v = c.real("runi")
            c.assume(z3.And(v >= 0, v < 1))
            return SymReal(v)
        sh = size if isinstance(size, tuple) else (size,)
        a = fresh_array("runi", sh, "f")
        f = a._fn

        def at(*ix):
            t = f(*ix)
            ctx().assume(z3.And(t >= 0, t < 1))
            return t

        a._fn = at
        return a

    def uniform(self, low=0.0, high=1.0, size=None):
        self.draws += 1
        c = ctx()
        if size is not None:
            raise Unsupported("uniform arrays")
        v = c.real("runi")
        lo, hi = tr(low), tr(high)
        c.assume(z3.And(v >= lo, v <= hi))
        return SymReal(v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.draws += 1
        c = ctx()
        if size is None:
            return SymReal(c.real("rnorm"))
        sh = size if isinstance(size, tuple) else (size,)
        return fresh_array("rnorm", sh, "f")

    def standard_normal(self, size=None, **_k):
        return self.normal(size=size)


class _Random:
    Generator = Generator

    class SeedSequence:
        def __init__(self, *a, **k):
            self.args = (a, k)

    @staticmethod
    def default_rng(seed=None):
        r = SRng("rng")
        r.seed = seed
        ctx().ghost.setdefault("rng_seeds", []).append(seed)
        return r

    def __getattr__(self, n):
        if ctx().ghost.get("no global state"):
            ctx().oblige("no global random state is read or changed", False)
        raise Unsupported(f"numpy.random.{n}")


class _Add:
    """np.add and np.add.at"""

    def __call__(self, a, b, out=None):
        if out is not None:
            raise Unsupported("add into an array")
        return A.ew2(a, b, "add")

    @staticmethod
    def at(a, idx, v):
        A.add_at(a, arr(idx), v if isinstance(v, SArr) else v)


class _Linalg:
    def norm(self, a, ord=None, axis=None):
        if ord is not None or axis is not None:
            raise Unsupported("linalg.norm options")
        a = arr(a)
        if a.ndim == 1:
            return ssqrt(A.inner(a, a))
        # the root of the sum of squares: zero exactly when every entry is
        c = ctx()
        key = ("fro", a.uid)
        if key not in c.ghost:
            s = c.real("squares")
            c.ghost[key] = s
            fz = A._freeze(a)
            c.ghost.setdefault("inners", []).append((fz, fz, s))
            c.assume(s >= 0)
            ws = [c.int("nonzero") for _ in range(a.ndim)]
            rng = z3.And(*[z3.And(w >= 0, w < dz(d)) for w, d in zip(ws, a._shape)])
            c.assume(z3.Or(s == 0, z3.And(rng, fz.at(*ws) != 0)))
        return ssqrt(SymReal(c.ghost[key]))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy.linalg.{n}")


class NP:
    """the module object seen as `numpy` by lifted code"""

    ndarray = ndarray
    generic = type("generic", (), {})
    nan = float("nan")
    inf = float("inf")
    pi = _np.pi
    newaxis = None
    int64, int32, int16, int8, uint8, intp, uint32, uint64 = (
        _np.int64, _np.int32, _np.int16, _np.int8, _np.uint8, _np.intp, _np.uint32, _np.uint64)
    float64, float32, float16 = _np.float64, _np.float32, _np.float16
    bool_ = _np.bool_
    integer, floating, number = _np.integer, _np.floating, _np.number
    object_, str_ = _np.object_, _np.str_
    random = _Random()
    linalg = _Linalg()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy.{n}")

    # construction
    def asarray(self, x, dtype=None, **_k):
        if isinstance(x, SArr):
            if dtype is None:
                return x
            k = dtype_kind(dtype, x.kind)
            return x if k == x.kind else x.astype(dtype)
        r = arr(x, dtype_kind(dtype, None) if isinstance(x, (list, tuple)) else None)
        return r if dtype is None else r.astype(dtype, copy=False)

    def array(self, x, dtype=None, copy=True, **_k):
        r = self.asarray(x, dtype)
        return r.copy() if r is x else r

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def zeros(self, shape, dtype=float):
        k = dtype_kind(dtype, "f")
        return A.full(shape, False if k == "b" else 0, k)

    def ones(self, shape, dtype=float):
        k = dtype_kind(dtype, "f")
        return A.full(shape, True if k == "b" else 1, k)

    def empty(self, shape, dtype=float):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return fresh_array("empty", shape, dtype_kind(dtype, "f"))

    def full(self, shape, v, dtype=None):
        t = unwrap(v)
        return A.full(shape, v, dtype_kind(dtype, A.kind_of_term(t)))

    def zeros_like(self, a, dtype=None):
        a = arr(a)
        return self.zeros(a.shape, DType(a.kind) if dtype is None else dtype)

    def ones_like(self, a, dtype=None):
        a = arr(a)
        return self.ones(a.shape, DType(a.kind) if dtype is None else dtype)

    def full_like(self, a, v, dtype=None):
        a = arr(a)
        return A.full(a.shape, v, dtype_kind(dtype, a.kind))

    def empty_like(self, a, dtype=None):
        a = arr(a)
        return self.empty(a.shape, DType(a.kind) if dtype is None else dtype)

    def arange(self, a, b=None, step=None, dtype=None):
        return A.arange(a, b, step)

    def eye(self, n, dtype=float):
        k = dtype_kind(dtype, "f")
        return SArr((n, n), k, lambda i, j: A.conv(z3.If(i == j, I1, I0), k))

    # elementwise
    def floor(self, a):
        if not isinstance(a, SArr):
            return wrap(A.conv(unwrap(sfloor(a)), "f"))
        return ew1(a, lambda t: z3.ToReal(z3.ToInt(t)) if z3.is_real(t) else z3.ToReal(t))

    def ceil(self, a):
        return ew1(a, lambda t: z3.ToReal(-z3.ToInt(-t)) if z3.is_real(t) else z3.ToReal(t))

    def abs(self, a):
        return ew1(a, lambda t: z3.If(t >= 0, t, -t))

    absolute = abs

    def sqrt(self, a):
        return ew1(a, lambda t: unwrap(ssqrt(wrap(t))))

    def square(self, a):
        return a * a

    def _unint(self, name, a, pos=False):
        f = z3.Function("np_" + name, z3.RealSort(), z3.RealSort())

        def g(t):
            r = f(A.conv(t, "f"))
            if pos:
                ctx().assume(r > 0)
            return r

        return ew1(a, g)

    def exp(self, a):
        from .values import sexplog

        E = z3.Function("exp", z3.RealSort(), z3.RealSort())
        seen = set()

        def g(t):
            t = A.conv(t, "f")
            if ctx().ghost.get("dummy") or len(seen) > 12:
                ctx().assume(E(t) > 0)
                return E(t)
            if t.get_id() in seen:
                return E(t)
            seen.add(t.get_id())
            keep.append(t)
            return unwrap(sexplog("exp", wrap(t)))

        keep = []
        return ew1(a, g, kind="f")

    def log(self, a):
        return self._unint("log", a)

    def log1p(self, a):
        return self._unint("log1p", a)

    def isnan(self, a):
        if isinstance(a, SArr) and a.kind == "U" and ctx().choose(2, "labels are not numbers"):
            raise TypeError("ufunc 'isnan' not supported for the input types")
        ctx().assumption_notes.add("numeric inputs are free of NaN and infinities")
        return ew1(a, lambda t: z3.BoolVal(False))

    def isinf(self, a):
        return self.isnan(a)

    def isfinite(self, a):
        ctx().assumption_notes.add("numeric inputs are free of NaN and infinities")
        return ew1(a, lambda t: z3.BoolVal(True))

    def nan_to_num(self, a, **_k):
        return self.array(a)

    def minimum(self, a, b):
        return _mm(a, b, "min")

    def maximum(self, a, b):
        return _mm(a, b, "max")

    @property
    def add(self):
        return _Add()

    def subtract(self, a, b):
        return a - b

    def multiply(self, a, b):
        return a * b

    def divide(self, a, b, out=None, where=None):
        if out is not None or where is not None:
            if not (isinstance(out, SArr) and isinstance(where, SArr)):
                raise Unsupported("divide with out=/where=")
            q = ew2(a, b, "div")
            of, wf, qf = out.snapshot(), where.snapshot(), q.snapshot()
            shape, ma, mb = A.bcast(q, where)
            out._store_all(lambda *ix: z3.If(wf(*mb(ix)), qf(*ma(ix)), of(*ix)))
            return out
        return a / b

    true_divide = divide

    def equal(self, a, b):
        return a == b

    def not_equal(self, a, b):
        return a != b

    def logical_and(self, a, b):
        return arr(a) & b

    def logical_or(self, a, b):
        return arr(a) | b

    def logical_not(self, a):
        return ~a

    def clip(self, a, lo, hi):
        r = a
        if lo is not None:
            r = _mm(r, lo, "max")
        if hi is not None:
            r = _mm(r, hi, "min")
        return r

    def where(self, cond, x=None, y=None):
        cond = arr(cond)
        if x is None:
            return (A.flatnonzero(cond),)
        X = arr(x) if isinstance(x, (SArr, list, _np.ndarray)) else None
        Y = arr(y) if isinstance(y, (SArr, list, _np.ndarray)) else None
        shape, mc, mo = cond._shape, None, None
        fc = cond.snapshot()
        if X is not None:
            s1, mc1, mx = A.bcast(cond, X)
        else:
            s1, mc1, mx = cond._shape, (lambda ix: ix), None
        if Y is not None:
            base = SArr(s1, "b", lambda *ix: z3.BoolVal(True))
            s2, m1, my = A.bcast(base, Y)
        else:
            s2, m1, my = s1, (lambda ix: ix), None
        xt = X.snapshot() if X is not None else None
        yt = Y.snapshot() if Y is not None else None
        xv = unwrap(x) if X is None else None
        yv = unwrap(y) if Y is None else None

        def fn(*ix):
            jx = m1(ix)
            a = xt(*mx(jx)) if xt else xv
            b = yt(*my(ix)) if yt else yv
            if a.sort() != b.sort():
                if z3.is_bool(a):
                    a = A.conv(a, "i")
                if z3.is_bool(b):
                    b = A.conv(b, "i")
                if a.sort() != b.sort():
                    a, b = A.conv(a, "f"), A.conv(b, "f")
            return z3.If(fc(*mc1(jx)), a, b)

        return A._mk(s2, fn)

    # reductions
    def sum(self, a, axis=None, keepdims=False, dtype=None):
        return arr(a).sum(axis=axis, keepdims=keepdims)

    def mean(self, a, axis=None, keepdims=False, dtype=None):
        if isinstance(a, (list, tuple)):
            if not a:
                raise Unsupported("mean of an empty list (nan)")
            s = a[0]
            for v in a[1:]:
                s = s + v
            return s / len(a)
        return arr(a).mean(axis=axis, keepdims=keepdims)

    def max(self, a, axis=None, keepdims=False):
        return arr(a).max(axis=axis, keepdims=keepdims)

    amax = max

    def min(self, a, axis=None, keepdims=False):
        return arr(a).min(axis=axis, keepdims=keepdims)

    amin = min

    def any(self, a, axis=None):
        if isinstance(a, (SymBool, bool)):
            return a
        return arr(a).any(axis=axis)

    def all(self, a, axis=None):
        if isinstance(a, (SymBool, bool)):
            return a
        return arr(a).all(axis=axis)

    def count_nonzero(self, a):
        a = arr(a)
        return wrap(A.count_true(a if a.kind == "b" else a.astype(DType("b"))))

    def argmax(self, a, axis=None):
        return arr(a).argmax(axis=axis)

    def argsort(self, a, **_k):
        if getattr(a, "ndim", 1) != 1:
            raise Unsupported("argsort of a matrix")
        return A.argsort(arr(a))

    # index sets
    def sort(self, a, **_k):
        a = arr(a)
        if a.ndim != 1:
            raise Unsupported("sort of a matrix")
        if a.srt:
            return a.copy()
        c = ctx()
        f = c.func("sorted", z3.IntSort(), A._SORT[a.kind]())
        if a.kind != "i":
            return SArr(a._shape, a.kind, lambda i: f(i), srt=True)
        a.cnt(z3.IntVal(-1))
        cf = a.cntf
        r = SArr(a._shape, "i", lambda i: f(i), cntf=lambda x: cf(x), srt=True)
        r.count_facts_done = True
        pos = c.func("sortpos", z3.IntSort(), z3.IntSort())
        r.posf = pos
        n = a.sz
        forall(lambda x: z3.Implies(cf(x) >= 1, z3.And(pos(x) >= 0, pos(x) < n, f(pos(x)) == x)))
        return r

    def concatenate(self, xs, axis=0):
        if isinstance(xs, ArrList):
            return xs.concat()
        if isinstance(xs, FamItem):
            return xs.as_list().concat()
        if isinstance(xs, SymSeq):
            raise Unsupported("concatenate of a symbolic sequence")
        xs = [arr(x) for x in xs]
        if not xs:
            raise ValueError("need at least one array to concatenate")
        if axis in (1, -1) and xs[0].ndim == 2:
            return self.concatenate([x.transpose() for x in xs]).transpose()
        if axis not in (0, None) and not (axis == -1 and xs[0].ndim == 1):
            raise Unsupported("concatenate axis")
        kinds = {x.kind for x in xs}
        # an empty literal array does not change the values
        kind = "f" if "f" in kinds else ("i" if "i" in kinds else xs[0].kind)
        if "U" in kinds and kinds != {"U"}:
            raise Unsupported("concatenate of mixed kinds")
        out = xs[0]
        for y in xs[1:]:
            out = _cat2(out, y, kind)
        return out if len(xs) > 1 else out.copy()

    def hstack(self, xs):
        xs = [arr(x) for x in xs]
        return self.concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)

    def vstack(self, xs):
        xs = [arr(x) for x in xs]
        xs = [x[None, :] if x.ndim == 1 else x for x in xs]
        return self.concatenate(xs, axis=0)

    def stack(self, xs, axis=0):
        xs = [arr(x) for x in xs]
        if axis != 0 or any(x.ndim != 1 for x in xs):
            if axis == 1 and all(x.ndim == 1 for x in xs):
                return self.stack(xs).transpose()
            raise Unsupported("stack")
        return self.vstack(xs)

    def unique(self, a, return_counts=False, return_inverse=False, return_index=False, axis=None):
        if return_index or axis is not None:
            raise Unsupported("unique options")
        a = arr(a)
        r = unique_contract(a)
        out = [r["classes"]]
        if return_inverse:
            out.append(r["inverse"])
        if return_counts:
            out.append(r["counts"])
        return out[0] if len(out) == 1 else tuple(out)

    def setdiff1d(self, a, b, assume_unique=False):
        a, b = arr(a), arr(b)
        return _setop(a, b, lambda x, y: z3.And(x >= 1, y == 0), "diff", a, b, assume_unique)

    def intersect1d(self, a, b, assume_unique=False):
        a, b = arr(a), arr(b)
        return _setop(a, b, lambda x, y: z3.And(x >= 1, y >= 1), "inter", a, b, assume_unique)

    def union1d(self, a, b):
        a, b = arr(a), arr(b)
        return _setop(a, b, lambda x, y: z3.Or(x >= 1, y >= 1), "union", a, b, False)

    def isin(self, a, b, assume_unique=False, invert=False):
        a, b = arr(a), arr(b)
        if isinstance(b._shape[0] if b.ndim == 1 else None, int) and b._shape[0] <= 8:
            items = [b.at(z3.IntVal(k)) for k in range(b._shape[0])]
            if any(t.sort() != A._SORT[a.kind]() for t in items):
                if a.kind == "U":
                    raise Unsupported("isin of mixed kinds")
            af = a.snapshot()

            def member(*ix):
                v = af(*ix)
                t = z3.Or(*[A._term_op("eq", v, q) for q in items]) if items else z3.BoolVal(False)
                return z3.Not(t) if invert else t

            return SArr(a._shape, "b", member)
        if a.kind == "U" and b.kind == "U" and b.ndim == 1:
            c = ctx()
            memb, pos = c.func("member", U, z3.BoolSort()), c.func("memberpos", U, z3.IntSort())
            af, bf, m = a.snapshot(), b.snapshot(), b.sz
            forall(lambda k: z3.Implies(z3.And(k >= 0, k < m), memb(bf(k))))

            def member(*ix):
                v = af(*ix)
                ctx().assume(z3.Implies(memb(v), z3.And(pos(v) >= 0, pos(v) < m, bf(pos(v)) == v)))
                return z3.Not(memb(v)) if invert else memb(v)

            return SArr(a._shape, "b", member)
        if a.kind != "i" or b.kind != "i":
            raise Unsupported("isin of non-integers")
        b.cnt(z3.IntVal(-1))
        bc, af = b.cntf, a.snapshot()

        def fn(*ix):
            t = af(*ix)
            add_probe(t)
            r = bc(t) >= 1
            return z3.Not(r) if invert else r

        r = SArr(a._shape, "b", fn)
        if a.ndim == 1:
            r.org = ("valpred", A._freeze(a), (lambda v: bc(v) == 0) if invert else (lambda v: bc(v) >= 1))
        return r

    in1d = isin

    def array_split(self, a, k):
        a = arr(a)
        c = ctx()
        kz = ti(k)
        if not c.entails(kz >= 1) and c.branch(kz <= 0):
            raise ValueError("number sections must be larger than 0.")
        a.cnt(z3.IntVal(-1))
        cf, n = a.cntf, a.sz
        r = ArrList.fresh("chunk", kz)
        r._tot = lambda x: cf(x)
        r._S = n
        sf = r._size
        from .values import nidiv

        qz = nidiv(n, kz)[0]

        def size(i):
            ctx().assume(z3.Implies(z3.And(i >= 0, i < kz), z3.And(sf(i) >= qz, sf(i) <= qz + 1)))
            return sf(i)

        r._size = size
        return r

    def array_equal(self, a, b, equal_nan=False):
        c = ctx()
        a, b = arr(a), arr(b)
        if a.ndim != b.ndim:
            return False
        for s, t in zip(a._shape, b._shape):
            if not same_dim(s, t) and c.branch(dz(s) != dz(t)):
                return False
        eq = c.bool("arreq")
        af, bf = a.snapshot(), b.snapshot()
        if a.ndim == 1:
            n = a.sz
            w = c.int("neq")
            add_probe(w)
            c.assume(z3.Implies(z3.Not(eq), z3.And(w >= 0, w < n, A._term_op("ne", af(w), bf(w)))))
            forall(lambda x: z3.Implies(z3.And(eq, x >= 0, x < n), A._term_op("eq", af(x), bf(x))))
            if a.kind == "i" and b.kind == "i":
                a.cnt(z3.IntVal(-1)), b.cnt(z3.IntVal(-1))
                ac, bc = a.cntf, b.cntf
                forall(lambda x: z3.Implies(eq, ac(x) == bc(x)))
                if a.srt and b.srt:
                    # equal multisets in sorted order are equal arrays
                    wv = c.int("cneq")
                    add_probe(wv)
                    c.assume(z3.Implies(z3.Not(eq), ac(wv) != bc(wv)))
            return SymBool(eq)
        raise Unsupported("array_equal of matrices")

    def bincount(self, a, weights=None, minlength=0):
        a = arr(a)
        if a.ndim != 1 or a.kind != "i":
            raise Unsupported("bincount")
        c = ctx()
        if weights is not None:
            w, m = arr(weights), ti(minlength)
            A.same_length(a, w)
            k = c.int("bi")
            A.add_probe(k)
            rng = z3.And(k >= 0, k < a.sz)
            if not c.entails(z3.Implies(rng, a.at(k) >= 0)):
                if c.branch(c.bool("negvalue")):
                    c.assume(z3.And(rng, a.at(k) < 0))
                    raise ValueError("'list' argument must have no negative elements")
                af = a.snapshot()
                A.forall(lambda x: z3.Implies(z3.And(x >= 0, x < a.sz), af(x) >= 0))
            if not c.entails(z3.Implies(rng, a.at(k) < m)):
                m2 = c.int("nbins")
                c.assume(m2 >= m)
                af2 = a.snapshot()
                A.forall(lambda x: z3.Implies(z3.And(x >= 0, x < a.sz), af2(x) < m2))
                m = m2
            g = A.edgesum(a, w)
            return SArr((m,), "f", lambda i: g(i), org=("edgesum", A._freeze(a), A._freeze(w)))
        f, n, ml = a.snapshot(), a.sz, ti(minlength)
        i = c.int("bi")
        add_probe(i)
        if a.org and a.org[0] == "sel":
            rng = z3.And(i >= 0, i < a.org[3].sz, a.org[3].at(i))
            v = a.org[1].elem(i)
        else:
            rng, v = z3.And(i >= 0, i < n), a.elem(i)
        if not c.entails(z3.Implies(rng, v >= 0)):
            if c.branch(c.bool("negvalue")):
                c.assume(z3.And(rng, v < 0))
                raise ValueError("'list' argument must have no negative elements")
            forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), f(x) >= 0))
        if c.entails(z3.Implies(rng, v < ml)):
            m = ml
        else:
            m = c.int("nbins")
            c.assume(m >= ml)
            forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), f(x) < m))
        fz = A._freeze(a)
        r = SArr((m,), "i", lambda k: A.value_count(fz, k).t, org=("bincount", fz))
        c.ghost.setdefault("bincounts", []).append(r)
        return r

    def searchsorted(self, a, v, side="left", **_k):
        a = arr(a)
        if side != "left" or getattr(a, "class_pos", None) is None:
            raise Unsupported("searchsorted")
        v = arr(v)
        pos, f = a.class_pos, a.snapshot()
        c = ctx()
        g = c.func("insertpos", A._SORT[a.kind](), z3.IntSort())
        vf, m = v.snapshot(), a.sz
        c.assumption_notes.add("labels are of one comparable type")
        src = getattr(a, "class_src", None)
        if src is not None and not getattr(a, "class_facts", False):
            a.class_facts = True
            rep, sf, n = c.func("classrep", z3.IntSort(), z3.IntSort()), src.snapshot(), src.sz
            forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(sf(i)) >= 0, pos(sf(i)) < m, f(pos(sf(i))) == sf(i))))
            forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(rep(i) >= 0, rep(i) < n, sf(rep(i)) == f(i))))
            A.witness(rep)

        chosen = v.org[1].snapshot() if v.org and v.org[0] == "gather" else None

        def at(*ix):
            t = vf(*ix)
            if chosen is not None:
                A.add_probe(chosen(*ix))
            ctx().assume(z3.And(g(t) >= 0, g(t) <= m, z3.Implies(z3.And(pos(t) >= 0, pos(t) < m, f(pos(t)) == t), g(t) == pos(t))))
            return g(t)

        return SArr(v._shape, "i", at)

    def roll(self, a, shift, axis=None):
        a, s = arr(a), ti(shift)
        if axis is None and a.ndim != 1:
            raise Unsupported("roll of a flattened array")
        ax = 0 if axis is None else axis % a.ndim
        f, n = a.snapshot(), dz(a._shape[ax])

        def at(*ix):
            p = nidiv(ix[ax] - s, n)[1]
            return f(*ix[:ax], p, *ix[ax + 1:])

        return SArr(a._shape, a.kind, at)

    def flip(self, a, axis=None):
        a = arr(a)
        axes = range(a.ndim) if axis is None else [q % a.ndim for q in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        key = tuple(slice(None, None, -1) if q in axes else slice(None) for q in range(a.ndim))
        return a[key]

    def fliplr(self, a):
        return self.flip(a, 1)

    def flipud(self, a):
        return self.flip(a, 0)

    def pad(self, a, width, mode="constant", constant_values=0, **_k):
        a = arr(a)
        if not isinstance(width, (tuple, list)):
            width = ((width, width),) * a.ndim
        elif len(width) == 2 and not isinstance(width[0], (tuple, list)):
            width = (tuple(width),) * a.ndim
        c = ctx()
        W = [(ti(x), ti(y)) for x, y in width]
        f, shp = a.snapshot(), [dz(q) for q in a._shape]
        for (x, y), d in zip(W, shp):
            if not c.entails(z3.And(x >= 0, y >= 0)) and c.branch(z3.Or(x < 0, y < 0)):
                raise ValueError("index can't contain negative values")
            if mode != "constant" and not c.entails(d >= 1) and c.branch(z3.And(d == 0, x + y > 0)):
                raise ValueError("can't extend empty axis")
        out = tuple(z3.simplify(d + x + y) for (x, y), d in zip(W, shp))
        if mode == "constant":
            cv = A.conv(unwrap(constant_values), a.kind)

            def at(*ix):
                inside = z3.And(*[z3.And(i >= x, i < x + d) for i, (x, y), d in zip(ix, W, shp)])
                return z3.If(inside, f(*[i - x for i, (x, y) in zip(ix, W)]), cv)
        elif mode in ("reflect", "edge", "symmetric", "wrap"):
            g = z3.Function(f"pad_{mode}", z3.IntSort(), z3.IntSort(), z3.IntSort())

            def src(i, x, d):
                # an unpadded position is itself; a padded one shows some position of the axis
                p = i - x
                if z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0:
                    return p
                q = g(p, d)
                ctx().assume(z3.Implies(d >= 1, z3.And(q >= 0, q < d, z3.Implies(z3.And(p >= 0, p < d), q == p))))
                if mode == "reflect":
                    ctx().assume(z3.And(z3.Implies(z3.And(p < 0, -p < d), q == -p), z3.Implies(z3.And(p >= d, p < 2 * d - 1), q == 2 * d - 2 - p)))
                return q

            def at(*ix):
                return f(*[src(i, x, d) for i, (x, y), d in zip(ix, W, shp)])
        else:
            raise Unsupported(f"pad mode {mode}")
        return SArr(out, a.kind, at)

    def nonzero(self, a):
        return arr(a).nonzero()

    def flatnonzero(self, a):
        return A.flatnonzero(arr(a))

    def take(self, a, idx, axis=None):
        a = arr(a)
        if axis in (0, None) and a.ndim == 1 or axis == 0:
            return a[arr(idx)]
        if axis == 1 and a.ndim == 2:
            return a[:, arr(idx)]
        raise Unsupported("take")

    def dot(self, a, b):
        return A.matmul(a, b)

    matmul = dot

    def ravel(self, a):
        return arr(a).ravel()

    def reshape(self, a, s):
        return arr(a).reshape(s)

    def transpose(self, a):
        return arr(a).transpose()

    def squeeze(self, a):
        raise Unsupported("squeeze")

    def copy(self, a):
        return arr(a).copy()

    def expand_dims(self, a, axis):
        if axis == 0:
            return a[None, ...]
        if axis in (-1, a.ndim):
            return a[..., None]
        raise Unsupported("expand_dims")

    def atleast_1d(self, a):
        a = arr(a)
        return a if a.ndim >= 1 else a.reshape((1,))

    def ndim(self, a):
        return arr(a).ndim

    def shape(self, a):
        return arr(a).shape

    def issubdtype(self, d, k):
        kk = {"integer": "i", "floating": "f", "bool_": "b", "number": "n", "object_": "U", "str_": "U"}.get(k.__name__)
        if kk is None or not isinstance(d, DType):
            raise Unsupported("issubdtype")
        return d._k in ("i", "f") if kk == "n" else d._k == kk

    def dtype(self, d):
        return DType(dtype_kind(d, None))

    def isscalar(self, x):
        return isinstance(x, (Sym, int, float, str, bool))


def _mm(a, b, op):
    if isinstance(a, (SArr, list)) or isinstance(b, (SArr, list)):
        return ew2(a, b, op)
    return smin(a, b) if op == "min" else smax(a, b)


def _cat2(a, b, kind):
    n = dz(a._shape[0])
    if a.ndim != b.ndim:
        raise ValueError("all the input array dimensions must match")
    for s, t in zip(a._shape[1:], b._shape[1:]):
        if not same_dim(s, t) and ctx().branch(dz(s) != dz(t)):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    af, bf = a.snapshot(), b.snapshot()
    cntf = None
    if a.ndim == 1 and a.kind == "i" and b.kind == "i":
        a.cnt(z3.IntVal(-1)), b.cnt(z3.IntVal(-1))
        ac, bc = a.cntf, b.cntf
        cntf = lambda x: ac(x) + bc(x)  # noqa: E731
    m = z3.simplify(n + dz(b._shape[0]))
    r = SArr((m,) + a._shape[1:], kind,
             lambda i, *r: z3.If(i < n, A.conv(af(i, *r), kind), A.conv(bf(i - n, *r), kind)), cntf=cntf)
    if cntf is not None:
        r.count_facts_done = True
        pa, pb = getattr(a, "posf", None), getattr(b, "posf", None)
    return r


def _setop(a, b, pred, name, A_, B_, assume_unique):
    c = ctx()
    if a.kind != "i" or b.kind != "i" or a.ndim != 1 or b.ndim != 1:
        raise Unsupported(f"set operation on {a.kind}{a.ndim}/{b.kind}{b.ndim}")
    a.cnt(z3.IntVal(-1)), b.cnt(z3.IntVal(-1))
    ac, bc = a.cntf, b.cntf
    n = c.int(name + "_n")
    f = c.func(name, z3.IntSort(), z3.IntSort())
    pos = c.func(name + "_pos", z3.IntSort(), z3.IntSort())
    w = c.int(name + "_w")
    if assume_unique and name == "diff":
        cntf = lambda x: z3.If(bc(x) >= 1, I0, ac(x))  # noqa: E731
    else:
        if assume_unique:
            raise Unsupported("assume_unique")
        cntf = lambda x: z3.If(pred(ac(x), bc(x)), I1, I0)  # noqa: E731
    c.assume(n >= 0)
    add_probe(w)
    c.assume(z3.Implies(n >= 1, cntf(w) >= 1))
    forall(lambda x: z3.And(cntf(x) <= n, z3.Implies(cntf(x) >= 1, z3.And(pos(x) >= 0, pos(x) < n, f(pos(x)) == x))))
    r = SArr((n,), "i", lambda i: f(i), cntf=cntf, srt=True)
    r.count_facts_done = True
    r.posf = pos
    # the size relations the callers use
    if name == "diff":
        c.assume(n <= a.sz)
    if name == "inter":
        c.assume(z3.And(n <= a.sz, n <= b.sz))
    if name == "union":
        c.assume(n <= a.sz + b.sz)
    return r


def unique_contract(a):
    """np.unique of a 1-D array: sorted distinct values with counts"""
    c = ctx()
    if a.ndim != 1:
        raise Unsupported("unique of a matrix")
    key = ("unique", a.uid)
    if key in c.ghost:
        return c.ghost[key]
    fz = A._freeze(a)
    n = a.sz
    if a.kind == "i" and (a.cntf is not None or not (a.org and a.org[0] == "gather")):
        a.cnt(z3.IntVal(-1))
        fz = A._freeze(a)
        cf = a.cntf
        m = c.int("nuniq")
        f = c.func("uniq", z3.IntSort(), z3.IntSort())
        pos = c.func("uniqpos", z3.IntSort(), z3.IntSort())
        r = SArr((m,), "i", lambda i: f(i), cntf=lambda x: z3.If(cf(x) >= 1, I1, I0), srt=True)
        r.count_facts_done = True
        r.posf = pos
        c.assume(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
        forall(lambda x: z3.Implies(cf(x) >= 1, z3.And(pos(x) >= 0, pos(x) < m, f(pos(x)) == x)))
        forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(cf(f(i)) >= 1, pos(f(i)) == i)))
        # all values distinct iff sizes agree; a smaller size has a repeated value as witness
        w = c.int("dup")
        add_probe(w)
        c.assume(z3.Implies(m < n, cf(w) >= 2))
        forall(lambda x: z3.Implies(cf(x) >= 2, m < n))
        r.class_pos = pos
        r.class_src = fz
        cn = SArr((m,), "i", lambda i: cf(f(i)), org=("ucounts", fz))
        out = {"classes": r, "counts": cn, "pos": pos}
        inv = SArr((n,), "i", lambda i: pos(fz.elem(i)))
        out["inverse"] = inv
        c.ghost[key] = out
        return out
    # values of which only equality matters (labels)
    srt = A._SORT[a.kind]()
    m = c.int("nclass")
    cls = c.func("class", z3.IntSort(), srt)
    cpos = c.func("classpos", srt, z3.IntSort())
    CC = c.ghost.setdefault(("eqcount", a.uid), c.func("eqcount", srt, z3.IntSort()))
    at = fz.at
    c.assume(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(cpos(cls(i)) == i, CC(cls(i)) >= 1, CC(cls(i)) <= n)))
    rep = c.func("classrep", z3.IntSort(), z3.IntSort())
    org = None

    def of_value(v):
        return z3.And(cpos(v) >= 0, cpos(v) < m, cls(cpos(v)) == v)

    if a.org and a.org[0] == "gather":
        idx, g = a.org[1], a.org[2]
        idx.cnt(z3.IntVal(-1))
        icf = idx.cntf
        forall(lambda x: z3.Implies(icf(x) >= 1, of_value(g(x))))
        org = ("classes", idx, g, cpos)
    forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), of_value(at(j))))
    r = SArr((m,), a.kind, lambda i: cls(i), org=org)
    r.class_pos = cpos
    A.witness(rep)
    cn = SArr((m,), "i", lambda i: CC(cls(i)), org=("ucounts", fz))
    # every class has a representative
    forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(rep(i) >= 0, rep(i) < n, at(rep(i)) == cls(i))))
    cn_total = n
    c.ghost[("sum", cn.uid, 0)] = cn_total  # the counts add up to the number of entries
    inv = SArr((n,), "i", lambda i: cpos(at(i)))
    out = {"classes": r, "counts": cn, "pos": cpos, "inverse": inv}
    c.ghost[key] = out
    return out


np_shim = NP()
