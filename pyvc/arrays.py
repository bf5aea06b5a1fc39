"""Symbolic numpy arrays.

An array is (shape, kind, element function); 1-D integer arrays also carry a multiset view
`cnt(x)` (how many times the value x occurs), which is what partition properties are stated over.
Universally quantified facts are instantiated at "probes": the skolem constants of the goals and
the witnesses produced by existential facts.  Every instance of a true universal fact is true, so
instantiation is sound; a missing instance can only lose a proof.
"""

from __future__ import annotations

from .core import PathEnd, Unsupported, ctx, z3
from .values import (
    nidiv,
    ndiv,
    nmul,
    Sym,
    SymBool,
    SymInt,
    SymReal,
    SymU,
    U,
    _numlike,
    concretize,
    tb,
    ti,
    tn,
    tr,
    unwrap,
    wrap,
)

I0, I1 = z3.IntVal(0), z3.IntVal(1)


# ---- probes -------------------------------------------------------------
def probes():
    return ctx().ghost.setdefault("probes", [])


def foralls():
    return ctx().ghost.setdefault("foralls", [])


MAX_GEN = 1


def add_probe(t):
    """instantiate every universal fact at t; chains of instantiations are cut at MAX_GEN"""
    ps = probes()
    if z3.is_int_value(t) and t.as_long() == -1:
        return
    if any(p.eq(t) for p in ps):
        return
    g = ctx().ghost
    if g.get("dummy"):
        return
    gen = g.get("gen", 0)
    if gen >= MAX_GEN:
        return
    ps.append(t)
    g["gen"] = gen + 1
    try:
        for f in list(foralls()):
            ctx().assume(f(t))
    finally:
        g["gen"] = gen


def forall(f):
    """Assume f(x) for every integer x (instantiated at the probes)."""
    foralls().append(f)
    g = ctx().ghost
    gen = g.get("gen", 0)
    g["gen"] = gen + 1
    try:
        for p in list(probes()):
            ctx().assume(f(p))
    finally:
        g["gen"] = gen


def witness(f):
    """f maps a value to a position where it is found (see probe_witnesses)"""
    ctx().ghost.setdefault("witnesses", []).append(f)


def probe_witnesses(*terms):
    """instantiate the universal facts at the positions the executed code found these values at"""
    for t in terms:
        for f in list(ctx().ghost.get("witnesses", ())):
            add_probe(f(t))


def dim(x):
    """shape entry: python int or z3 Int term"""
    if isinstance(x, SymInt):
        x = z3.simplify(x.t)
        return x.as_long() if z3.is_int_value(x) else x
    if isinstance(x, z3.ArithRef):
        x = z3.simplify(x)
        return x.as_long() if z3.is_int_value(x) else x
    if isinstance(x, SymBool):
        return ti(x)
    return int(x)


def dz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = dz(a), dz(b)
    return a.eq(b) or ctx().entails(a == b, cheap=True)


_uid = [0]


def new_uid():
    _uid[0] += 1
    return _uid[0]


_SORT = {"i": z3.IntSort, "f": z3.RealSort, "b": z3.BoolSort, "U": lambda: U}


def conv(t, kind):
    """Coerce an element term to the sort of `kind`."""
    if kind == "f":
        if z3.is_bool(t):
            return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(t) if z3.is_int(t) else t
    if kind == "i":
        if z3.is_bool(t):
            return z3.If(t, I1, I0)
        if z3.is_real(t):
            return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return t
    if kind == "b":
        if z3.is_bool(t):
            return t
        return t != 0
    if kind == "U":
        return t
    raise Unsupported(f"array kind {kind}")


def kind_of_term(t):
    if z3.is_bool(t):
        return "b"
    if z3.is_int(t):
        return "i"
    if z3.is_real(t):
        return "f"
    if t.sort() == U:
        return "U"
    raise Unsupported("element sort")


class DType:
    def __init__(self, kind):
        self.kind = {"U": "O"}.get(kind, kind)
        self._k = kind

    def __eq__(self, o):
        k = dtype_kind(o, None)
        return k is not None and k == self._k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return f"dtype({self._k})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    @property
    def type(self):
        return self


def dtype_kind(d, default):
    if d is None:
        return default
    if isinstance(d, DType):
        return d._k
    n = getattr(d, "__name__", None) or str(d)
    n = n.split(".")[-1]
    if n in ("int", "int64", "int32", "int16", "int8", "uint8", "intp", "long", "integer", "SInt", "uint32"):
        return "i"
    if n in ("float", "float64", "float32", "float16", "floating", "SFloat", "double"):
        return "f"
    if n in ("bool", "bool_", "SBool"):
        return "b"
    if n in ("object", "str", "SObject"):
        return "U"
    raise Unsupported(f"dtype {n}")


class SArr:
    __array_priority__ = 1000

    def __init__(self, shape, kind, fn, cntf=None, org=None, srt=False, base=None, name=None):
        self._shape = tuple(dim(s) for s in shape)
        self.kind = kind
        self._fn = fn
        self.cntf = cntf
        self.org = org  # structural provenance, see uses
        self.srt = srt
        self.base = base  # (parent, index map) for views
        self.uid = new_uid()
        self.version = 0
        self.frozen = None
        self.name = name
        self.low = None
        self.count_facts_done = False
        c = ctx()
        for s in self._shape:
            if not isinstance(s, int):
                c.assume(s >= 0)

    __hash__ = object.__hash__

    # -- structure ---------------------------------------------------
    @property
    def shape(self):
        return tuple(s if isinstance(s, int) else SymInt(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        t = z3.IntVal(1)
        for s in self._shape:
            t = nmul(t, dz(s))
        return wrap(z3.simplify(t))

    @property
    def sz(self):
        return dz(self._shape[0]) if len(self._shape) == 1 else unwrap(self.size)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if self.ndim <= 1:
            return self
        if self.ndim != 2:
            raise Unsupported("transpose of ndim > 2")
        return SArr((self._shape[1], self._shape[0]), self.kind, lambda i, j: self.at(j, i),
                    base=(self, lambda i, j: (j, i)), org=("T", self, self.version))

    def at(self, *ix):
        if len(ix) != self.ndim:
            raise Unsupported(f"element access arity {len(ix)} on {self.ndim}-d array")
        return self._fn(*ix)

    def snapshot(self):
        """element function as of now (later in-place writes do not show)"""
        if self.base is None:
            return self._fn
        parent, m = self.base
        pf = parent.snapshot()
        own = self._fn
        if parent.version == getattr(self, "_pv", parent.version) and not getattr(self, "_live", True):
            return own
        return lambda *ix: pf(*m(*ix))

    def cnt(self, x):
        """multiset count of x (1-D integer arrays)"""
        if self.ndim != 1 or self.kind != "i":
            raise Unsupported("count view of a non-index array")
        if self.cntf is None and self.cnt_maker is not None:
            made, self.cnt_maker = self.cnt_maker(), None
            if made is not None:
                self.cntf, self.cnt_hook = made
        if self.cntf is None:
            c = ctx()
            f = c.func("cnt", z3.IntSort(), z3.IntSort())
            pos = c.func("pos", z3.IntSort(), z3.IntSort())
            fn, n = self.snapshot(), self.sz
            self.cntf = lambda v: f(v)
            self.posf = pos
            forall(
                lambda v: z3.And(
                    f(v) >= 0,
                    f(v) <= n,
                    z3.Implies(f(v) >= 1, z3.And(pos(v) >= 0, pos(v) < n, fn(pos(v)) == v)),
                )
            )
            witness(pos)
            self.count_facts_done = True
        if not self.count_facts_done:
            self.count_facts_done = True
            cf, n = self.cntf, self.sz
            forall(lambda v: z3.And(cf(v) >= 0, cf(v) <= n))
        add_probe(x)
        if self.cnt_hook is not None:
            self.cnt_hook(x)
        return self.cntf(x)

    cnt_hook = None
    cnt_maker = None

    def elem(self, i):
        """element of a 1-D array at an in-range position, with its membership fact"""
        t = self.at(i)
        if self.kind == "i" and self.cntf is not None:
            c = ctx()
            add_probe(t)
            c.assume(z3.Implies(z3.And(i >= 0, i < self.sz), self.cntf(t) >= 1))
        return t

    # -- copies ------------------------------------------------------
    def _derive(self, fn=None, kind=None, shape=None, cntf=None, org=None, srt=False):
        return SArr(shape if shape is not None else self._shape, kind or self.kind,
                    fn or self.snapshot(), cntf=cntf, org=org, srt=srt)

    def copy(self, *a, **k):
        if self.kind == "i" and self.ndim == 1:
            self._need_cnt()
        r = self._derive(cntf=self.cntf, srt=self.srt, org=self.org)
        r.uid = self.uid
        r.count_facts_done = self.count_facts_done
        if hasattr(self, "posf"):
            r.posf = self.posf
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _need_cnt(self):
        return None

    def astype(self, d, copy=True, **_k):
        k = dtype_kind(d, self.kind)
        if k == self.kind:
            if copy is False:
                return self
            return self.copy()
        f = self.snapshot()
        if self.kind == "U" and k != "U":
            raise Unsupported("cast of uninterpreted labels")
        return self._derive(fn=lambda *ix: conv(f(*ix), k), kind=k, org=("cast", self) if self.kind == "b" else None)

    def tolist(self):
        n = self._shape[0]
        if not isinstance(n, int):
            from .lists import SymSeq

            if self.ndim != 1:
                raise Unsupported("tolist of a matrix")
            fz = _freeze(self)
            return SymSeq(n, lambda i: wrap(fz.elem(i)))
        if self.ndim == 1:
            return [wrap(self.at(z3.IntVal(i))) for i in range(n)]
        raise Unsupported("tolist")

    def item(self):
        s = self._shape
        if all(isinstance(x, int) and x == 1 for x in s) or not s:
            return wrap(self.at(*[I0] * len(s)))
        raise Unsupported("item() of a symbolic array")

    def reshape(self, *shape, **_k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a, **k):
        return reshape(self, (-1,))

    flatten = ravel

    def detach(self):
        raise AttributeError("detach")

    # -- reductions --------------------------------------------------
    def sum(self, axis=None, keepdims=False, dtype=None, **_k):
        return asum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **_k):
        return amean(self, axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return aextreme(self, axis, keepdims, "max")

    def min(self, axis=None, keepdims=False, **k):
        return aextreme(self, axis, keepdims, "min")

    def any(self, axis=None, keepdims=False, **_k):
        return aany(self, axis, keepdims)

    def all(self, axis=None, keepdims=False, **_k):
        return aall(self, axis, keepdims)

    def argmax(self, axis=None):
        return aargmax(self, axis)

    def argsort(self, *a, **k):
        return argsort(self)

    def nonzero(self):
        return (flatnonzero(self),)

    # -- operators ---------------------------------------------------
    def __add__(self, o):
        return ew2(self, o, "add")

    def __radd__(self, o):
        return ew2(o, self, "add")

    def __sub__(self, o):
        return ew2(self, o, "sub")

    def __rsub__(self, o):
        return ew2(o, self, "sub")

    def __mul__(self, o):
        return ew2(self, o, "mul")

    def __rmul__(self, o):
        return ew2(o, self, "mul")

    def __truediv__(self, o):
        return ew2(self, o, "div")

    def __rtruediv__(self, o):
        return ew2(o, self, "div")

    def __floordiv__(self, o):
        return ew2(self, o, "floordiv")

    def __mod__(self, o):
        return ew2(self, o, "mod")

    def __pow__(self, o):
        return ew2(self, o, "pow")

    def __neg__(self):
        f = self.snapshot()
        return self._derive(fn=lambda *ix: -f(*ix))

    def __invert__(self):
        f = self.snapshot()
        if self.kind != "b":
            raise Unsupported("~ on non-boolean array")
        org = None
        if self.org and self.org[0] == "valpred":
            _, b, p = self.org
            org = ("valpred", b, lambda v: z3.Not(p(v)))
        return self._derive(fn=lambda *ix: z3.Not(f(*ix)), org=org)

    def __and__(self, o):
        return ew2(self, o, "and")

    def __rand__(self, o):
        return ew2(o, self, "and")

    def __or__(self, o):
        return ew2(self, o, "or")

    def __ror__(self, o):
        return ew2(o, self, "or")

    def __lt__(self, o):
        return ew2(self, o, "lt")

    def __le__(self, o):
        return ew2(self, o, "le")

    def __gt__(self, o):
        return ew2(self, o, "gt")

    def __ge__(self, o):
        return ew2(self, o, "ge")

    def __eq__(self, o):
        return ew2(self, o, "eq")

    def __ne__(self, o):
        return ew2(self, o, "ne")

    def _inplace(self, o, op):
        r = ew2(self, o, op)
        if not (isinstance(r, SArr) and r.ndim == self.ndim):
            raise Unsupported("in-place broadcast")
        k = self.kind
        rf = r.snapshot()
        self._store_all(lambda *ix: conv(rf(*ix), k), org=r.org)
        return self

    def __iadd__(self, o):
        return self._inplace(o, "add")

    def __isub__(self, o):
        return self._inplace(o, "sub")

    def __imul__(self, o):
        return self._inplace(o, "mul")

    def __itruediv__(self, o):
        return self._inplace(o, "div")

    def __ior__(self, o):
        return self._inplace(o, "or")

    def __iand__(self, o):
        return self._inplace(o, "and")

    def __matmul__(self, o):
        return matmul(self, o)

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return ctx().branch(tb(self.item()))
        raise Unsupported("truth value of an array")

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        v = concretize(SymInt(n))
        if v is None:
            raise Unsupported("len() of a symbolic array reached CPython")
        return v

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        v = concretize(SymInt(n))
        if v is not None:
            return iter([self[i] for i in range(v)])
        raise Unsupported("iteration over a symbolic array outside a cut loop")

    # -- indexing ----------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        return setitem(self, key, val)

    def _store_all(self, fn, org=None):
        self._write_check()
        if self.base is not None:
            parent, m = self.base
            raise Unsupported("whole-array write through a view")
        self._fn = fn
        self.version += 1
        self.uid = new_uid()
        self.cntf = None
        self.count_facts_done = False
        self.org = org
        self.srt = False

    def _write_check(self):
        root = self
        while root.base is not None:
            root = root.base[0]
        if root.frozen:
            ctx().oblige(f"frame: {root.frozen} is not modified", False)
            raise PathEnd("frame violated")


# ---- construction -------------------------------------------------------
def const_array(vals, kind=None):
    ts = [unwrap(v) for v in vals]
    if kind is None:
        ks = {kind_of_term(t) for t in ts}
        kind = "f" if "f" in ks else ("i" if "i" in ks else ("b" if ks == {"b"} else ("U" if ks else "f")))
    ts = [conv(t, kind) for t in ts]

    def fn(i):
        if not ts:
            return z3.RealVal(0) if kind == "f" else (I0 if kind == "i" else (z3.BoolVal(False) if kind == "b" else z3.Const("undef", U)))
        r = ts[-1]
        for k in range(len(ts) - 2, -1, -1):
            r = z3.If(i == k, ts[k], r)
        return r

    cntf = None
    if kind == "i":
        cntf = lambda x: z3.Sum([z3.If(t == x, I1, I0) for t in ts]) if ts else I0  # noqa: E731
    return SArr((len(ts),), kind, fn, cntf=cntf)


def full(shape, val, kind):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    t = conv(unwrap(val), kind)
    shape = tuple(dim(s) for s in shape)
    cntf = None
    if kind == "i" and len(shape) == 1:
        n = dz(shape[0])
        cntf = lambda x: z3.If(x == t, n, I0)  # noqa: E731
    for s in shape:
        if not isinstance(s, int) and not ctx().entails(s >= 0):
            if ctx().branch(s < 0):
                raise ValueError("negative dimensions are not allowed")
    return SArr(shape, kind, lambda *ix: t, cntf=cntf, org=("full", t))


def arange(a, b=None, step=None, kind="i"):
    if step is not None and step != 1:
        raise Unsupported("arange with step")
    lo, hi = (0, a) if b is None else (a, b)
    lo, hi = ti(lo), ti(hi)
    n = z3.simplify(z3.If(hi > lo, hi - lo, I0))
    if b is None and ctx().entails(hi >= 0):
        n = hi
    return SArr((n,), "i", lambda i: lo + i,
                cntf=lambda x: z3.If(z3.And(x >= lo, x < hi), I1, I0), org=("arange", lo, hi), srt=True)


def fresh_array(base, shape, kind, cnt=False):
    c = ctx()
    sorts = [z3.IntSort()] * len(shape) + [_SORT[kind]()]
    f = c.func(base, *sorts)
    a = SArr(shape, kind, lambda *ix: f(*ix), name=base)
    a.decl = f
    if cnt:
        a.cnt(z3.IntVal(-1))
    return a


def fresh_index_array(base, lo=None, hi=None, distinct=False, n=None):
    """An arbitrary 1-D integer array with a count view (optionally in range / duplicate free)."""
    c = ctx()
    f = c.func(base, z3.IntSort(), z3.IntSort())
    cf = c.func(base + "_cnt", z3.IntSort(), z3.IntSort())
    pos = c.func(base + "_pos", z3.IntSort(), z3.IntSort())
    n = c.int(base + "_n") if n is None else n
    c.assume(n >= 0)
    a = SArr((n,), "i", lambda i: f(i), cntf=lambda x: cf(x), name=base)
    a.posf = pos
    a.decl = f
    a.count_facts_done = True

    def fact(x):
        cs = [
            cf(x) >= 0,
            cf(x) <= n,
            z3.Implies(cf(x) >= 1, z3.And(pos(x) >= 0, pos(x) < n, f(pos(x)) == x)),
        ]
        if distinct:
            cs.append(cf(x) <= 1)
        if lo is not None:
            cs.append(z3.Implies(cf(x) >= 1, x >= lo))
        if hi is not None:
            cs.append(z3.Implies(cf(x) >= 1, x < hi))
        return z3.And(*cs)

    forall(fact)
    return a


# ---- elementwise --------------------------------------------------------
def as_arr(x):
    if isinstance(x, SArr):
        return x
    return None


def bcast(a, b):
    """broadcast shapes of two arrays; returns (shape, index map a, index map b)"""
    sa, sb = a._shape, b._shape
    n = max(len(sa), len(sb))
    pa, pb = n - len(sa), n - len(sb)
    shape, ma, mb = [], [], []
    for k in range(n):
        da = sa[k - pa] if k >= pa else None
        db = sb[k - pb] if k >= pb else None
        if da is None:
            shape.append(db)
            mb.append(("k", k))
        elif db is None:
            shape.append(da)
            ma.append(("k", k))
        elif isinstance(da, int) and da == 1 and not (isinstance(db, int) and db == 1):
            shape.append(db)
            ma.append(("0", k))
            mb.append(("k", k))
        elif isinstance(db, int) and db == 1:
            shape.append(da)
            ma.append(("k", k))
            mb.append(("0", k))
        else:
            if not same_dim(da, db):
                c = ctx()
                eq = dz(da) == dz(db)
                if c.branch(eq):
                    pass
                else:
                    # numpy broadcasts length-1 dimensions and refuses anything else
                    if c.branch(z3.Or(dz(da) == 1, dz(db) == 1)):
                        raise Unsupported("data-dependent broadcasting")
                    raise ValueError("operands could not be broadcast together")
            shape.append(da)
            ma.append(("k", k))
            mb.append(("k", k))

    def mk(m):
        return lambda ix: tuple(ix[k] if t == "k" else I0 for t, k in m)

    return tuple(shape), mk(ma), mk(mb)


def _term_op(op, x, y):
    if op in ("and", "or"):
        if z3.is_bool(x) and z3.is_bool(y):
            return z3.And(x, y) if op == "and" else z3.Or(x, y)
        raise Unsupported("bitwise op on integers")
    if op in ("eq", "ne"):
        if x.sort() == U or y.sort() == U:
            if x.sort() != y.sort():
                return z3.BoolVal(op == "ne")
            r = x == y
        else:
            x, y = _num2(x, y)
            r = x == y
        return r if op == "eq" else z3.Not(r)
    x, y = _num2(x, y)
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return nmul(x, y)
    if op == "lt":
        return x < y
    if op == "le":
        return x <= y
    if op == "gt":
        return x > y
    if op == "ge":
        return x >= y
    if op == "min":
        return z3.If(y < x, y, x)
    if op == "max":
        return z3.If(y > x, y, x)
    if op == "div":
        return ndiv(conv(x, "f"), conv(y, "f"))
    if op == "floordiv":
        if z3.is_int(x) and z3.is_int(y):
            return nidiv(x, y)[0]
        raise Unsupported("real floordiv")
    if op == "mod":
        if z3.is_int(x) and z3.is_int(y):
            return nidiv(x, y)[1]
        raise Unsupported("real mod")
    if op == "pow":
        y = z3.simplify(y)
        if z3.is_int_value(y) or z3.is_rational_value(y):
            v = y.as_fraction() if z3.is_rational_value(y) else y.as_long()
            if v == 2:
                return nmul(x, x)
            if v == 1:
                return x
        from .values import spow

        return unwrap(spow(wrap(x), wrap(y)))
    raise Unsupported("elementwise " + op)


def _num2(x, y):
    if z3.is_bool(x):
        x = z3.If(x, I1, I0)
    if z3.is_bool(y):
        y = z3.If(y, I1, I0)
    if x.sort() == U or y.sort() == U:
        raise Unsupported("arithmetic or order on uninterpreted values")
    if z3.is_real(x) != z3.is_real(y):
        x, y = conv(x, "f"), conv(y, "f")
    return x, y


def ew2(a, b, op):
    from .lists import SymSeq

    if isinstance(a, (list, tuple)):
        a = const_array(a)
    if isinstance(b, (list, tuple)):
        b = const_array(b)
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        raise Unsupported("list in array arithmetic")
    A, B = as_arr(a), as_arr(b)
    if A is not None and B is not None:
        shape, ma, mb = bcast(A, B)
        fa, fb = A.snapshot(), B.snapshot()

        def fn(*ix):
            return _term_op(op, fa(*ma(ix)), fb(*mb(ix)))

        org = None
        if op == "div":
            org = ("div", A.copy_org(), B.copy_org()) if hasattr(A, "copy_org") else ("div", _freeze(A), _freeze(B))
        elif op == "mul":
            org = ("mul", _freeze(A), _freeze(B))
        elif op in ("add", "sub"):
            org = (op, _freeze(A), _freeze(B))
        if op in ("and", "or") and A.org and B.org and A.org[0] == B.org[0] == "valpred" and A.org[1].uid == B.org[1].uid:
            pa, pb = A.org[2], B.org[2]
            org = ("valpred", A.org[1], (lambda v: z3.And(pa(v), pb(v))) if op == "and" else (lambda v: z3.Or(pa(v), pb(v))))
        return _mk(shape, fn, org)
    arr, sc, flip = (A, b, False) if A is not None else (B, a, True)
    if sc is None or (not isinstance(sc, (Sym, str)) and not _numlike(sc)):
        if op in ("eq", "ne"):
            v = z3.BoolVal(op == "ne")
            return SArr(arr._shape, "b", lambda *ix: v)
        raise Unsupported(f"array op with {type(sc).__name__}")
    t = unwrap(sc)
    fa = arr.snapshot()
    fn = (lambda *ix: _term_op(op, t, fa(*ix))) if flip else (lambda *ix: _term_op(op, fa(*ix), t))
    org = None
    if arr.org and arr.org[0] == "gather" and op in ("eq", "ne", "lt", "le", "gt", "ge"):
        base, g = arr.org[1], arr.org[2]
        org = ("valpred", base, (lambda v: _term_op(op, t, g(v))) if flip else (lambda v: _term_op(op, g(v), t)))
    elif arr.ndim == 1 and arr.kind == "i" and op in ("eq", "ne", "lt", "le", "gt", "ge"):
        fz = _freeze(arr)
        org = ("valpred", fz, (lambda v: _term_op(op, t, v)) if flip else (lambda v: _term_op(op, v, t)))
    elif op in ("div", "mul") and not flip:
        org = ("scale" if op == "mul" else "invscale", _freeze(arr), t)
    elif op == "mul":
        org = ("scale", _freeze(arr), t)
    r = _mk(arr._shape, fn, org)
    if op in ("add", "sub") and not flip and arr.ndim == 1 and arr.kind == r.kind == "i" and arr.cntf is not None:
        acf = arr.cntf
        r.cntf = (lambda x: acf(x - t)) if op == "add" else (lambda x: acf(x + t))
        r.count_facts_done = True

        def also(x):
            arr.cnt(x - t if op == "add" else x + t)
        r.cnt_hook = also
    if op == "eq" and arr.ndim == 1:
        r.eqv = (arr.uid, t, arr.kind)
    if op in ("lt", "le", "gt", "ge") and r.kind == "b" and arr.base is None:
        # the same comparison of the same content is the same array
        k2 = ("cmp", op, flip, arr.uid, t.get_id())
        r.uid, _ = ctx().ghost.setdefault(k2, (r.uid, t))
    return r


def _freeze(a):
    """An immutable alias of the array as it is now (same identity)."""
    r = SArr(a._shape, a.kind, a.snapshot(), cntf=a.cntf, org=a.org, srt=a.srt)
    r.uid = a.uid
    if hasattr(a, "eqv"):
        r.eqv = a.eqv
    r.count_facts_done = a.count_facts_done
    if hasattr(a, "posf"):
        r.posf = a.posf
    if hasattr(a, "opaque"):
        r.opaque = a.opaque
    return r


def _mk(shape, fn, org=None):
    ix = [z3.Int(f"__k{i}") for i in range(len(shape))]
    c = ctx()
    old = c.ghost.get("dummy")
    c.ghost["dummy"] = True  # the element expression only: no instantiation at the placeholder
    t = fn(*ix)
    c.ghost["dummy"] = old
    kind = kind_of_term(t)
    return SArr(shape, kind, fn, org=org)


def ew1(a, f, kind=None, org=None):
    if isinstance(a, (list, tuple)):
        a = const_array(a)
    if not isinstance(a, SArr):
        return wrap(f(unwrap(a)))
    g = a.snapshot()
    return _mk(a._shape, lambda *ix: f(g(*ix)), org)


# ---- indexing -----------------------------------------------------------
def norm_index(i, n, what="index"):
    """numpy/python index semantics: negative wraps once, out of range raises IndexError"""
    c = ctx()
    t = ti(i)
    n = dz(n)
    if not c.entails(z3.And(t >= 0, t < n)):
        if c.branch(z3.Or(t >= n, t < -n)):
            raise IndexError(f"{what} out of range")
        if not c.entails(t >= 0) and c.branch(t < 0):
            t = t + n
    return t


def norm_slice(s, n):
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        raise Unsupported("slice step")
    n = dz(n)

    def clamp(v, default):
        if v is None:
            return default
        t = ti(v)
        if z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() >= 0:
            return z3.If(t > n, n, t)
        t2 = z3.If(t < 0, t + n, t)
        return z3.If(t2 < 0, I0, z3.If(t2 > n, n, t2))

    lo = z3.simplify(clamp(s.start, I0))
    hi = z3.simplify(clamp(s.stop, n))
    ln = z3.simplify(z3.If(hi > lo, hi - lo, I0))
    return lo, hi, ln


def prefix(a):
    """P(k, x): occurrences of x among the first k elements"""
    a = _freeze(a)
    c = ctx()
    key = ("prefix", a.uid)
    P = c.ghost.get(key)
    if P is None:
        P = c.func("pre", z3.IntSort(), z3.IntSort(), z3.IntSort())
        c.ghost[key] = P
        a.cnt(z3.IntVal(-1)) if a.cntf is None else None
        cf, n = a.cntf, a.sz
        forall(lambda x: z3.And(P(I0, x) == 0, P(n, x) == cf(x)))
        c.ghost[("prefix_cuts", a.uid)] = [I0, n]
    return P, a


def prefix_cut(a, k):
    """register a cut position: P is monotone in k and grows by at most the distance"""
    P, a = prefix(a)
    c = ctx()
    cuts = c.ghost[("prefix_cuts", a.uid)]
    if any(k.eq(q) for q in cuts):
        return P
    old = list(cuts)
    cuts.append(k)

    def fact(x):
        cs = []
        for q in old:
            cs.append(z3.Implies(k <= q, z3.And(P(k, x) <= P(q, x), P(q, x) - P(k, x) <= q - k)))
            cs.append(z3.Implies(q <= k, z3.And(P(q, x) <= P(k, x), P(k, x) - P(q, x) <= k - q)))
        return z3.And(*cs)

    forall(fact)
    return P


def getitem(a, key):
    c = ctx()
    if isinstance(key, SArr):
        if key.kind == "b":
            return getmask(a, key)
        if key.kind == "i":
            return getfancy(a, key)
        raise Unsupported("index array kind")
    if isinstance(key, (list,)):
        return getitem(a, const_array(key))
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
        nreal = len([k for k in key if k is not None and k is not Ellipsis])
        key = key[:pos] + (slice(None),) * (a.ndim - nreal) + key[pos + 1:]
    arrs = [k for k in key if isinstance(k, SArr)]
    if arrs:
        return getmulti(a, key)
    # basic indexing -> view
    ax = 0
    out_shape, parts = [], []
    for k in key:
        if k is None:
            out_shape.append(1)
            parts.append(("new",))
            continue
        if ax >= a.ndim:
            raise IndexError("too many indices for array")
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                out_shape.append(a._shape[ax])
                parts.append(("off", I0))
            elif k.step is not None and isinstance(k.step, int) and k.step == -1 and k.start is None and k.stop is None:
                n = dz(a._shape[ax])
                out_shape.append(a._shape[ax])
                parts.append(("rev", n))
            else:
                lo, hi, ln = norm_slice(k, a._shape[ax])
                out_shape.append(ln)
                parts.append(("off", lo))
        else:
            parts.append(("fix", norm_index(k, a._shape[ax])))
        ax += 1
    while ax < a.ndim:
        out_shape.append(a._shape[ax])
        parts.append(("off", I0))
        ax += 1

    def m(*ix):
        out, q = [], 0
        for p in parts:
            if p[0] == "new":
                q += 1
            elif p[0] == "off":
                out.append(z3.simplify(ix[q] + p[1]) if not z3.is_int_value(p[1]) or p[1].as_long() != 0 else ix[q])
                q += 1
            elif p[0] == "rev":
                out.append(p[1] - 1 - ix[q])
                q += 1
            else:
                out.append(p[1])
        return tuple(out)

    if not out_shape:
        if a.ndim == 1:
            return wrap(a.elem(m()[0])) if a.kind == "i" else wrap(a.at(*m()))
        return wrap(a.at(*m()))
    cntf = None
    if a.ndim == 1 and a.kind == "i" and len(parts) == 1 and parts[0][0] == "off":
        lo = parts[0][1]
        ln = dz(dim(out_shape[0]))
        if isinstance(key[0], slice) and key[0].start is None and key[0].stop is None:
            if a.cntf is None:
                a.cnt(z3.IntVal(-1))
            cntf = a.cntf
        else:
            hi = z3.simplify(lo + ln)
            prefix_cut(a, lo)
            P = prefix_cut(a, hi)
            cntf = lambda x: P(hi, x) - P(lo, x)  # noqa: E731
    elif a.ndim == 1 and a.kind == "i" and len(parts) == 1 and parts[0][0] == "rev":
        if a.cntf is None:
            a.cnt(z3.IntVal(-1))
        cntf = a.cntf
    r = SArr(out_shape, a.kind, lambda *ix: a.at(*m(*ix)), cntf=cntf, base=(a, m), srt=a.srt)
    if a.org and a.org[0] == "gather" and len(parts) == 1 and parts[0][0] == "off":
        r.org = None
    return r


def count_true(mask):
    """number of True entries of a 1-D boolean array, as a term (one symbol per mask identity)"""
    c = ctx()
    key = ("ctrue", mask.uid)
    if key in c.ghost:
        return c.ghost[key]
    n = c.int("ntrue")
    N = mask.sz
    f = mask.snapshot()
    w = c.int("wtrue")
    c.assume(z3.And(n >= 0, n <= N))
    # n >= 1 iff some entry is True; n == N iff all are
    c.assume(z3.Implies(n >= 1, z3.And(w >= 0, w < N, f(w))))
    wf = c.int("wfalse")
    c.assume(z3.Implies(n < N, z3.And(wf >= 0, wf < N, z3.Not(f(wf)))))
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < N, f(x)), n >= 1))
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < N, z3.Not(f(x))), n < N))
    add_probe(w)
    add_probe(wf)
    eqv = getattr(mask, "eqv", None)
    if eqv is not None and eqv[1].sort() == _SORT[eqv[2]]():
        k2 = ("eqcount", eqv[0])
        if k2 not in c.ghost:
            c.ghost[k2] = c.func("eqcount", _SORT[eqv[2]](), z3.IntSort())
        c.assume(n == c.ghost[k2](eqv[1]))
    c.ghost[key] = n
    c.ghost.setdefault("masks_counted", []).append(PCount(N, f, n))
    return n


# ---- counting positions ---------------------------------------------------
class PCount:
    """the number of positions i of [0, N) with pred(i)"""

    def __init__(self, N, pred, t):
        self.N, self.pred, self.t = N, pred, t


def predcount(N, pred, key=None):
    c = ctx()
    memo = c.ghost.setdefault("predcounts", {})
    if key is not None and key in memo:
        return memo[key]
    t, w = c.int("npos"), c.int("wpos")
    r = PCount(N, pred, t)
    if key is not None:
        memo[key] = r
    c.assume(z3.And(t >= 0, t <= N))
    add_probe(w)
    c.assume(z3.Implies(t >= 1, z3.And(w >= 0, w < N, pred(w))))
    return r


def count_fact(p, x):
    """position x is one of the counted ones"""
    ctx().assume(z3.Implies(z3.And(x >= 0, x < p.N, p.pred(x)), p.t >= 1))


def count_lemma(p, q):
    """counts over the same positions compare as their predicates do (with a witness where they do not)"""
    c = ctx()
    for a, b in ((p, q), (q, p)):
        w = c.int("wcount")
        add_probe(w)
        c.assume(z3.Or(a.N != b.N, a.t <= b.t, z3.And(w >= 0, w < a.N, a.pred(w), z3.Not(b.pred(w)))))


def same_counts(a, b):
    """lemma: equal arrays hold the same values equally often (with a witness position where they differ)"""
    c = ctx()
    a.cnt(z3.IntVal(-1)), b.cnt(z3.IntVal(-1))
    ac, bc, af, bf = a.cntf, b.cntf, a.snapshot(), b.snapshot()
    w = c.int("wdiff")
    add_probe(w)
    differ = z3.Or(a.sz != b.sz, z3.And(w >= 0, w < a.sz, af(w) != bf(w)))
    forall(lambda x: z3.Or(differ, ac(x) == bc(x)))


def mask_count(mask):
    """a boolean array's number of True entries, as a count of positions"""
    return PCount(mask.sz, mask.snapshot(), count_true(mask))


def value_count(a, k):
    """how often the value k occurs in the 1-D array a"""
    f = a.snapshot()
    if a.org and a.org[0] == "sel":
        base, mask = a.org[1], a.org[3]
        g, m = base.snapshot(), mask.snapshot()
        r = predcount(mask.sz, lambda i: z3.And(m(i), g(i) == k), ("vc", a.uid, k.get_id()))
        ctx().assume(r.t <= count_true(mask))
    else:
        r = predcount(a.sz, lambda i: f(i) == k, ("vc", a.uid, k.get_id()))
    r.key = k
    return r


def getmask(a, mask):
    c = ctx()
    if mask.ndim != 1:
        if mask.ndim == a.ndim:
            for x, y in zip(mask._shape, a._shape):
                if not same_dim(x, y) and c.branch(dz(x) != dz(y)):
                    raise IndexError("boolean index did not match")
            n = c.int("nsel")
            c.assume(n >= 0)
            pos = [c.func(f"selpos{q}", z3.IntSort(), z3.IntSort()) for q in range(a.ndim)]
            mf, af, shp = mask.snapshot(), a.snapshot(), [dz(q) for q in a._shape]

            def at(i):
                ix = [q(i) for q in pos]
                ctx().assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(mf(*ix), *[z3.And(u >= 0, u < d) for u, d in zip(ix, shp)])))
                return af(*ix)

            return SArr((n,), a.kind, at, org=("sel", _freeze(a), None, mask))
        raise Unsupported("mask rank")
    if not same_dim(mask._shape[0], a._shape[0]):
        if c.branch(dz(mask._shape[0]) != dz(a._shape[0])):
            raise IndexError("boolean index did not match")
    n = count_true(mask)
    if c.entails(n == mask.sz, cheap=True):
        return a.copy()  # every entry is selected
    sel = c.func("sel", z3.IntSort(), z3.IntSort())  # position of the k-th True, increasing
    N = mask.sz
    mf, af = mask.snapshot(), a.snapshot()
    seen = c.ghost.setdefault(("sel", mask.uid), None)
    if seen is not None:
        sel = seen
    else:
        c.ghost[("sel", mask.uid)] = sel
        if c.ghost.get("selection order"):
            rank = c.func("rankof", z3.IntSort(), z3.IntSort())
            witness(rank)
            c.ghost.setdefault("selranks", []).append(rank)
            forall(lambda x: z3.Implies(z3.And(x >= 0, x < N, mf(x)), z3.And(rank(x) >= 0, rank(x) < n, sel(rank(x)) == x)))
    used = c.ghost.setdefault(("selused", mask.uid), [])

    def at(i, *rest):
        c2 = ctx()
        c2.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(sel(i) >= 0, sel(i) < N, mf(sel(i)))))
        if c2.ghost.get("selection order") and not any(u.eq(i) for u in used):
            for u in used:
                c2.assume(z3.Implies(z3.And(i >= 0, i < n, u >= 0, u < n), z3.And((i < u) == (sel(i) < sel(u)), (u < i) == (sel(u) < sel(i)))))
            used.append(i)
        return af(sel(i), *rest)

    cntf, org, srt, src = None, None, False, None
    if a.ndim == 1 and a.kind == "i":
        if a.cntf is None:
            a.cnt(z3.IntVal(-1))
        acf = a.cntf
        if mask.org and mask.org[0] == "valpred" and mask.org[1].uid == a.uid:
            pred = mask.org[2]
            cntf = lambda x: z3.If(pred(x), acf(x), I0)  # noqa: E731
        elif a.org and a.org[0] == "arange":
            lo = a.org[1]
            cntf = lambda x: z3.If(z3.And(acf(x) >= 1, mf(x - lo)), I1, I0)  # noqa: E731
        else:
            f = c.func("cnt", z3.IntSort(), z3.IntSort())
            src = c.func("selsrc", z3.IntSort(), z3.IntSort())
            witness(src)
            forall(lambda x: z3.And(f(x) >= 0, f(x) <= acf(x), f(x) <= n,
                                    z3.Implies(f(x) >= 1, z3.And(src(x) >= 0, src(x) < N, mf(src(x)), af(src(x)) == x))))
            forall(lambda p: z3.Implies(z3.And(p >= 0, p < N, mf(p)), f(af(p)) >= 1))
            cntf = lambda x: f(x)  # noqa: E731
        srt = a.srt
    r = SArr((n,) + a._shape[1:], a.kind, at, cntf=cntf, org=("sel", _freeze(a), sel, mask), srt=srt)
    if src is not None:
        r.cnt_hook = lambda x: add_probe(src(x))
    return r


def getfancy(a, idx):
    """a[idx]: rows of a at the (1-D) integer positions idx"""
    c = ctx()
    if idx.ndim not in (1, 2):
        raise Unsupported("index array rank")
    N = dz(a._shape[0])
    jf, af = idx.snapshot(), a.snapshot()
    # bounds: numpy raises IndexError if any index is out of [-N, N); negative indices wrap
    bad = bounds_status(idx, N)
    if bad == "maybe":
        b = c.bool("oob")
        w = c.int("oobw")
        if c.branch(b):
            c.assume(z3.And(w >= 0, w < idx.sz))
            v = jf(w) if idx.ndim == 1 else None
            if v is not None:
                c.assume(z3.Or(v >= N, v < -N))
                if idx.cntf is not None:
                    add_probe(v)
                    c.assume(idx.cnt(v) >= 1)
            raise IndexError("index out of bounds")
        if idx.ndim == 1 and idx.cntf is not None:
            forall(lambda x: z3.Implies(idx.cntf(x) >= 1, z3.And(x < N, x >= -N)))
    if idx.ndim == 1:
        def at(i, *rest):
            j = idx.elem(i) if idx.cntf is not None and idx.base is None and idx.snapshot is None else jf(i)
            c2 = ctx()
            if bad != "nonneg":
                c2.assume(z3.Implies(z3.And(i >= 0, i < idx.sz), z3.And(j < N, j >= -N)))
                j = z3.If(j < 0, j + N, j)
            if idx.cntf is not None:
                add_probe(jf(i))
                c2.assume(z3.Implies(z3.And(i >= 0, i < idx.sz), idx.cntf(jf(i)) >= 1))
            return af(j, *rest)

        shape = (idx._shape[0],) + a._shape[1:]
    else:
        def at(i, k, *rest):
            j = jf(i, k)
            if bad != "nonneg":
                j = z3.If(j < 0, j + N, j)
            return af(j, *rest)

        shape = idx._shape + a._shape[1:]
    org = None
    if a.ndim == 1 and idx.ndim == 1:
        if bad == "nonneg":
            org = ("gather", _freeze(idx), lambda v: af(v))
        else:
            org = ("gather", _freeze(idx), lambda v: af(z3.If(v < 0, v + N, v)))
    r = SArr(shape, a.kind, at, org=org)
    if org is None:
        r.org = ("rows", _freeze(a), _freeze(idx))
    if a.ndim == idx.ndim == 1 and a.kind == "i" and bad == "nonneg" and a.cntf is not None and idx.cntf is not None:
        r.cnt_maker = lambda: _gather_cnt(_freeze(a), _freeze(idx))
    return r


def _gather_cnt(a, idx):
    """counts of a[idx] when no value of a occurs twice: those of the position of the value"""
    c = ctx()
    x = c.int("gx")
    add_probe(x)
    if not c.entails(a.cnt(x) <= 1):
        return None
    af, n, acf, icf = a.snapshot(), a.sz, a.cntf, idx.cntf
    pos = c.func("gpos", z3.IntSort(), z3.IntSort())
    forall(lambda v: z3.Implies(acf(v) >= 1, z3.And(pos(v) >= 0, pos(v) < n, af(pos(v)) == v)))

    def hook(v):
        a.cnt(v)
        idx.cnt(pos(v))

    return (lambda v: z3.If(acf(v) >= 1, icf(pos(v)), I0)), hook


def bounds_status(idx, N):
    """'nonneg' if provably all indices are in [0,N), else 'maybe'"""
    c = ctx()
    if idx.ndim == 1 and idx.cntf is not None:
        x = c.ghost.get("bnd")
        if x is None:
            x = c.ghost["bnd"] = c.int("bnd")
        add_probe(x)
        if idx.cnt_hook is not None:
            idx.cnt_hook(x)
        if c.entails(z3.Implies(idx.cntf(x) >= 1, z3.And(x >= 0, x < N))):
            return "nonneg"
    ks = [c.int("bk") for _ in range(idx.ndim)]
    for k in ks:
        add_probe(k)
    rng = z3.And(*[z3.And(k >= 0, k < dz(s)) for k, s in zip(ks, idx._shape)])
    v = idx.at(*ks)
    if c.entails(z3.Implies(rng, z3.And(v >= 0, v < N))):
        return "nonneg"
    return "maybe"


def _paired_bounds(q, N):
    """indices of a paired access: in range, or IndexError; negative ones (which wrap) are refused"""
    c = ctx()
    if bounds_status(q, N) == "nonneg":
        return
    k = c.int("pb")
    add_probe(k)
    rng = z3.And(k >= 0, k < q.sz)
    if c.branch(c.bool("oob")):
        c.assume(z3.And(rng, z3.Or(q.at(k) >= N, q.at(k) < -N)))
        raise IndexError("index out of bounds")
    if not c.entails(z3.Implies(rng, q.at(k) >= 0)):
        raise Unsupported("a paired index may be negative")
    f, n = q.snapshot(), q.sz
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), f(x) < N))


def getmulti(a, key):
    """a[rows, cols] / a[:, idx] / a[mask, :]"""
    key = key + (slice(None),) * (a.ndim - len(key))
    if a.ndim == 2:
        r, cc = key
        if isinstance(r, slice) and isinstance(cc, SArr):
            base = a if (r.start is None and r.stop is None) else a[r]
            t = base.transpose()
            sub = t[cc]
            f = sub.snapshot()
            out = SArr((sub._shape[1], sub._shape[0]), a.kind, lambda i, j: f(j, i), org=("cols", _freeze(base), cc))
            return out
        if isinstance(r, SArr) and isinstance(cc, slice):
            sub = a[r]
            return sub if cc.start is None and cc.stop is None else sub[:, cc]
        if isinstance(r, SArr) and isinstance(cc, SArr) and r.kind == "i" and cc.kind == "i":
            if not same_dim(r._shape[0], cc._shape[0]):
                raise Unsupported("paired indices of different lengths")
            for q, ax in ((r, 0), (cc, 1)):
                _paired_bounds(q, dz(a._shape[ax]))
            f, rf, cf = a.snapshot(), r.snapshot(), cc.snapshot()
            return SArr(r._shape, a.kind, lambda i: f(rf(i), cf(i)))
    raise Unsupported("advanced indexing")


def setitem(a, key, val):
    c = ctx()
    a._write_check()
    if a.base is not None:
        parent, m = a.base
        # write through a basic view: only forms with an invertible offset map are supported
        return _set_through_view(a, parent, key, val)
    old = a._fn
    k = a.kind
    newcnt = None

    def valfn():
        if isinstance(val, SArr) and val.ndim == 0:
            t0 = conv(val.snapshot()(), k)
            return (lambda *ix: t0), None
        if isinstance(val, SArr):
            vf = val.snapshot()
            return vf, val
        if isinstance(val, (list, tuple)):
            v = const_array(val)
            return v.snapshot(), v
        t = conv(unwrap(val), k)
        return (lambda *ix: t), None

    vf, varr = valfn()
    if isinstance(key, slice) and key.start is None and key.stop is None:
        if varr is None:
            new = lambda *ix: vf()  # noqa: E731
        else:
            shape, ma, mb = bcast(a, varr)
            new = lambda *ix: conv(vf(*mb(ix)), k)  # noqa: E731
        org = ("full", vf()) if varr is None else None
    elif isinstance(key, SArr) and key.kind == "b" and key.ndim == a.ndim:
        mf = key.snapshot()
        if not all(same_dim(x, y) for x, y in zip(key._shape, a._shape)):
            if c.branch(z3.And(*[dz(x) == dz(y) for x, y in zip(key._shape, a._shape)])):
                pass
            else:
                raise IndexError("boolean index did not match")
        org = None
        if varr is None:
            new = lambda *ix: z3.If(mf(*ix), vf(), old(*ix))  # noqa: E731
        elif varr.org and varr.org[0] == "sel" and varr.org[3].uid == key.uid:
            src = varr.org[1].snapshot()
            new = lambda *ix: z3.If(mf(*ix), conv(src(*ix), k), old(*ix))  # noqa: E731
        elif a.ndim == 1:
            rk = mask_rank(key, varr)
            new = lambda i: z3.If(mf(i), conv(vf(rk(i)), k), old(i))  # noqa: E731
        else:
            g = c.func("scatter", *([z3.IntSort()] * a.ndim + [_SORT[k]()]))
            new = lambda *ix: z3.If(mf(*ix), g(*ix), old(*ix))  # noqa: E731
    elif isinstance(key, SArr) and key.kind == "b" and key.ndim == 1 and a.ndim == 2:
        mf = key.snapshot()
        if not same_dim(key._shape[0], a._shape[0]):
            if c.branch(dz(key._shape[0]) != dz(a._shape[0])):
                raise IndexError("boolean index did not match")
        org = None
        if varr is None:
            new = lambda i, j: z3.If(mf(i), vf(), old(i, j))  # noqa: E731
            org = ("rowmix", mf, vf(), _freeze(a)) if a.base is None else None
        elif varr.org and varr.org[0] == "sel" and varr.org[3].uid == key.uid:
            src = varr.org[1].snapshot()
            new = lambda i, j: z3.If(mf(i), conv(src(i, j), k), old(i, j))  # noqa: E731
            if a.base is None and varr.kind == k and same_dim(varr.org[1]._shape[1], a._shape[1]):
                org = ("rowmix", mf, varr.org[1], _freeze(a))
        elif varr.ndim == 1 or (isinstance(varr._shape[0], int) and varr._shape[0] == 1):
            g1 = (lambda j: vf(j)) if varr.ndim == 1 else (lambda j: vf(I0, j))
            new = lambda i, j: z3.If(mf(i), conv(g1(j), k), old(i, j))  # noqa: E731
        else:
            rk = mask_rank(key, varr)
            one = isinstance(varr._shape[1], int) and varr._shape[1] == 1
            new = lambda i, j: z3.If(mf(i), conv(vf(rk(i), I0 if one else j), k), old(i, j))  # noqa: E731
    elif isinstance(key, SArr) and key.kind == "i" and key.ndim == 1:
        N = dz(a._shape[0])
        st = bounds_status(key, N)
        if st != "nonneg":
            if c.branch(c.bool("oob")):
                raise IndexError("index out of bounds")
            if key.cntf is not None:
                forall(lambda x: z3.Implies(key.cntf(x) >= 1, z3.And(x < N, x >= -N)))
        if key.cntf is None:
            key.cnt(z3.IntVal(-1))
        kc = key.cntf
        hit = (lambda i: kc(i) >= 1) if st == "nonneg" else (lambda i: z3.Or(kc(i) >= 1, kc(i - N) >= 1))
        org = ("idxmask", _freeze(key))

        def hitp(i):
            add_probe(i)
            if key.cnt_hook is not None:
                key.cnt_hook(i)
            if st != "nonneg":
                add_probe(i - N)
            return hit(i)

        if varr is None:
            new = lambda i, *r: z3.If(hitp(i), vf(), old(i, *r))  # noqa: E731
        else:
            g = c.func("scatter", *([z3.IntSort()] * a.ndim + [_SORT[k]()]))
            new = lambda i, *r: z3.If(hitp(i), g(i, *r), old(i, *r))  # noqa: E731
    elif isinstance(key, tuple) and len(key) == a.ndim == 2 and all(isinstance(q, SArr) and q.kind == "i" for q in key):
        rows, cols = key
        for q, ax in ((rows, 0), (cols, 1)):
            _paired_bounds(q, dz(a._shape[ax]))
        rf, cf = rows.snapshot(), cols.snapshot()
        n = rows.sz
        org = None
        zero = varr is None and a.base is None and a.org and a.org[0] == "full" and z3.is_true(z3.simplify(a.org[1] == 0))
        rmask = rows.org[1] if rows.org and rows.org[0] == "nonzero" else None
        if rows.org and rows.org[0] == "sel" and rows.org[1].org and rows.org[1].org[0] == "arange" and z3.is_true(z3.simplify(rows.org[1].org[1] == 0)):
            rmask = rows.org[3]
        if rmask is not None:
            # rows are the positions of a mask in increasing order, columns are values at them
            mf = rmask.snapshot()
            if cols.org and cols.org[0] == "sel" and cols.org[3].uid == rmask.uid:
                src = cols.org[1].snapshot()
                colat = lambda i: conv(src(i), "i")  # noqa: E731
            elif cols.org and cols.org[0] == "selmap" and cols.org[3].uid == rmask.uid:
                colat = cols.org[1]
            else:
                g2 = c.func("colat", z3.IntSort(), z3.IntSort())
                colat = lambda i: g2(i)  # noqa: E731
            if varr is not None:
                raise Unsupported("array value in paired assignment")
            new = lambda i, j: z3.If(z3.And(mf(i), colat(i) == j), vf(), old(i, j))  # noqa: E731
            org = ("onehot", mf, vf()) if zero else None
        elif rows.org and rows.org[0] == "arange":
            lo, hi = rows.org[1], rows.org[2]
            if varr is not None:
                vv = vf
                new = lambda i, j: z3.If(z3.And(i >= lo, i < hi, cf(i - lo) == j), conv(vv(i - lo), k), old(i, j))  # noqa: E731
            else:
                new = lambda i, j: z3.If(z3.And(i >= lo, i < hi, cf(i - lo) == j), vf(), old(i, j))  # noqa: E731
                org = ("onehot", lambda i: z3.And(i >= lo, i < hi), vf()) if zero else None
        else:
            h = c.func("hit2", z3.IntSort(), z3.IntSort(), z3.BoolSort())
            if varr is not None:
                raise Unsupported("scatter of values")
            new = lambda i, j: z3.If(h(i, j), vf(), old(i, j))  # noqa: E731
    elif isinstance(key, tuple) or isinstance(key, slice) or _numlike(key) or isinstance(key, SymInt):
        kk = key if isinstance(key, tuple) else (key,)
        if any(isinstance(q, SArr) for q in kk):
            raise Unsupported("mixed advanced assignment")
        conds, offs = [], []
        ax = 0
        for q in kk:
            if q is None or q is Ellipsis:
                raise Unsupported("assignment with newaxis")
            if isinstance(q, slice):
                lo, hi, ln = norm_slice(q, a._shape[ax])
                conds.append(lambda i, lo=lo, hi=hi: z3.And(i >= lo, i < hi))
                offs.append(lo)
            else:
                t = norm_index(q, a._shape[ax])
                kk_term = t
                conds.append(lambda i, t=t: i == t)
                offs.append(None)
            ax += 1
        rest = a.ndim - ax
        org = None

        def new(*ix):
            cond = z3.And(*[cd(ix[q]) for q, cd in enumerate(conds)])
            if varr is None:
                v = vf()
            else:
                sub = [ix[q] - offs[q] for q in range(len(conds)) if offs[q] is not None] + list(ix[len(conds):])
                while len(sub) > varr.ndim:
                    sub.pop(0)
                sub = [I0 if (isinstance(varr._shape[q], int) and varr._shape[q] == 1) else sub[q] for q in range(varr.ndim)]
                v = vf(*sub)
            return z3.If(cond, conv(v, k), old(*ix))
        if a.ndim == 1 and len(kk) == 1 and not isinstance(kk[0], slice) and varr is None and k in ("i", "f"):
            prev = _freeze(a)
            org = ("store", prev, kk_term, conv(vf(), k))
            if k == "i" and a.cntf is not None:
                # one position changes its value: one occurrence less of the old, one more of the new
                oc, was, now = a.cntf, old(kk_term), conv(vf(), k)
                newcnt = lambda x: oc(x) - z3.If(x == was, I1, I0) + z3.If(x == now, I1, I0)  # noqa: E731
    else:
        raise Unsupported(f"assignment key {type(key).__name__}")
    a._fn = new
    a.version += 1
    a.uid = new_uid()
    a.cntf = newcnt
    a.cnt_maker = None
    a.count_facts_done = False
    a.org = org
    a.srt = False
    if newcnt is not None and hasattr(a, "posf"):
        del a.posf


def mask_rank(mask, varr):
    """i -> the position of i among the True positions of mask (what a[mask] = varr reads at i)"""
    c = ctx()
    n, N, mf = count_true(mask), mask.sz, mask.snapshot()
    if not same_dim(varr._shape[0], dim(n)) and c.branch(dz(varr._shape[0]) != n):
        raise ValueError("shape mismatch in a masked assignment")
    key = ("maskrank", mask.uid)
    if key not in c.ghost:
        c.ghost[key] = c.func("maskrank", z3.IntSort(), z3.IntSort())
    rk = c.ghost[key]
    sel = c.ghost.get(("sel", mask.uid))
    if sel is None:
        sel = c.ghost[("sel", mask.uid)] = c.func("sel", z3.IntSort(), z3.IntSort())

    def at(i):
        ctx().assume(z3.Implies(z3.And(i >= 0, i < N, mf(i)), z3.And(rk(i) >= 0, rk(i) < n, sel(rk(i)) == i, z3.Implies(n == N, rk(i) == i))))
        return rk(i)

    return at


def _set_through_view(a, parent, key, val):
    if a.ndim == 1 and parent.ndim == 1:
        m = a.base[1]
        off = z3.simplify(m(I0)[0])
        if isinstance(key, slice) and key.start is None and key.stop is None:
            n = a._shape[0]
            return setitem(parent, slice(wrap(off), wrap(z3.simplify(off + dz(n)))), val)
        if isinstance(key, (int, SymInt)):
            return setitem(parent, wrap(off + norm_index(key, a._shape[0])), val)
    raise Unsupported("assignment through a view")


def reshape(a, shape):
    shape = list(shape)
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(shape) == 1 and (neg or True):
        if a.ndim == 1:
            if neg or same_dim(dim(shape[0]), a._shape[0]):
                return a
            raise Unsupported("reshape 1d")
        if a.ndim == 2:
            nn, mm = a._shape
            if isinstance(mm, int) and mm == 1:
                return SArr((nn,), a.kind, lambda i: a.at(i, I0), base=(a, lambda i: (i, I0)))
            if isinstance(nn, int) and nn == 1:
                return SArr((mm,), a.kind, lambda i: a.at(I0, i), base=(a, lambda i: (I0, i)))
            f = a.snapshot()
            return SArr((dz(nn) * dz(mm),), a.kind, lambda i: f(i / dz(mm), i % dz(mm)), org=("ravel", _freeze(a)))
        if a.ndim == 0:
            return SArr((1,), a.kind, lambda i: a.at())
    if a.ndim == 1 and len(shape) == 2:
        n = a._shape[0]
        if (neg == [0] and shape[1] == 1) or (shape[1] == 1 and same_dim(dim(shape[0]), n)):
            return SArr((n, 1), a.kind, lambda i, j: a.at(i), base=(a, lambda i, j: (i,)), org=("colvec", _freeze(a)))
        if (neg == [1] and shape[0] == 1) or (isinstance(shape[0], int) and shape[0] == 1):
            return SArr((1, n), a.kind, lambda i, j: a.at(j), base=(a, lambda i, j: (j,)))
    if a.ndim == len(shape) and not neg and all(same_dim(dim(s), t) for s, t in zip(shape, a._shape)):
        return a
    if a.ndim == 2 and len(shape) == 2 and neg == [1] and same_dim(dim(shape[0]), a._shape[0]):
        return a
    if a.ndim == 2 and len(shape) == 2 and neg == [0] and same_dim(dim(shape[1]), a._shape[1]):
        return a
    raise Unsupported("reshape")


# ---- reductions ---------------------------------------------------------
def _sum_key(a, axis):
    return ("sum", a.uid, axis)


def asum(a, axis=None, keepdims=False):
    c = ctx()
    if a.kind == "b":
        if a.ndim == 1 and axis in (None, 0):
            return wrap(count_true(a))
        a = a.astype(DType("i"))
    if a.ndim == 1 and axis in (None, 0, -1):
        n = a._shape[0]
        if isinstance(n, int) and n <= 8:
            t = z3.Sum([a.at(z3.IntVal(i)) for i in range(n)]) if n else conv(I0, a.kind)
            return wrap(t)
        if a.org and a.org[0] == "full":
            return wrap(nmul(dz(n), a.org[1])) if a.kind == "i" else wrap(nmul(z3.ToReal(dz(n)), a.org[1]))
        if a.org and a.org[0] == "cast" and a.org[1].kind == "b":
            return wrap(conv(count_true(a.org[1]), a.kind))
        key = _sum_key(a, 0)
        if key not in c.ghost and a.org and a.org[0] == "store":
            _, prev, pi, pv = a.org
            c.ghost[key] = z3.simplify(sum_term(prev) - prev.at(pi) + pv)
        if key not in c.ghost:
            s = c.int("sum") if a.kind == "i" else c.real("sum")
            c.ghost[key] = s
            c.ghost.setdefault("sums", []).append((_freeze(a), s))
            _sum_facts(_freeze(a), s)
        r = wrap(c.ghost[key])
        if keepdims:
            return SArr((1,), a.kind, lambda i: unwrap(r))
        return r
    if a.ndim == 2 and axis in (1, -1):
        f = rowsum_fn(a)
        n = a._shape[0]
        if keepdims:
            return SArr((n, 1), a.kind, lambda i, j: f(i), org=("rowsumk", _freeze(a)))
        return SArr((n,), a.kind, lambda i: f(i), org=("rowsum", _freeze(a)))
    if a.ndim == 2 and axis == 0:
        f = rowsum_fn(a.transpose())
        m = a._shape[1]
        if keepdims:
            return SArr((1, m), a.kind, lambda i, j: f(j))
        return SArr((m,), a.kind, lambda i: f(i), org=("colsum", _freeze(a)))
    if a.ndim == 2 and axis is None:
        f = rowsum_fn(a)
        return asum(SArr((a._shape[0],), a.kind, lambda i: f(i)))
    raise Unsupported("sum")


def sum_term(a):
    return unwrap(asum(a))


def _sum_facts(a, s):
    """sign facts of a sum; non-negativity is derived when provable for an arbitrary index"""
    c = ctx()
    if c.ghost.get("plain sums"):
        return
    k = c.int("sk")
    v = a.at(k)
    rng = z3.And(k >= 0, k < a.sz)
    if c.entails(z3.Implies(rng, v >= 0), cheap=True):
        c.assume(s >= 0)
        f = a.snapshot()
        forall(lambda x: z3.Implies(z3.And(x >= 0, x < a.sz), f(x) <= s))
    c.assume(z3.Implies(a.sz == 0, s == 0))


def rowsum_fn(a):
    """i -> sum over j of a(i, j), with linearity used structurally"""
    c = ctx()
    a = _freeze(a)
    key = _sum_key(a, 1)
    if key in c.ghost:
        return c.ghost[key]
    m = a._shape[1]
    if isinstance(m, int) and m <= 8:
        fn = lambda i: z3.Sum([a.at(i, z3.IntVal(j)) for j in range(m)]) if m else conv(I0, a.kind)  # noqa: E731
        c.ghost[key] = fn
        return fn
    org = a.org
    if org and org[0] == "div" and org[2].ndim == 2 and isinstance(org[2]._shape[1], int) and org[2]._shape[1] == 1:
        inner = rowsum_fn(org[1])
        d = org[2]
        fn = lambda i: ndiv(conv(inner(i), "f"), conv(d.at(i, I0), "f"))  # noqa: E731
        c.ghost[key] = fn
        return fn
    if org and org[0] == "mul":
        for x, y in ((org[1], org[2]), (org[2], org[1])):
            if y.ndim == 2 and isinstance(y._shape[1], int) and y._shape[1] == 1 and x.ndim == 2:
                inner = rowsum_fn(x)
                fn = lambda i: nmul(inner(i), y.at(i, I0))  # noqa: E731
                c.ghost[key] = fn
                return fn
    if org and org[0] in ("scale", "invscale"):
        inner = rowsum_fn(org[1])
        t = org[2]
        fn = (lambda i: nmul(*_num2(inner(i), t))) if org[0] == "scale" else (lambda i: ndiv(conv(inner(i), "f"), conv(t, "f")))  # noqa: E731
        c.ghost[key] = fn
        return fn
    if org and org[0] in ("add", "sub") and org[1].ndim == org[2].ndim == 2 and all(
        same_dim(org[q]._shape[1], m) for q in (1, 2)
    ):
        f1, f2 = rowsum_fn(org[1]), rowsum_fn(org[2])
        fn = (lambda i: f1(i) + f2(i)) if org[0] == "add" else (lambda i: f1(i) - f2(i))  # noqa: E731
        c.ghost[key] = fn
        return fn
    if org and org[0] == "rowmix":
        _, mf, v, prev = org
        f0 = rowsum_fn(prev)
        if isinstance(v, SArr):
            f1 = rowsum_fn(v)
        else:
            mm = dz(m)
            f1 = lambda i: nmul(z3.ToReal(mm) if a.kind == "f" else mm, v)  # noqa: E731
        fn = lambda i: z3.If(mf(i), f1(i), f0(i))  # noqa: E731
        c.ghost[key] = fn
        return fn
    if org and org[0] == "onehot":  # one entry of a row is v, the others are zero
        fn = lambda i: z3.If(org[1](i), org[2], conv(I0, a.kind))  # noqa: E731
        c.ghost[key] = fn
        return fn
    if org and org[0] == "full":
        mm = dz(m)
        fn = lambda i: nmul(z3.ToReal(mm) if a.kind == "f" else mm, org[1])  # noqa: E731
        c.ghost[key] = fn
        return fn
    srt = z3.IntSort() if a.kind == "i" else z3.RealSort()
    g = c.func("rowsum", z3.IntSort(), srt)
    # non-negativity: provable for arbitrary (i, j)?
    i0, j0 = c.int("si"), c.int("sj")
    rng = z3.And(i0 >= 0, i0 < dz(a._shape[0]), j0 >= 0, j0 < dz(m))
    cps = c.ghost.setdefault("colprobes", [])
    cps.append(j0)
    nonneg = c.entails(z3.Implies(rng, a.at(i0, j0) >= 0))
    cps.remove(j0)
    c.ghost[("nonneg", a.uid)] = nonneg
    row_facts = c.ghost.setdefault("row_facts", [])

    def fn(i):
        if nonneg:
            ctx().assume(z3.Implies(z3.And(i >= 0, i < dz(a._shape[0])), g(i) >= 0))
            for q in ctx().ghost.get("colprobes", []):
                ctx().assume(
                    z3.Implies(
                        z3.And(i >= 0, i < dz(a._shape[0]), q >= 0, q < dz(m)), a.at(i, q) <= g(i)
                    )
                )
            # a zero sum of non-negative terms has only zero terms; a positive sum has a positive one
            w = z3.Function(f"wpos{a.uid}", z3.IntSort(), z3.IntSort())
            ctx().assume(
                z3.Implies(
                    z3.And(i >= 0, i < dz(a._shape[0]), g(i) > 0),
                    z3.And(w(i) >= 0, w(i) < dz(m), a.at(i, w(i)) > 0),
                )
            )
        return g(i)

    c.ghost[key] = fn
    return fn


def same_length(a, b):
    if not same_dim(a._shape[0], b._shape[0]) and ctx().branch(dz(a._shape[0]) != dz(b._shape[0])):
        raise ValueError("arrays of different lengths")


def edgesum(idx, vals):
    """(i, *rest) -> the sum of vals(e, *rest) over all positions e with idx(e) == i

    Known about it: sums of the same contributions are equal; sums of non-negative contributions are
    non-negative and none of them exceeds the sum; a non-zero sum has a contribution."""
    c = ctx()
    idx, vals = _freeze(idx), _freeze(vals)
    memo = c.ghost.setdefault("edgesums", [])
    for m in memo:
        if m.key == (idx.uid, vals.uid):
            return m
    r = EdgeSum(idx, vals)
    memo.append(r)
    return r


class EdgeSum:
    def __init__(self, idx, vals):
        c = ctx()
        self.key = (idx.uid, vals.uid)
        self.n, self.idx, self.vals, self.rank = idx.sz, idx.snapshot(), vals.snapshot(), vals.ndim
        self.kind = "i" if vals.kind in "ib" else "f"
        if vals.kind == "b":
            f = self.vals
            self.vals = lambda *ix: conv(f(*ix), "i")
        self.f = c.func("edgesum", *[z3.IntSort()] * self.rank, z3.IntSort() if self.kind == "i" else z3.RealSort())
        self.seen = []
        ks = [c.int("se") for _ in range(self.rank)]
        rng = [z3.And(k >= 0, k < dz(s)) for k, s in zip(ks, vals._shape)]
        self.nonneg = c.entails(z3.Implies(z3.And(*rng), self.vals(*ks) >= 0))
        if not self.nonneg:
            add_probe(ks[0])
            self.nonneg = c.entails(z3.Implies(z3.And(*rng), self.vals(*ks) >= 0))

    def __call__(self, *ix):
        t = self.f(*ix)
        if any(t.eq(u) for u, _ in self.seen) or ctx().ghost.get("dummy"):
            return t
        self.seen.append((t, ix))
        self.facts(t, ix)
        for o in ctx().ghost["edgesums"]:
            if o is not self and o.rank == self.rank and o.kind == self.kind:
                if not any(o.f(*ix).eq(u) for u, _ in o.seen):
                    o.seen.append((o.f(*ix), ix))
                    o.facts(o.f(*ix), ix)
                self.same(o, ix)
        return t

    def facts(self, t, ix):
        c = ctx()
        i, rest = ix[0], ix[1:]
        w = c.int("contributor")
        n, idx, vals = self.n, self.idx, self.vals
        c.assume(z3.Implies(t != 0, z3.And(w >= 0, w < n, idx(w) == i, vals(w, *rest) != 0)))
        if self.nonneg:
            c.assume(t >= 0)
            forall(lambda e: z3.Implies(z3.And(e >= 0, e < n, idx(e) == i), vals(e, *rest) <= t))
        add_probe(w)

    def same(self, o, ix):
        c = ctx()
        i, rest = ix[0], ix[1:]
        w = c.int("differ")
        c.assume(z3.Or(self.f(*ix) == o.f(*ix), self.n != o.n,
                       z3.And(w >= 0, w < self.n, z3.Or(self.idx(w) != o.idx(w), z3.And(self.idx(w) == i, self.vals(w, *rest) != o.vals(w, *rest))))))
        add_probe(w)


def add_at(a, idx, v):
    """np.add.at(a, idx, v) and index_add_: a[idx[e]] += v[e] for every e"""
    c = ctx()
    if idx.ndim != 1 or idx.kind != "i":
        raise Unsupported("add.at index")
    if not isinstance(v, SArr):
        v = full((idx._shape[0],) + a._shape[1:], v, a.kind if a.kind == "f" else "i")
    if v.ndim != a.ndim:
        raise Unsupported("add.at broadcasting")
    same_length(idx, v)
    N = dz(a._shape[0])
    k = c.int("ai")
    add_probe(k)
    rng = z3.And(k >= 0, k < idx.sz)
    if not c.entails(z3.Implies(rng, z3.And(idx.at(k) >= 0, idx.at(k) < N))):
        if c.branch(c.bool("oob")):
            c.assume(z3.And(rng, z3.Or(idx.at(k) >= N, idx.at(k) < -N)))
            raise IndexError("index out of bounds")
        if not c.entails(z3.Implies(rng, idx.at(k) >= 0)):
            raise Unsupported("negative indices in add.at")
        jf = idx.snapshot()
        forall(lambda x: z3.Implies(z3.And(x >= 0, x < idx.sz), jf(x) < N))
    g = edgesum(idx, v)
    old = a.snapshot() if a.base is None else None
    if old is None:
        raise Unsupported("add.at through a view")
    zero = a.org is not None and a.org[0] == "full" and z3.is_true(z3.simplify(a.org[1] == 0))
    kk = a.kind
    new = (lambda *ix: conv(g(*ix), kk)) if zero else (lambda *ix: old(*ix) + conv(g(*ix), kk))
    a._store_all(new, org=("edgesum", _freeze(idx), _freeze(v)) if zero else None)


def amean(a, axis=None, keepdims=False):
    if a.kind == "b":
        a = a.astype(DType("f"))
    s = asum(a, axis, keepdims)
    if axis is None:
        n = a.size
    else:
        n = wrap(dz(a._shape[axis]))
    nz = tr(n)
    c = ctx()
    if not c.entails(nz != 0) and c.branch(nz == 0):
        raise Unsupported("mean of an empty array (nan)")
    if isinstance(s, SArr):
        return s / n
    return SymReal(ndiv(tr(s), nz))


def aany(a, axis=None, keepdims=False):
    if a.kind != "b":
        a = a.astype(DType("b"))
    if a.ndim == 1:
        return wrap(count_true(a) >= 1)
    if a.ndim == 2 and axis is None:
        c = ctx()
        key = ("any2", a.uid)
        if key not in c.ghost:
            b = c.bool("any")
            i, j = c.int("wi"), c.int("wj")
            f = a.snapshot()
            c.assume(z3.Implies(b, z3.And(i >= 0, i < dz(a._shape[0]), j >= 0, j < dz(a._shape[1]), f(i, j))))
            add_probe(i)
            add_probe(j)
            for p in list(probes()):
                for q in list(probes()):
                    c.assume(z3.Implies(z3.And(p >= 0, p < dz(a._shape[0]), q >= 0, q < dz(a._shape[1]), f(p, q)), b))
            c.ghost[key] = b
        return SymBool(c.ghost[key])
    if a.ndim == 2 and axis in (1, -1):
        rb, wc = c_row("anyrow", a, z3.BoolSort()), c_row("anycol", a, z3.IntSort())
        f, m = a.snapshot(), dz(a._shape[1])

        def at(i):
            c = ctx()
            if not c.ghost.get("dummy"):
                w = wc(i)
                c.assume(z3.Implies(rb(i), z3.And(w >= 0, w < m, f(i, w))))
                for q in list(c.ghost.get("colprobes", [])):
                    c.assume(z3.Implies(z3.And(q >= 0, q < m, f(i, q)), rb(i)))
            return rb(i)

        col = (a._shape[0], 1)
        return SArr(col, "b", lambda i, j: at(i)) if keepdims else SArr((a._shape[0],), "b", at)
    raise Unsupported("any")


def c_row(name, a, srt):
    """a function of the row number, one per array"""
    c = ctx()
    key = (name, a.uid)
    if key not in c.ghost:
        c.ghost[key] = c.func(name, z3.IntSort(), srt)
    return c.ghost[key]


def aall(a, axis=None, keepdims=False):
    if a.kind != "b":
        a = a.astype(DType("b"))
    if a.ndim == 1:
        return wrap(count_true(a) == a.sz)
    r = aany(~a, axis, keepdims)
    if isinstance(r, SArr):
        return ~r
    return SymBool(z3.Not(tb(r)))


def aextreme(a, axis, keepdims, which):
    c = ctx()
    if a.ndim == 1 and axis in (None, 0, -1):
        n = a.sz
        if not c.entails(n > 0) and c.branch(n == 0):
            raise ValueError("zero-size array to reduction operation")
        key = (which, a.uid)
        if key not in c.ghost:
            w = c.int("arg" + which)
            c.assume(z3.And(w >= 0, w < n))
            if a.org and a.org[0] == "sel" and a.org[2] is not None and c.ghost.get("selection order"):
                add_probe(a.org[2](w))
            f = a.snapshot()
            v = a.elem(w) if a.kind == "i" and a.cntf is not None else f(w)
            vv = c.int(which) if a.kind == "i" else c.real(which)
            c.assume(vv == v)
            if a.kind == "i" and a.cntf is not None:
                cf = a.cntf
                forall(lambda x: z3.Implies(cf(x) >= 1, x <= vv if which == "max" else x >= vv))
            else:
                forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), f(x) <= vv if which == "max" else f(x) >= vv))
            c.ghost[key] = vv
        return wrap(c.ghost[key])
    if a.ndim == 2 and axis in (1, -1):
        g, wc = c_row("row" + which, a, _SORT[a.kind]()), c_row("rowarg" + which, a, z3.IntSort())
        n, m = a._shape[0], dz(a._shape[1])
        if not c.entails(m > 0) and c.branch(m == 0):
            if c.branch(dz(n) == 0):
                return SArr((n, 1) if keepdims else (n,), a.kind, lambda *ix: g(ix[0]))
            raise ValueError("zero-size array to reduction operation")
        f = a.snapshot()

        def at(i):
            c = ctx()
            if not c.ghost.get("dummy"):
                w = wc(i)
                rng = z3.And(i >= 0, i < dz(n))
                c.assume(z3.Implies(rng, z3.And(w >= 0, w < m, g(i) == f(i, w))))
                for q in list(c.ghost.get("colprobes", [])):
                    c.assume(z3.Implies(z3.And(rng, q >= 0, q < m), f(i, q) <= g(i) if which == "max" else f(i, q) >= g(i)))
            return g(i)

        if keepdims:
            return SArr((n, 1), a.kind, lambda i, j: at(i))
        return SArr((n,), a.kind, at, org=(which, _freeze(a)))
    if a.ndim == 2 and axis is None:
        r = small_dim(a._shape[0])
        if r is None:
            return aextreme(aextreme(a, 1, False, which), 0, False, which)
        if r == 0:
            raise ValueError("zero-size array to reduction operation")
        n = dz(a._shape[1])
        if not c.entails(n > 0) and c.branch(n == 0):
            raise ValueError("zero-size array to reduction operation")
        key = (which, a.uid)
        if key not in c.ghost:
            w, wr = c.int("arg" + which), c.int("row" + which)
            f = a.snapshot()
            add_probe(w)
            v = c.int(which) if a.kind == "i" else c.real(which)
            c.assume(z3.And(w >= 0, w < n, wr >= 0, wr < r, z3.Or(*[z3.And(wr == q, v == f(z3.IntVal(q), w)) for q in range(r)])))
            forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.And(*[(f(z3.IntVal(q), x) <= v) if which == "max" else (f(z3.IntVal(q), x) >= v) for q in range(r)])))
            c.ghost[key] = v
        return wrap(c.ghost[key])
    raise Unsupported(which)


def small_dim(d):
    """the dimension as a number when it is (provably) a small one"""
    if isinstance(d, int):
        return d if d <= 4 else None
    for q in range(5):
        if ctx().entails(d == q, cheap=True):
            return q
    return None


def aargmax(a, axis):
    c = ctx()
    if a.ndim == 2 and axis in (1, -1):
        m = dz(a._shape[1])
        if not c.entails(m > 0) and c.branch(m == 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        key = ("argmax", a.uid)
        if key not in c.ghost:
            c.ghost[key] = c.func("argmax", z3.IntSort(), z3.IntSort())
        g = c.ghost[key]
        f = a.snapshot()

        def at(i):
            c2 = ctx()
            c2.assume(z3.And(g(i) >= 0, g(i) < m))
            for p in c2.ghost.get("colprobes", []):
                c2.assume(
                    z3.Implies(
                        z3.And(p >= 0, p < m),
                        z3.And(f(i, p) <= f(i, g(i)), z3.Implies(f(i, p) == f(i, g(i)), g(i) <= p)),
                    )
                )
            return g(i)

        return SArr((a._shape[0],), "i", at, org=("argmax", _freeze(a)))
    raise Unsupported("argmax")


def argsort(a, **_k):
    c = ctx()
    n = a.sz
    f = c.func("order", z3.IntSort(), z3.IntSort())
    inv = c.func("rank", z3.IntSort(), z3.IntSort())
    r = SArr((n,), "i", lambda i: f(i), cntf=lambda x: z3.If(z3.And(x >= 0, x < n), I1, I0))
    r.count_facts_done = True
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.And(inv(x) >= 0, inv(x) < n, f(inv(x)) == x)))
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.And(f(x) >= 0, f(x) < n, inv(f(x)) == x)))
    r.posf = inv
    return r


def flatnonzero(a):
    c = ctx()
    if a.kind != "b":
        a = a.astype(DType("b"))
    if a.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    n, N = count_true(a), a.sz
    mf = a.snapshot()
    sel = c.ghost.get(("sel", a.uid))
    if sel is None:
        sel = c.func("sel", z3.IntSort(), z3.IntSort())
        c.ghost[("sel", a.uid)] = sel

    used = c.ghost.setdefault(("selused", a.uid), [])

    def at(i):
        c2 = ctx()
        c2.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(sel(i) >= 0, sel(i) < N, mf(sel(i)))))
        if c2.ghost.get("selection order") and not any(u.eq(i) for u in used):
            for u in used:
                c2.assume(z3.Implies(z3.And(i >= 0, i < n, u >= 0, u < n), z3.And((i < u) == (sel(i) < sel(u)), (u < i) == (sel(u) < sel(i)))))
            used.append(i)
        return sel(i)

    rk = c.func("rankof", z3.IntSort(), z3.IntSort())
    witness(rk)
    r = SArr((n,), "i", at, cntf=lambda x: z3.If(z3.And(x >= 0, x < N, mf(x)), I1, I0),
             org=("nonzero", _freeze(a)), srt=True)
    forall(lambda x: z3.Implies(z3.And(x >= 0, x < N, mf(x)), z3.And(rk(x) >= 0, rk(x) < n, sel(rk(x)) == x)))
    r.posf = rk
    return r


def matmul(a, b):
    c = ctx()
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        raise Unsupported("matmul")
    if a.ndim == 2 and b.ndim == 2:
        if not same_dim(a._shape[1], b._shape[0]):
            if c.branch(dz(a._shape[1]) != dz(b._shape[0])):
                raise ValueError("matmul: dimension mismatch")
        return opaque_array("matmul", [a, b], (a._shape[0], b._shape[1]), "f")
    if a.ndim == 2 and b.ndim == 1:
        return opaque_array("matvec", [a, b], (a._shape[0],), "f")
    if a.ndim == 1 and b.ndim == 1:
        return inner(a, b)
    raise Unsupported("matmul rank")


def inner(a, b):
    """the sum of the products; the same term for the same vectors"""
    c = ctx()
    same_length(a, b)
    key = ("inner",) + tuple(sorted((a.uid, b.uid)))
    if key not in c.ghost:
        s = asum(a * b)
        c.ghost[key] = s
        c.ghost.setdefault("inners", []).append((_freeze(a), _freeze(b), unwrap(s)))
        if a.uid == b.uid:
            c.assume(unwrap(s) >= 0)
    return c.ghost[key]


def opaque_array(op, args, shape, kind):
    """The result of a deterministic library operation about which nothing else is known.

    In relational mode the two runs see the same result when the arguments provably agree."""
    c = ctx()
    key = (op,) + tuple((a.uid if isinstance(a, SArr) else repr(a)) for a in args)
    memo = c.ghost.setdefault("opaque", {})
    if key in memo:
        return memo[key].copy()
    sorts = [z3.IntSort()] * len(shape) + [_SORT[kind]()]
    f = c.func(op, *sorts)
    if c.rel and not all(agrees(a) for a in args):
        f2 = c.func(op + "'", *sorts)
        vs = [z3.Var(i, z3.IntSort()) for i in range(len(shape))]
        c.subst.append((f, f2(*vs), "fun"))
    r = SArr(shape, kind, lambda *ix: f(*ix), org=("opaque", op, tuple(args)))
    r.opaque = f
    memo[key] = r
    return r.copy()


def agrees(a):
    """relational mode: do both runs see the same value?"""
    c = ctx()
    if isinstance(a, SArr):
        ks = [c.int("ag") for _ in range(a.ndim)]
        rng = [z3.And(k >= 0, k < dz(s)) for k, s in zip(ks, a._shape)]
        for s in a._shape:
            if not isinstance(s, int):
                o = c.other(s)
                if not o.eq(s) and not c.entails(o == s):
                    return False
        t = a.at(*ks)
        o = c.other(t)
        return o.eq(t) or c.entails(z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), t == o))
    if isinstance(a, Sym):
        o = c.other(a.t)
        return o.eq(a.t) or c.entails(a.t == o)
    if isinstance(a, (list, tuple)):
        return all(agrees(x) for x in a)
    return True
