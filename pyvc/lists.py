"""Symbolic-length Python sequences.

SymSeq    a sequence given by (length, item function)
ScalarSeq a mutable list of scalars
ArrList   a list of 1-D index arrays, abstracted by multiset counts: cnt(i, x) occurrences of x in
          item i, tot(x) occurrences in all items together, S total number of elements
FamList   a list of ArrLists (cnt(i, x) = occurrences of x in all arrays of list i)

`visits` of an iterable are functions W(k, x): how often x has been met in the first k items.
"""

from __future__ import annotations

from .arrays import SArr, I0, I1, add_probe, const_array, dim, dz, forall, norm_index
from .core import Unsupported, ctx, z3
from .values import Sym, SymInt, concretize, ti, unwrap, wrap, _numlike


class SymSeq:
    def __init__(self, n, item, visits=(), src=None):
        self.n = dz(dim(n))
        self.item_fn = item
        self.visits = list(visits)
        self.src = src
        self.version = 0

    def __len__(self):
        v = concretize(SymInt(self.n))
        if v is None:
            raise Unsupported("len() of a symbolic sequence reached CPython")
        return v

    def __iter__(self):
        v = concretize(SymInt(self.n))
        if v is None:
            raise Unsupported("iteration over a symbolic sequence outside a cut loop")
        return iter([self.item_fn(z3.IntVal(i)) for i in range(v)])

    def __getitem__(self, key):
        if isinstance(key, slice):
            from .arrays import norm_slice

            lo, _hi, ln = norm_slice(key, dim(self.n))
            f = self.item_fn
            return SymSeq(ln, lambda i: f(z3.simplify(lo + i)))
        return self.item_fn(norm_index(key, dim(self.n), "list index"))

    def __bool__(self):
        return ctx().branch(self.n > 0)


class ArrList:
    """A list of index arrays (or of lists of index arrays)."""

    def __init__(self, n, cnt, tot, S=None, size=None, pre=None, nested=False):
        self.n = dz(dim(n))
        self._cnt = cnt
        self._tot = tot
        self._S = S
        self._size = size
        self._pre = pre
        self.nested = nested
        self.version = 0
        self._facts()

    @staticmethod
    def empty(nested=False):
        return ArrList(I0, lambda i, x: I0, lambda x: I0, I0, lambda i: I0, nested=nested)

    @staticmethod
    def fresh(base, n, nested=False):
        c = ctx()
        cf = c.func(base + "_cnt", z3.IntSort(), z3.IntSort(), z3.IntSort())
        tf = c.func(base + "_tot", z3.IntSort(), z3.IntSort())
        sf = c.func(base + "_size", z3.IntSort(), z3.IntSort())
        S = c.int(base + "_S")
        return ArrList(n, lambda i, x: cf(i, x), lambda x: tf(x), S, lambda i: sf(i), nested=nested)

    def _facts(self):
        n, tot, S = self.n, self._tot, self._S
        ctx().assume(n >= 0)
        forall(lambda x: z3.And(tot(x) >= 0, z3.Implies(n == 0, tot(x) == 0)))
        if S is not None:
            ctx().assume(z3.And(S >= 0, z3.Implies(n == 0, S == 0)))
            forall(lambda x: tot(x) <= S)

    # ghost views
    def cnt(self, i, x):
        add_probe(x)
        t = self._cnt(i, x)
        ctx().assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(t >= 0, t <= self._tot(x))))
        return t

    def tot(self, x):
        add_probe(x)
        return self._tot(x)

    def size(self, i):
        s = self._size(i)
        ctx().assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(s >= 0, s <= self._S)))
        return s

    def snapshot(self):
        r = object.__new__(ArrList)
        r.__dict__.update(self.__dict__)
        return r

    def pre(self):
        """prefix counts W(k, x) = sum of cnt(i, x) over i < k"""
        if self._pre is None:
            c = ctx()
            P = c.func("lpre", z3.IntSort(), z3.IntSort(), z3.IntSort())
            n, tot, cnt = self.n, self._tot, self._cnt
            forall(lambda x: z3.And(P(I0, x) == 0, P(n, x) == tot(x)))

            def step(k):
                forall(
                    lambda x: z3.Implies(
                        z3.And(k >= 0, k < n),
                        z3.And(P(k + 1, x) == P(k, x) + cnt(k, x), cnt(k, x) >= 0, P(k, x) >= 0,
                               P(k + 1, x) <= tot(x)),
                    )
                )

            self._pre = (lambda k, x: P(k, x), step)
        return self._pre

    # python list protocol
    def item_at(self, i):
        if self.nested:
            return FamItem(self, i)
        cnt = self.snapshot()
        a = SArr((self.size(i),), "i", None, cntf=lambda x: cnt.cnt(i, x), org=("aitem", self, i, self.version))
        f = ctx().func("item", z3.IntSort(), z3.IntSort())
        a._fn = lambda j: f(j)
        return a

    def __getitem__(self, key):
        if isinstance(key, slice):
            raise Unsupported("slice of a list of arrays")
        return self.item_at(norm_index(key, dim(self.n), "list index"))

    def __bool__(self):
        return ctx().branch(self.n > 0)

    def __len__(self):
        v = concretize(SymInt(self.n))
        if v is None:
            raise Unsupported("len() of a symbolic list reached CPython")
        return v

    def __iter__(self):
        v = concretize(SymInt(self.n))
        if v is None:
            raise Unsupported("iteration over a symbolic list outside a cut loop")
        return iter([self.item_at(z3.IntVal(i)) for i in range(v)])

    def append(self, a):
        if self.nested:
            if isinstance(a, list) and not a:
                a = ArrList.empty()
            if not isinstance(a, ArrList) or a.nested:
                raise Unsupported("append to a list of lists")
            ca, na, sa = a._tot, a.n, a._S
        else:
            hook = getattr(self, "scalar_hook", None)
            if hook is not None and (isinstance(a, (Sym, bool, float)) or isinstance(a, int)):
                hook(unwrap(a).sort())
            a = as_index_array(a)
            if a.cntf is None:
                a.cnt(z3.IntVal(-1))
            a.cnt(z3.IntVal(-1))
            ca, sa = a.cntf, a.sz
        n, cnt, tot, S, size = self.n, self._cnt, self._tot, self._S, self._size
        self._cnt = lambda i, x: z3.If(i == n, ca(x), cnt(i, x))
        self._tot = lambda x: tot(x) + ca(x)
        self._S = S + sa
        self._size = lambda i: z3.If(i == n, sa, size(i))
        self._pre = None
        self.n = z3.simplify(n + 1)
        self.version += 1
        self._facts()

    def havoc(self, keep_n=False):
        r = ArrList.fresh("lst", self.n if keep_n else ctx().int("lst_n"), self.nested)
        for q in ("n", "_cnt", "_tot", "_S", "_size", "_pre"):
            setattr(self, q, getattr(r, q))
        self.version += 1

    def concat(self):
        c = ctx()
        if self.nested:
            raise Unsupported("concatenate of nested lists")
        if not c.entails(self.n > 0) and c.branch(self.n == 0):
            raise ValueError("need at least one array to concatenate")
        tot = self._tot
        f = c.func("cat", z3.IntSort(), z3.IntSort())
        pos = c.func("cat_pos", z3.IntSort(), z3.IntSort())
        S = self._S
        a = SArr((S,), "i", lambda i: f(i), cntf=lambda x: tot(x))
        a.posf = pos
        forall(lambda x: z3.Implies(tot(x) >= 1, z3.And(pos(x) >= 0, pos(x) < S, f(pos(x)) == x)))
        return a


class FamItem:
    """fold_parts[i]: a list of arrays living inside a list"""

    nested = False

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    @property
    def n(self):
        # number of arrays in the inner list: unknown, but an empty list holds nothing
        c = ctx()
        key = ("nparts", id(self.fam), self.fam.version, self.i.get_id())
        if key not in c.ghost:
            t = c.int("nparts")
            c.ghost[key] = t
            c.assume(t >= 0)
            fam, i = self.fam.snapshot(), self.i
            forall(lambda x: z3.Implies(t == 0, fam.cnt(i, x) == 0))
            c.assume(z3.Implies(t == 0, fam.size(i) == 0))
            c.ghost[("keep", key)] = (self.fam, self.i)
        return c.ghost[key]

    def __bool__(self):
        return ctx().branch(self.n > 0)

    def append(self, a):
        a = as_index_array(a)
        a.cnt(z3.IntVal(-1))
        fam, i = self.fam, self.i
        cnt, tot, S, size = fam._cnt, fam._tot, fam._S, fam._size
        ca, sa = a.cntf, a.sz
        fam._cnt = lambda j, x: z3.If(j == i, cnt(j, x) + ca(x), cnt(j, x))
        fam._tot = lambda x: tot(x) + ca(x)
        fam._S = S + sa
        fam._size = lambda j: z3.If(j == i, size(j) + sa, size(j))
        fam._pre = None
        fam.version += 1
        fam._facts()

    def as_list(self):
        f, i = self.fam.snapshot(), self.i
        c = ctx()
        sub = c.func("sub", z3.IntSort(), z3.IntSort(), z3.IntSort())
        ssz = c.func("subsz", z3.IntSort(), z3.IntSort())
        return ArrList(self.n, lambda j, x: sub(j, x), lambda x: f.cnt(i, x), f.size(i), lambda j: ssz(j))


class ScalarSeq(SymSeq):
    """A mutable list of scalars with symbolic length."""

    def __init__(self, n, fn):
        super().__init__(n, lambda i: wrap(fn(i)))
        self.fn = fn

    def append(self, v):
        n, f, t = self.n, self.fn, unwrap(v)
        self.fn = lambda i: z3.If(i == n, t, f(i))
        g = self.fn
        self.item_fn = lambda i: wrap(g(i))
        self.n = z3.simplify(n + 1)
        self.version += 1


def as_index_array(a):
    import numpy as np

    if isinstance(a, np.ndarray):
        a = const_array([x.item() for x in a.reshape(-1)], kind="i") if a.size else const_array([], kind="i")
    if not isinstance(a, SArr) or a.ndim != 1 or a.kind != "i":
        raise Unsupported("list of something other than index arrays")
    return a


def iterable(it):
    """(n, item function, visits, step facts) of a symbolic iterable, or None when it is concrete"""
    if isinstance(it, SymSeq):
        return it
    if isinstance(it, ArrList):
        W, step = it.pre()
        fz = it

        def item(i):
            step(i)
            return fz.item_at(i)

        return SymSeq(it.n, item, [W], src=it)
    if isinstance(it, SArr):
        n = it._shape[0]
        if isinstance(n, int):
            return None
        v = concretize(SymInt(n)) if False else None
        if v is not None:
            return None
        vis = []
        if it.org and it.org[0] == "classes":
            A, g, cpos = it.org[1], it.org[2], it.org[3]
            vis.append(lambda k, x: z3.If(z3.And(A.cnt(x) >= 1, cpos(g(x)) < k), A.cnt(x), I0))
        if it.ndim == 1 and it.kind == "i":
            from .arrays import prefix

            P, fz = prefix(it)
            nn, fn = it.sz, fz.at

            def item(i):
                v = it.elem(i)
                t = fn(i)
                forall(
                    lambda x: z3.Implies(
                        z3.And(i >= 0, i < nn),
                        z3.And(P(i + 1, x) == P(i, x) + z3.If(t == x, I1, I0), P(i, x) >= 0,
                               P(i + 1, x) <= fz.cntf(x)),
                    )
                )
                return wrap(v)

            vis.append(lambda k, x: P(k, x))
            return SymSeq(n, item, vis, src=it)
        if it.ndim == 1:
            return SymSeq(n, lambda i: wrap(it.at(i)), vis, src=it)
        return SymSeq(n, lambda i: it[wrap(i)], vis, src=it)
    return None


def to_seq(it):
    """any iterable -> SymSeq or None (concrete)"""
    return iterable(it)


def srange(*args):
    vals = [a for a in args]
    if all(isinstance(a, int) and not isinstance(a, bool) for a in vals):
        return range(*vals)
    if len(vals) == 1:
        lo, hi = I0, ti(vals[0])
    elif len(vals) == 2 or (len(vals) == 3 and isinstance(vals[2], int) and vals[2] == 1):
        lo, hi = ti(vals[0]), ti(vals[1])
    else:
        st = vals[2]
        lo, hi, s = ti(vals[0]), ti(vals[1]), ti(st)
        if not ctx().entails(s > 0):
            raise Unsupported("range step not provably positive")
        n = z3.If(hi > lo, (hi - lo + s - 1) / s, I0)
        return SymSeq(z3.simplify(n), lambda i: wrap(z3.simplify(lo + i * s)))
    c = SymInt(lo), SymInt(hi)
    cl, ch = concretize_cheap(c[0]), concretize_cheap(c[1])
    if cl is not None and ch is not None:
        return range(cl, ch)
    n = z3.simplify(z3.If(hi > lo, hi - lo, I0))
    if ctx().entails(hi >= lo):
        n = z3.simplify(hi - lo)
    r = SymSeq(n, lambda i: wrap(z3.simplify(lo + i)), [lambda k, x: z3.If(z3.And(x >= lo, x < lo + k), I1, I0)])
    r.is_range = (lo, hi)
    return r


def concretize_cheap(x):
    t = z3.simplify(x.t)
    return t.as_long() if z3.is_int_value(t) else None


def senumerate(it, start=0):
    q = iterable(it)
    if q is None:
        return enumerate(it, start)
    return SymSeq(q.n, lambda i: (wrap(z3.simplify(i + start)), q.item_fn(i)), q.visits, src=("enum", it, start))


def szip(*its, strict=False):
    qs = [iterable(i) for i in its]
    if all(q is None for q in qs):
        return zip(*its, strict=strict)
    c = ctx()
    ns = []
    for q, it in zip(qs, its):
        if q is None:
            it = list(it)
            ns.append((z3.IntVal(len(it)), _conc_item(it)))
        else:
            ns.append((q.n, q.item_fn))
    n = ns[0][0]
    for m, _ in ns[1:]:
        if m.eq(n) or c.entails(m == n):
            continue
        if strict:
            if c.branch(m != n):
                raise ValueError("zip() arguments have different lengths")
        else:
            n = z3.If(m < n, m, n)
    vis = [w for q in qs if q is not None for w in q.visits]
    return SymSeq(n, lambda i: tuple(f(i) for _, f in ns), vis, src=("zip", its))


def _conc_item(lst):
    def f(i):
        t = z3.simplify(i)
        if z3.is_int_value(t):
            return lst[t.as_long()]
        return const_array(lst)[wrap(i)]

    return f
