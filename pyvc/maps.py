"""Symbolic mappings: has(key), val(key) over integer-coded keys and opaque values."""

from __future__ import annotations

import collections.abc

from . import arrays as A
from .arrays import add_probe, forall
from .core import Unsupported, ctx, z3
from .lists import SymSeq
from .values import Sym, SymBool, SymInt, SymU, U, strconst, wrap

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Key(Sym):
    """an arbitrary key (a string of which only identity is known)"""

    __slots__ = ()

    def __eq__(self, o):
        return SymBool(self.t == code(o)) if isinstance(o, (Key, str)) else False

    def __ne__(self, o):
        return SymBool(self.t != code(o)) if isinstance(o, (Key, str)) else True

    def __hash__(self):
        return id(self)

    def sym_isinstance(self, t):
        return t is str or getattr(t, "_real", None) is str

    def sym_str(self):
        return self


def code(k):
    """the integer code of a key"""
    if isinstance(k, Key):
        return k.t
    if isinstance(k, str):
        c = ctx()
        known = c.memo.setdefault("keycodes", {})
        if k not in known:
            known[k] = z3.IntVal(-1000 - len(known))
        return known[k]
    raise Unsupported(f"key of type {type(k).__name__}")


class Obj(SymU):
    """an opaque value; `isinstance` asks an uninterpreted predicate"""

    __slots__ = ()

    def sym_isinstance(self, t):
        if t in (collections.abc.Mapping, dict) or getattr(t, "_real", None) is dict:
            return ctx().branch(is_map(self.t))
        raise Unsupported(f"isinstance of an opaque value: {t}")


def is_map(t):
    return z3.Function("is_map", U, BOOL)(t)


def val_of(v):
    """the term of a value stored in a symbolic map"""
    if isinstance(v, SymU):
        return v.t
    if isinstance(v, str):
        return strconst(v)
    c = ctx()
    objs = c.memo.setdefault("objs", {})
    for t, o in objs.items():
        if o is v:
            return z3.Const(t, U)
    name = f"obj!{len(objs)}"
    objs[name] = v
    t = z3.Const(name, U)
    for o in objs:
        if o != name:
            c.assume(z3.Const(o, U) != t)
    return t


def obj_of(t):
    objs = ctx().memo.get("objs", {})
    s = z3.simplify(t)
    if z3.is_const(s) and s.decl().name() in objs:
        return objs[s.decl().name()]
    return Obj(s)


class SymMap(collections.abc.Mapping):
    def __init__(self, has, val, name="map"):
        self._has, self._val, self.name = has, val, name
        self.version = 0
        self.frozen = None

    @classmethod
    def fresh(cls, name):
        c = ctx()
        h, v = c.func(name + "_has", INT, BOOL), c.func(name + "_val", INT, U)
        return cls(lambda x: h(x), lambda x: v(x), name)

    def has(self, x):
        add_probe(x)
        return self._has(x)

    def val(self, x):
        return self._val(x)

    def sym_contains(self, k):
        return wrap(self.has(code(k)))

    def __contains__(self, k):
        return ctx().branch(self.has(code(k)))

    def sym_isinstance(self, t):
        return t in (collections.abc.Mapping, dict, sdict) or getattr(t, "_real", None) is dict

    def __getitem__(self, k):
        x = code(k)
        if ctx().ghost.get("pure map"):
            raise Unsupported("item access in a comprehension over keys")
        if not ctx().branch(self.has(x)):
            raise KeyError("key")
        return obj_of(self.val(x))

    def get(self, k, default=None):
        x = code(k)
        if ctx().ghost.get("pure map"):  # inside a comprehension over keys: no case split
            return obj_of(z3.If(self.has(x), self.val(x), val_of(default)))
        if not ctx().branch(self.has(x)):
            return default
        return obj_of(self.val(x))

    def _set(self, has, val):
        if self.frozen:
            ctx().oblige(f"frame: {self.frozen} is not modified", False)
        self._has, self._val = has, val
        self.version += 1

    def __setitem__(self, k, v):
        x, t, h0, v0 = code(k), val_of(v), self._has, self._val
        add_probe(x)
        self._set(lambda y: z3.Or(y == x, h0(y)), lambda y: z3.If(y == x, t, v0(y)))

    def __delitem__(self, k):
        x, h0 = code(k), self._has
        if not ctx().branch(self.has(x)):
            raise KeyError("key")
        self._set(lambda y: z3.And(y != x, h0(y)), self._val)

    def pop(self, k, *d):
        x = code(k)
        if not ctx().branch(self.has(x)):
            if d:
                return d[0]
            raise KeyError("key")
        v = obj_of(self.val(x))
        del self[k]
        return v

    def setdefault(self, k, v=None):
        x = code(k)
        if not ctx().branch(self.has(x)):
            self[k] = v
            return v
        return obj_of(self.val(x))

    def snapshot(self):
        r = SymMap(self._has, self._val, self.name)
        return r

    copy = snapshot
    __copy__ = snapshot

    def __deepcopy__(self, memo):
        return self.snapshot()

    def _enum(self):
        c = ctx()
        key, pos, n = c.func("key", INT, INT), c.func("kpos", INT, INT), c.int("nkeys")
        c.assume(n >= 0)
        h = self._has
        forall(lambda x: z3.And(z3.Implies(h(x), z3.And(pos(x) >= 0, pos(x) < n, key(pos(x)) == x))))

        def at(i):
            k = key(i)
            c2 = ctx()
            add_probe(k)
            c2.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(h(k), pos(k) == i)))
            return k

        return n, at, pos

    def _seq(self, item):
        n, at, pos = self._enum()
        m0 = self.snapshot()
        s = SymSeq(n, lambda i: item(at(i), m0), src=self)
        s.visited = lambda k, x: z3.And(m0._has(x), pos(x) < k)
        s.map0 = m0
        s.member, s.by_key = m0._has, lambda x: item(x, m0)
        return s

    def items(self):
        return self._seq(lambda k, m: (Key(k), obj_of(m._val(k))))

    def keys(self):
        return self._seq(lambda k, m: Key(k))

    def values(self):
        return self._seq(lambda k, m: obj_of(m._val(k)))

    def sym_iter(self):
        return self.keys()

    def sym_len(self):
        return SymInt(self._enum()[0])

    def __len__(self):
        raise Unsupported("len() of a symbolic mapping reached CPython")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic mapping reached CPython")

    def __bool__(self):
        n, _, _ = self._enum()
        c = ctx()
        if c.branch(n > 0):
            return True
        h = self._has
        forall(lambda x: z3.Not(h(x)))
        return False

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic mappings")

    def havoc(self):
        c = ctx()
        h, v = c.func("hv_has", INT, BOOL), c.func("hv_val", INT, U)
        self._set(lambda x: h(x), lambda x: v(x))


class KeySet(SymMap):
    """a set of keys of any size, known by its membership predicate"""

    def __init__(self, pred, name="keys"):
        super().__init__(pred, lambda x: strconst("member"), name)

    def sym_isinstance(self, t):
        return t in (set, frozenset, tuple, list) or getattr(t, "_real", None) in (list, tuple)


    def issubset(self, o):
        has = o.member if hasattr(o, "member") else o.has
        c = ctx()
        b, w = c.bool("subset"), c.int("sw")
        forall(lambda x: z3.Implies(z3.And(b, self._has(x)), has(x)))
        c.assume(z3.Implies(z3.Not(b), z3.And(self._has(w), z3.Not(has(w)))))
        add_probe(w)
        return SymBool(b)

    __le__ = issubset


def set_comp(q, f, cond):
    """{key for ... if ...} over a symbolic mapping or key set"""
    m = map_comp(q, lambda it: (f(it), Obj(strconst("member"))), cond)
    return KeySet(m._has, "setcomp")


def map_comp(q, f, cond):
    """{key: value for ... if ...} over the keys of a symbolic mapping or key set, the key being kept as it is"""
    c = ctx()

    def at(x):
        item = q.by_key(x)
        old = c.ghost.get("pure map")
        c.ghost["pure map"] = True
        try:
            g = unwrap_bool(cond(item)) if cond is not None else z3.BoolVal(True)
            k, v = f(item)
        finally:
            c.ghost["pure map"] = old
        if not (isinstance(k, Key) and k.t.eq(x)):
            raise Unsupported("dict comprehension that renames symbolic keys")
        return g, val_of(v)

    at(c.int("dk"))  # refuses what cannot be expressed
    memo = {}

    def row(x):
        if x.get_id() not in memo:
            memo[x.get_id()] = (x, at(x))
        return memo[x.get_id()][1]

    return SymMap(lambda x: z3.And(q.member(x), row(x)[0]), lambda x: row(x)[1], "comp")


def unwrap_bool(v):
    return v.t if isinstance(v, SymBool) else z3.BoolVal(bool(v))


def sdict(x=(), **kw):
    """dict(...) as seen by verified code that handles symbolic mappings"""
    if isinstance(x, SymMap):
        return x.snapshot()
    if isinstance(x, Obj):
        return x
    return dict(x, **kw)


def candidates(loop, slots, pre):
    """loop invariants for mappings: untouched outside the visited keys, as a template says inside"""
    out = []
    vis = getattr(loop.q, "visited", None)
    for n, v, _ in slots:
        if not isinstance(v, SymMap):
            continue
        p = pre[n]
        if vis is not None:
            out.append((f"mapframe:{n}", 1, lambda e, k, x, n=n, p=p: z3.Implies(z3.Not(vis(k, x)), z3.And(e[n].has(x) == p.has(x), z3.Implies(p.has(x), e[n].val(x) == p.val(x))))))
            for i, t in enumerate(getattr(ctx(), "map_templates", ())):
                def f(e, k, x, n=n, p=p, t=t):
                    h, w = t(p, loop.q.map0, x)
                    return z3.Implies(vis(k, x), z3.And(e[n].has(x) == h, z3.Implies(h, e[n].val(x) == w)))
                out.append((f"maptpl:{n}:{i}", 1, f))
        out.append((f"mapkeep:{n}", 1, lambda e, k, x, n=n, p=p: z3.Implies(p.has(x), z3.And(e[n].has(x), e[n].val(x) == p.val(x)))))
    return out
