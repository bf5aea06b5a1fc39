"""Loops over symbolic-length sequences: cut at the head with an inferred inductive invariant.

The invariant is the conjunction of candidate facts generated from templates over the loop's
state (the objects the body changes), the iterable's visit counts and the pre-state.  Candidates
are keyed on what the objects are, not on variable names; a candidate that is not implied at entry
or not preserved by the body is dropped and the exploration restarts (Houdini), so what remains is
inductive.  Contracts may add invariants of their own through `Ctx.loop_invs`.
"""

from __future__ import annotations

from . import arrays as A
from .arrays import I0, SArr, add_probe, dz, forall
from .core import PathEnd, Restart, Unsupported, ctx, z3
from . import maps
from .lists import ArrList, FamItem, ScalarSeq, SymSeq, iterable
from .maps import Key, Obj, SymMap
from .values import Sym, SymBool, SymInt, SymReal, SymU, tn, unwrap, wrap


class _Missing:
    pass


def versions(env):
    out = {}
    for n, v in env.items():
        if isinstance(v, (SArr, ArrList, ScalarSeq, SymMap)):
            out[n] = (id(v), v.version)
    return out


class Loop:
    def __init__(self, key, it, names, muts):
        self.key = key
        self.names = [n for n in names]
        self.muts = list(muts)
        if isinstance(it, SymMap):
            it = it.keys()
        q = iterable(it) if isinstance(it, (SymSeq, ArrList, SArr)) else None
        if q is None and isinstance(it, FamItem):
            raise Unsupported("loop over an inner list")
        self.sym = q is not None
        self.first = True
        self.steps = []
        if not self.sym:
            self._it = iter(it)
            self.env = {}
        else:
            self.q = q
            self.src_version = getattr(q.src, "version", None)

    # concrete mode ------------------------------------------------------
    def more(self, env):
        if not self.sym:
            try:
                self._next = next(self._it)
                return True
            except StopIteration:
                return False
        c = ctx()
        if self.first:
            self.first = False
            if c.branch(self.k < self.q.n):
                return True
            c.assume(self.k == self.q.n)
            return False
        self.check_back(env, self.k + 1)
        raise PathEnd("loop back edge")

    def item(self):
        if not self.sym:
            return self._next
        for st in self.steps:
            st(self.k)
        return self.q.item_fn(self.k)

    # symbolic mode ------------------------------------------------------
    def has(self, n):
        return self.sym and n in self.env

    def val(self, n):
        return self.env[n]

    def enter(self, env):
        c = ctx()
        env = {k: v for k, v in env.items() if not k.startswith("__")}
        extra = c.loop_mut.setdefault(self.key, set())
        slots = []  # (name, kind, obj, rebound)
        for n in sorted(set(self.names) | set(self.muts) | extra):
            if n not in env:
                continue
            v = env[n]
            rebound = n in self.names and not (
                isinstance(v, (SArr, ArrList, ScalarSeq, SymMap)) and n in self.muts and n not in c.loop_rebind.get(self.key, ())
            )
            if rebound and isinstance(v, (SArr, ArrList)) and (n in self.names):
                rebound = True
            slots.append((n, v, rebound))
        # a plain Python list (or dict) that the body fills
        env2 = dict(env)
        self.env = {}
        if "@attr" in self.muts:
            raise Unsupported("attribute assignment in a loop")
        new, opts, nones = [], [], []
        self.recs = []  # records: dicts with string keys whose scalar values the body may change
        for n, v, rebound in slots:
            if isinstance(v, list) and sum(1 for u in env.values() if u is v) > 1:
                raise Unsupported(f"aliased list {n} in a loop")
            if isinstance(v, list) and not v:
                kind = c.loop_kind.get((self.key, n), "arrs")
                if kind == "arrs":
                    v2 = ArrList.empty()

                    def hook(srt, n=n):
                        c.loop_kind[(self.key, n)] = srt
                        raise Restart()

                    v2.scalar_hook = hook
                else:
                    v2 = ScalarSeq(I0, lambda i, z=z3.Const("undef_" + str(kind), kind): z)
                self.env[n] = v2
                env2[n] = v2
                new.append((n, v2, False))
            elif isinstance(v, list) and v and all(isinstance(x, SArr) for x in v):
                v2 = ArrList.empty()
                for x in v:
                    v2.append(x)
                self.env[n] = v2
                env2[n] = v2
                new.append((n, v2, False))
            elif isinstance(v, (bool, int, float, Sym)) and not isinstance(v, str):
                new.append((n, v, True))
            elif isinstance(v, (SArr, ArrList, ScalarSeq, SymMap)):
                if isinstance(v, SymMap) and rebound:
                    raise Unsupported(f"mapping {n} rebound in a loop")
                new.append((n, v, rebound))
            elif n in self.muts and n not in self.names and type(v) is dict and all(isinstance(q, str) for q in v):
                self.recs.append((n, v, dict(v)))
            elif n in self.muts and n not in self.names and isinstance(v, (dict, set, list)):
                raise Unsupported(f"loop changes a {type(v).__name__} ({n})")
            elif n in self.names:
                if v is None:
                    proto = c.loop_opt.get((self.key, n))
                    if proto is not None:
                        # at an arbitrary iteration the name is still None or already bound
                        opts.append((n, proto))
                    nones.append(n)
                    continue
                # any use before the body assigns it again is refused
                self.env[n] = env2[n] = Poison(n)
        self.slots = new
        self.nones = nones
        self.pre = {n: _snap(v) for n, v, _ in new}
        self.env0 = env2
        self.cands = self.candidates(env2)
        # entry
        for cid, ar, f in self.cands:
            if (self.key, cid) in c.dropped:
                continue
            if not self._holds(ar, f, env2, I0, cid):
                c.dropped.add((self.key, cid))
        for lab, f in c.loop_invs.get(self.key, ()):
            c.oblige(f"loop invariant on entry: {lab}", f(env2, wrap(I0), self.pre))
        # havoc
        c.abstract.append("loop " + self.key)
        self.k = c.int("k")
        c.assume(z3.And(self.k >= 0, self.k <= self._n()))
        add_probe(self.k)
        for n, v, rebound in new:
            if rebound:
                h = _fresh_like(n, v, c.loop_dims.get((self.key, n), ()))
                env2[n] = h
                self.env[n] = h
            else:
                v_h = env2[n]
                _havoc(v_h)
        for n, v, p in self.recs:
            for q, x in p.items():
                if isinstance(x, (bool, int, float, SymBool, SymInt, SymReal)):
                    v[q] = _fresh_like(f"{n}_{q}", x)
        for n, proto in opts:
            if c.choose(2, "bound_" + n):
                h = _fresh_like(n, proto, range(proto.ndim) if isinstance(proto, SArr) else ())
                env2[n] = h
                self.env[n] = h
        for n, v, _ in new:
            if isinstance(env2[n], SArr) and ("cnt0:" + n) in {q for q, _, _ in self.cands} and (self.key, "cnt0:" + n) not in c.dropped:
                env2[n].cnt(z3.IntVal(-1))
        live = [q for q in self.cands if (self.key, q[0]) not in c.dropped]
        for n, v, rebound in new:
            fs = [f for cid, ar, f in live if ar == 2 and cid.split(":")[1] == n]
            if fs and isinstance(env2[n], SArr):
                e = dict(env2)
                e.update({m: _snap(e[m]) for m, _, _ in new})
                _with_facts(env2[n], fs, e, self.k)
        for cid, ar, f in live:
            if ar == 0:
                c.assume(f(env2, self.k))
            elif ar == 1:
                e, kk = dict(env2), self.k
                e.update({m: _snap(e[m]) for m, _, _ in new})
                forall(lambda x, f=f, e=e, kk=kk: f(e, kk, x))
        for lab, f in c.loop_invs.get(self.key, ()):
            g = f(env2, wrap(self.k), self.pre)
            if z3.is_false(z3.simplify(g)):
                raise PathEnd("not a state of the loop")
            c.assume(g)
        self.head_env = dict(env2)
        self.head_versions = versions(env2)
        self.head_shape = {n: _shape(v) for n, v in env2.items()
                           if isinstance(v, (dict, list, set)) and not any(v is u for _, u, _ in self.recs)}
        self.head_recs = [dict(v) for _, v, _ in self.recs]

    def _n(self):
        return self.q.n

    def _holds(self, ar, f, env, k, cid=""):
        c = ctx()
        cheap = bool(c.ghost.get("cheap loops")) and cid not in self.given  # linear reasoning only (fewer candidates survive)
        try:
            if ar == 2:
                a = env[cid.split(":")[1]]
                ix = [c.ghost.setdefault(("hx", q), c.int(f"hx{q}")) for q in range(a.ndim)]
                for u in ix:
                    add_probe(u)
                rng = z3.And(*[z3.And(u >= 0, u < dz(s)) for u, s in zip(ix, a._shape)])
                return c.entails(z3.Implies(rng, f(env, k, ix, a.at(*ix))), cheap=cheap)
            if ar == 0:
                return c.entails(f(env, k), cheap=cheap)
            x = c.ghost.get("hx")
            if x is None:
                x = c.ghost["hx"] = c.int("hx")
                add_probe(x)
            return c.entails(f(env, k, x), cheap=cheap)
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
            return False

    def check_back(self, env, k1):
        c = ctx()
        env = {n: v for n, v in env.items() if not n.startswith("__")}
        if self.sym and getattr(self, "src_version", None) is not None and isinstance(self.q.src, (SArr, ArrList, SymMap)):
            if self.q.src.version != self.src_version:
                raise Unsupported("the loop changes its own iterable")
        # objects changed in place that were not havocked
        known = {n for n, _, _ in self.slots}
        hv = self.head_versions
        for n, (i, ver) in hv.items():
            if n in known:
                continue
            v = self.head_env[n]
            if v.version != ver and id(v) == i:
                ex = c.loop_mut.setdefault(self.key, set())
                if n in ex:
                    raise Unsupported(f"in-place change of {n} in a loop")
                ex.add(n)
                raise Restart()
        for n, sh in self.head_shape.items():
            if _shape(self.head_env[n]) != sh:
                raise Unsupported(f"loop changes {n}")
        for (n, v, _), h in zip(self.recs, self.head_recs):
            if list(v) != list(h) or not all(_same_kind(v[q], h[q]) if isinstance(h[q], Sym) else v[q] is h[q] for q in h):
                raise Unsupported(f"loop changes the keys or kinds of {n}")
        for n in self.nones:
            cur = env.get(n)
            h = self.head_env.get(n)
            if cur is None:
                if h is not None:
                    raise Unsupported(f"{n} unbound again in a loop")
                continue
            if (self.key, n) not in c.loop_opt:
                _fresh_like(n, cur)  # refuses kinds that cannot be made arbitrary
                c.loop_opt[(self.key, n)] = cur
                raise Restart()
            if not _same_kind(cur, c.loop_opt[(self.key, n)]):
                raise Unsupported(f"{n} changes type in a loop")
        for n, v, rebound in self.slots:
            cur = env.get(n, _Missing)
            if not rebound and cur is not self.head_env[n]:
                if cur is _Missing:
                    raise Unsupported(f"{n} unbound in a loop")
                # rebinding of a mutable name
                rb = c.loop_rebind.setdefault(self.key, set())
                if n in rb or not isinstance(cur, SArr):
                    raise Unsupported(f"{n} rebound in a loop")
                rb.add(n)
                raise Restart()
            if rebound and not _same_kind(cur, self.head_env[n]):
                raise Unsupported(f"{n} changes type in a loop")
            if rebound and isinstance(cur, SArr):
                # a dimension that the body may change is arbitrary at the head
                free = c.loop_dims.setdefault((self.key, n), set())
                new = {q for q, (s, t) in enumerate(zip(cur._shape, v._shape)) if q not in free and not _stays(s, t)}
                if new:
                    free |= new
                    raise Restart()
        changed = False
        for cid, ar, f in self.cands:
            if (self.key, cid) in c.dropped:
                continue
            if not self._holds(ar, f, env, k1, cid):
                c.dropped.add((self.key, cid))
                changed = True
        if changed:
            raise Restart()
        for lab, f in c.loop_invs.get(self.key, ()):
            c.oblige(f"loop invariant preserved: {lab}", f(env, wrap(z3.simplify(k1)), self.pre))

    # templates ----------------------------------------------------------
    def visits(self):
        vs = list(self.q.visits)
        if getattr(self.q, "is_range", None) is not None or (isinstance(self.q.src, tuple) and self.q.src[0] == "enum"):
            # an index loop walks every list of that length in step
            c = ctx()
            changed = {n for n, _, _ in self.slots}
            for n, v in sorted(self.env0.items(), key=lambda q: q[0]):
                if isinstance(v, ArrList) and n not in changed and (v.n.eq(self.q.n) or c.entails(v.n == self.q.n)):
                    W, step = v.pre()
                    vs.append(W)
                    self.steps.append(step)
        return vs

    def candidates(self, env):
        out = []
        self.given = set()
        c = ctx()
        pre = self.pre
        W = self.visits()
        lists = [(n, v) for n, v, _ in self.slots if isinstance(v, ArrList)]
        arrs = [(n, v) for n, v, _ in self.slots if isinstance(v, SArr)]
        nums = [(n, v) for n, v, _ in self.slots if isinstance(v, (int, SymInt, SymReal, float)) and not isinstance(v, bool)]
        for n, v in lists:
            p = pre[n]
            if not v.nested:
                out.append((f"len:{n}", 0, lambda e, k, n=n, p=p: e[n].n == p.n + k))
            for w_i, w in enumerate(W):
                out.append((f"tot:{n}:{w_i}", 1, lambda e, k, x, n=n, p=p, w=w: e[n].tot(x) == p.tot(x) + w(k, x)))
                out.append((f"tot<=:{n}:{w_i}", 1, lambda e, k, x, n=n, p=p, w=w: e[n].tot(x) <= p.tot(x) + w(k, x)))
        for a in range(len(lists)):
            for b in range(a + 1, len(lists)):
                (n, v), (m, u) = lists[a], lists[b]
                for w_i, w in enumerate(W):
                    out.append((f"pair:{n}:{m}:{w_i}", 1,
                                lambda e, k, x, n=n, m=m, w=w: e[n].tot(x) + e[m].tot(x)
                                == pre[n].tot(x) + pre[m].tot(x) + w(k, x)))
        def num_vals(e):
            return {q: tn(e[q]) for q, _ in nums}
        for n, v in nums:
            p = pre[n]
            out.append((f"ge0:{n}", 0, lambda e, k, n=n: tn(e[n]) >= 0))
            out.append((f"mono+:{n}", 0, lambda e, k, n=n, p=p: tn(e[n]) >= tn(p)))
            out.append((f"mono-:{n}", 0, lambda e, k, n=n, p=p: tn(e[n]) <= tn(p)))
            out.append((f"step:{n}", 0, lambda e, k, n=n, p=p: tn(e[n]) == tn(p) + k))
        ints_env = [(q, v) for q, v in self.env0.items() if isinstance(v, (SymInt,)) and q not in {n for n, _, _ in self.slots}]
        for n, v in nums:
            for q, u in ints_env:
                out.append((f"le:{n}:{q}", 0, lambda e, k, n=n, u=u: tn(e[n]) <= u.t))
                out.append((f"ge:{n}:{q}", 0, lambda e, k, n=n, u=u: tn(e[n]) >= u.t))
        for n, v, p in self.recs:
            for q, x in p.items():
                if isinstance(x, (bool, int, float, SymBool, SymInt, SymReal)):
                    out.append((f"rec:{n}:{q}", 0, lambda e, k, n=n, q=q, t=unwrap(x): unwrap(e[n][q]) == t))
        for t in c.ghost.get("loop templates", ()):
            new = t(self, env)
            self.given |= {q[0] for q in new}  # the contract's own invariants get the full effort
            out += new
        consts = c.ghost.get("loop consts", ())
        preds = c.ghost.get("elem preds", ())
        for q, (kind, nd, f) in enumerate(preds):
            for n, v in arrs:
                if v.kind == kind and v.ndim == nd:
                    out.append((f"pred{q}:{n}", 2, lambda e, k, ix, t, f=f: f(ix, t)))
        for q in range(len(arrs)):
            for r in range(q + 1, len(arrs)):
                n, m = arrs[q][0], arrs[r][0]
                if arrs[q][1].ndim and arrs[r][1].ndim:
                    out.append((f"rows:{n}:{m}", 0, lambda e, k, n=n, m=m: dz(e[n]._shape[0]) == dz(e[m]._shape[0])))
        for n, v in arrs:
            p = pre[n]
            cs = [A.conv(t, v.kind) for t in consts if _fits(t, v.kind)]
            if cs:
                out.append((f"keepor:{n}", 2, lambda e, k, ix, t, p=p, cs=cs: z3.Or(t == p.at(*ix), *[t == q for q in cs])))
                for q in range(len(cs)):
                    out.append((f"fix{q}:{n}", 2, lambda e, k, ix, t, p=p, q=cs[q]: (t == q) == (p.at(*ix) == q)))
            if v.ndim == 1 and v.kind == "i":
                out.append((f"cnt0:{n}", 1, lambda e, k, x, n=n, p=p: e[n].cnt(x) == p.cnt(x)))
            if v.ndim == 1 and v.kind in ("i", "f"):
                rng = lambda x, s=v.sz: z3.And(x >= 0, x < s)  # noqa: E731
                out.append((f"nn:{n}", 1, lambda e, k, x, n=n, rng=rng: z3.Implies(rng(x), e[n].at(x) >= 0)))
                out.append((f"up:{n}", 1, lambda e, k, x, n=n, p=p, rng=rng: z3.Implies(rng(x), e[n].at(x) >= p.at(x))))
                out.append((f"dn:{n}", 1, lambda e, k, x, n=n, p=p, rng=rng: z3.Implies(rng(x), e[n].at(x) <= p.at(x))))
                for w_i, w in enumerate(W):
                    out.append((f"wadd:{n}:{w_i}", 1, lambda e, k, x, n=n, p=p, w=w, rng=rng: z3.Implies(rng(x), e[n].at(x) == p.at(x) + w(k, x))))
                    out.append((f"wfr:{n}:{w_i}", 1, lambda e, k, x, n=n, p=p, w=w, rng=rng: z3.Implies(z3.And(rng(x), w(k, x) == 0), e[n].at(x) == p.at(x))))
                for q, u in self.env0.items():
                    if isinstance(u, SArr) and q != n and u.ndim == 1 and u.kind == v.kind and q not in dict(arrs) and A.same_dim(u._shape[0], v._shape[0]):
                        uf = A._freeze(u)
                        out.append((f"le:{n}:{q}", 1, lambda e, k, x, n=n, uf=uf, rng=rng: z3.Implies(rng(x), e[n].at(x) <= uf.at(x))))
                        for w_i, w in enumerate(W):
                            out.append((f"wle:{n}:{q}:{w_i}", 1, lambda e, k, x, n=n, uf=uf, w=w, rng=rng: z3.Implies(z3.And(rng(x), w(k, x) >= 1), e[n].at(x) <= uf.at(x))))
                            out.append((f"wge:{n}:{q}:{w_i}", 1, lambda e, k, x, n=n, uf=uf, w=w, rng=rng: z3.Implies(z3.And(rng(x), w(k, x) >= 1), e[n].at(x) >= uf.at(x))))
                out.append((f"sumk:{n}", 0, lambda e, k, n=n, p=p: A.sum_term(e[n]) == A.sum_term(p) + k))
                for m, u in nums:
                    out.append((f"sum=:{n}:{m}", 0, lambda e, k, n=n, m=m: A.sum_term(e[n]) == tn(e[m])))
        return out + maps.candidates(self, self.slots, pre)


class WLoop(Loop):
    """`while` loops: cut when the condition is symbolic at the first test"""

    def __init__(self, key, test, names, muts):
        self.key, self.names, self.muts = key, list(names), list(muts)
        self.env = {}
        self.first = True
        self.steps = []
        self.q = SymSeq(0, lambda i: None)
        self.sym = self._probe(test)

    def _probe(self, test):
        c = ctx()
        c.probe_mode = True
        try:
            bool(test())
            return False
        except _SymTest:
            return True
        finally:
            c.probe_mode = False

    def _n(self):
        return ctx().int("kmax")

    def head(self, env):
        if not self.sym:
            return True
        if self.first:
            self.first = False
            return True
        self.check_back(env, self.k + 1)
        raise PathEnd("loop back edge")

    def test(self, v):
        return v

    def visits(self):
        return []


def _fits(t, kind):
    return (kind == "i" and z3.is_int(t)) or (kind == "f" and (z3.is_int(t) or z3.is_real(t)))


def _with_facts(a, fs, env, k):
    """every access of the arbitrary array brings its elementwise invariants"""
    f0, seen = a._fn, []
    shape = [dz(s) for s in a._shape]

    def at(*ix):
        t = f0(*ix)
        c = ctx()
        if not c.ghost.get("dummy") and not any(t.eq(u) for u in seen):
            seen.append(t)
            rng = z3.And(*[z3.And(u >= 0, u < s) for u, s in zip(ix, shape)])
            for f in fs:
                c.assume(z3.Implies(rng, f(env, k, ix, t)))
        return t

    a._fn = at


class Poison:
    """a name whose value at an arbitrary iteration is not known"""

    def __init__(self, n):
        self.__dict__["_n"] = n

    def _no(self, *a, **k):
        raise Unsupported(f"{self.__dict__['_n']} is used in a loop before it is assigned")

    __getattr__ = __setattr__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = _no
    __getitem__ = __setitem__ = __call__ = __add__ = __radd__ = __sub__ = __mul__ = __contains__ = __hash__ = __str__ = __repr__ = _no


class _SymTest(BaseException):
    pass


def _shape(v):
    if isinstance(v, dict):
        return [(k, id(x)) for k, x in v.items()]
    return [id(x) for x in v]


def _snap(v):
    if isinstance(v, SArr):
        return A._freeze(v)
    if isinstance(v, (ArrList, SymMap)):
        return v.snapshot()
    return v


def _same_kind(a, b):
    num = (int, float, SymInt, SymReal)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and a.kind == b.kind
    if isinstance(b, SymInt):
        return isinstance(a, (int, SymInt)) and not isinstance(a, bool)
    if isinstance(b, SymReal):
        return isinstance(a, num)
    if isinstance(b, SymBool):
        return isinstance(a, (bool, SymBool))
    if isinstance(b, Obj):
        return isinstance(a, Obj)
    if isinstance(b, Key):
        return isinstance(a, Key)
    if isinstance(b, SymU):
        return isinstance(a, (SymU, str))
    return type(a) is type(b)


def _stays(s, t):
    return A.same_dim(s, t) or ctx().entails(dz(s) == dz(t))


def _fresh_like(n, v, free=()):
    c = ctx()
    if isinstance(v, (bool, SymBool)):
        return SymBool(c.bool("h_" + n))
    if isinstance(v, (int, SymInt)):
        return SymInt(c.int("h_" + n))
    if isinstance(v, (float, SymReal)):
        return SymReal(c.real("h_" + n))
    if isinstance(v, Key):
        return Key(c.int("h_" + n))
    if isinstance(v, Obj):
        from .values import U

        return Obj(z3.Const(c.fresh_name("h_" + n), U))
    if isinstance(v, SymU):
        from .values import U

        return SymU(z3.Const(c.fresh_name("h_" + n), U))
    if isinstance(v, SArr):
        shape = [c.int("h_dim") if q in free else s for q, s in enumerate(v._shape)]
        for q in free:
            c.assume(shape[q] >= 0)
        return A.fresh_array("h_" + n, tuple(shape), v.kind)
    if isinstance(v, ArrList):
        return ArrList.fresh("h_" + n, c.int("h_n"), v.nested)
    raise Unsupported(f"havoc of {type(v).__name__}")


def _havoc(v):
    c = ctx()
    if isinstance(v, SArr):
        f = c.func("hv", *([z3.IntSort()] * v.ndim + [A._SORT[v.kind]()]))
        v._store_all(lambda *ix: f(*ix))
    elif isinstance(v, SymMap):
        v.havoc()
    elif isinstance(v, ArrList):
        v.havoc(keep_n=v.nested)
    elif isinstance(v, ScalarSeq):
        srt = v.fn(I0).sort()
        f = c.func("hv", z3.IntSort(), srt)
        v.n = c.int("hv_n")
        c.assume(v.n >= 0)
        v.fn = lambda i: f(i)
        v.item_fn = lambda i: wrap(f(i))
        v.version += 1
    else:
        raise Unsupported(f"havoc of {type(v).__name__}")
