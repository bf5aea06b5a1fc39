"""Filtering, limiting and slicing: which sample each returned row and label comes from.

Column 0 of the feature matrix carries the row's own number and everything else is arbitrary; the code only selects rows, so the
number in a returned row names the sample that row came from."""
from contracts.lib import *


CM = "modssc.data_loader.providers.common"
SL = "bench.orchestrators.slicing"
TRUSTED = ["a shuffle is a permutation and a seeded generator is a function of its seed (numpy)",
           "torch tensors, sparse matrices and graph mappings take the bounded route (numpy arrays, lists and mappings of them are proved)"]
W = World(stubs={"modssc.data_augmentation.utils:is_torch_tensor": lambda x: False})


def tagged(c, n):
    d = c.int("d")
    c.assume(d >= 1)
    f = c.func("feature", z3.IntSort(), z3.IntSort(), z3.IntSort())
    return A.SArr((n, d), "i", lambda i, j: If(j == 0, i, f(i, j))), d


def data(c):
    c.ghost["selection order"] = True
    n = c.int("n")
    c.assume(n >= 0)
    X, d = tagged(c, n)
    y = A.fresh_array("y", (n,), ("i", "U")[c.choose(2, "label type")])
    return X, y, n, d


def aligned(c, X, y, n, d, Xo, yo):
    """each returned row is, with its label, one original sample, and no sample comes twice"""
    i, k, j = skolem("i"), skolem("k"), c.int("j")
    m = A.dz(yo._shape[0])
    c.oblige("as many rows as labels", And(A.dz(Xo._shape[0]) == m, A.dz(Xo._shape[1]) == d))
    c.assume(And(i >= 0, i < m, j >= 0, j < d, k >= 0, k < m))
    r, r2 = Xo.at(i, z3.IntVal(0)), Xo.at(k, z3.IntVal(0))
    lab = yo.at(i)
    c.oblige("a returned row is an original row", And(r >= 0, r < n, Xo.at(i, j) == X.at(r, j)))
    c.oblige("its label is that row's label", lab == y.at(r))
    c.oblige("no sample comes twice", Implies(i != k, r != r2))
    return i, k, r, r2, m


def t_filter(c):
    f = W.fn(CM, "apply_class_filter")
    X, y, n, d = data(c)
    v = (X.version, y.version)
    if c.choose(2, "no filter"):
        Xo, yo = f(X, y, class_filter=None)
        c.cover("all")
        c.oblige("without a filter everything is returned", Xo is X and yo is y)
        return
    m = c.int("m")
    c.assume(m >= 0)
    if c.choose(2, "listed"):
        q = c.choose(3, "values")
        vals = [I("v") if y.kind == "i" else wrap(z3.Const(f"v{z}", SymU(z3.Const("q", y.at(z3.IntVal(0)).sort())).t.sort())) for z in range(q)]
        cf, wanted = vals, lambda t: Or(*[t == unwrap(z) for z in vals]) if vals else z3.BoolVal(False)
    else:
        F = A.fresh_array("wanted", (m,), y.kind)
        if y.kind == "i":
            F.cnt(z3.IntVal(-1))
        cf, wanted = F, None
    Xo, yo = f(X, y, class_filter=cf)
    c.cover("filtered")
    i, k, r, r2, m2 = aligned(c, X, y, n, d, Xo, yo)
    c.oblige("the original order is kept", Implies(i < k, r < r2))
    c.oblige("the input is not written", (X.version, y.version) == v)
    x = skolem("x")
    c.assume(And(x >= 0, x < n))
    if wanted is not None:
        c.oblige("only requested classes remain", wanted(yo.at(i)))
        # a wanted sample is among the returned ones: its rank is the position where it is found
        c.oblige("every sample of a requested class is kept", Implies(wanted(y.at(x)), found(c, Xo, x, m2)))
    else:
        z = skolem("z")
        c.assume(And(z >= 0, z < cf.sz))
        if y.kind == "i":
            cf.cnt(cf.at(z))
            c.assume(cf.cntf(cf.at(z)) >= 1)
            pos = cf.posf
            t = yo.at(i)
            cf.cnt(t)
            c.oblige("only requested classes remain", And(pos(t) >= 0, pos(t) < cf.sz, cf.at(pos(t)) == t))
        c.oblige("every sample of a requested class is kept", Implies(y.at(x) == cf.at(z), found(c, Xo, x, m2)))


def found(c, Xo, x, m):
    """some returned row carries the number x: the witness is any position the code's selection gives it"""
    b = c.bool("missing")
    f = Xo.snapshot()
    A.forall(lambda p: Implies(And(b, p >= 0, p < m), f(p, z3.IntVal(0)) != x))
    for g in ranks(c):
        A.add_probe(g(x))
    return Not(b)


def ranks(c):
    return c.ghost.get("selranks", [])


def t_limit(c):
    f = W.fn(CM, "limit_samples")
    X, y, n, d = data(c)
    v = (X.version, y.version)
    seed = I("seed") if c.choose(2, "seeded") else None
    if c.choose(2, "no limit"):
        Xo, yo = f(X, y, max_samples=None, seed=seed)
        c.cover("all")
        c.oblige("without a limit everything is returned in order", Xo is X and yo is y)
        return
    lim = I("limit")
    Xo, yo = f(X, y, max_samples=lim, seed=seed)
    c.cover("limited")
    i, k, r, r2, m = aligned(c, X, y, n, d, Xo, yo)
    L = lim.t
    c.oblige("exactly as many samples as the limit and the data allow", m == If(L <= 0, 0, If(L < n, L, n)))
    c.oblige("the input is not written", (X.version, y.version) == v)
    rngs = c.ghost.get("rng_seeds", [])
    if seed is None:
        c.oblige("without a seed the first samples are returned in order", r == i)
        c.oblige("without a seed nothing is drawn", not rngs)
    else:
        c.oblige("the selection is drawn from the seed alone", len(rngs) <= 1 and all(z3.is_true(z3.simplify(ti(s) == seed.t)) for s in rngs))


def t_prefix(c):
    """the same seed selects the same samples: a smaller limit returns the first of a larger one"""
    Wp = World(stubs={})
    f = Wp.fn(CM, "limit_samples")
    X, y, n, d = data(c)
    seed = I("seed") if c.choose(2, "seeded") else None
    share_generators(Wp)
    a, b = I("limit"), I("limit2")
    c.assume(And(a.t >= 1, b.t >= a.t))
    Xa, ya = f(X, y, max_samples=a, seed=seed)
    Xb, yb = f(X, y, max_samples=b, seed=seed)
    c.cover("returns")
    i, j = skolem("i"), c.int("j")
    c.assume(And(i >= 0, i < A.dz(ya._shape[0]), j >= 0, j < d))
    c.oblige("a larger limit keeps the smaller selection as its beginning", And(A.dz(yb._shape[0]) >= A.dz(ya._shape[0]), Xa.at(i, j) == Xb.at(i, j), ya.at(i) == yb.at(i)))


def share_generators(Wp):
    """two generators with provably equal seeds give the same stream"""
    import types as T

    from pyvc.npshim import NP, SRng

    made = []

    class Shared(SRng):
        def __init__(self, seed):
            super().__init__("rng")
            self.seed, self.log = seed, {}

        def shuffle(self, x):
            self.draws += 1
            key = (self.seed.t.get_id() if isinstance(self.seed, Sym) else self.seed, self.draws, str(x._shape))
            c = ctx()
            memo = c.ghost.setdefault("shared draws", {})
            if key not in memo:
                memo[key] = (self.permutation(x), self.seed)
            p = memo[key][0]
            cf = p.cntf
            x._store_all(p._fn)
            x.cntf = cf

    np2 = NP()
    np2.random = T.SimpleNamespace(default_rng=lambda seed=None: made.append(seed) or Shared(seed), Generator=SRng)
    Wp.mods[CM].__dict__["np"] = np2


def t_compose(c):
    Wc = World()
    f, g = Wc.fn(CM, "apply_limits"), Wc.fn(CM, "apply_limits_to_split")
    d = Wc.mods[CM].__dict__
    calls = []

    def filt(X, y, *, class_filter):
        calls.append(("filter", X, y, class_filter))
        return "Xf", "yf"

    def lim(X, y, *, max_samples, seed):
        calls.append(("limit", X, y, max_samples, seed))
        return "Xl", "yl"

    d["apply_class_filter"], d["limit_samples"] = filt, lim
    n = c.int("n")
    X, y = A.fresh_array("X", (n, 2), "f"), A.fresh_array("y", (n,), "i")
    k = c.choose(3, "entry")
    args = dict(class_filter="classes", max_samples="limit", seed="seed")
    if k == 0:
        r = f(X, y, **args)
        c.oblige("the limited data are returned", r == ("Xl", "yl"))
    elif k == 1:
        r = g(ns(X=X, y=y), **args)
        c.oblige("a split holds the limited data", (r.X, r.y) == ("Xl", "yl"))
    else:
        c.oblige("a missing split stays missing", g(None, **args) is None and not calls)
        c.cover("missing")
        return
    c.cover("returns")
    c.oblige("the filter comes first, then the limit, each with its own options", calls == [("filter", X, y, "classes"), ("limit", "Xf", "yf", "limit", "seed")])


def t_list(c):
    """lists are indexed like arrays"""
    f = W.fn(SL, "select_rows")
    n = c.int("n")
    c.assume(n >= 0)
    q = c.func("item", z3.IntSort(), z3.IntSort())
    X = ScalarSeq(n, lambda i: q(i))
    idx = A.fresh_index_array("idx", lo=0, hi=n)
    got = f(X, idx, context="t")
    c.cover("returns")
    i = skolem("i")
    if isinstance(got, list):
        c.oblige("nothing is selected by no index", And(idx.sz == 0, len(got) == 0))
        return
    c.oblige("one entry per index", got.n == idx.sz)
    c.assume(And(i >= 0, i < idx.sz))
    c.oblige("entry i is the entry at the i-th index", unwrap(got.item_fn(i)) == q(idx.at(i)))


def t_mapping(c):
    """a mapping of arrays: rows are taken from every node-sized entry, other entries are kept"""
    f = W.fn(SL, "select_rows")
    n, m, d = c.int("n"), c.int("m"), c.int("d")
    c.assume(And(n >= 1, m >= 1, d >= 1))
    X = A.fresh_array("x", (n, d), "f")
    small = A.fresh_array("small", (m,), "f")
    idx = A.fresh_index_array("idx", lo=0, hi=n)
    c.assume(idx.sz >= 1)
    w = c.int("w")
    A.add_probe(w)
    c.assume(idx.cnt(w) >= 1)
    c.assume(w >= m)  # the other entry is too short to be indexed by the selection
    src = {"x": X, "small": small, "name": "k", "num": 5}
    got = f(src, idx, context="t")
    c.cover("returns")
    i, j = skolem("i"), c.int("j")
    c.assume(And(i >= 0, i < idx.sz, j >= 0, j < d))
    c.oblige("no entry is lost or added", list(got) == list(src) and got["name"] == "k" and got["num"] == 5)
    c.oblige("node rows are the selected rows in order", And(A.dz(got["x"]._shape[0]) == idx.sz, got["x"].at(i, j) == X.at(idx.at(i), j)))
    c.oblige("an entry that is not per node is kept", got["small"] is small)
    c.oblige("the input is not modified", src["x"] is X and src["small"] is small and X.version == 0 == small.version)


TASKS = [
    Task("common.apply_class_filter", t_filter, [f"{CM}.apply_class_filter"]),
    Task("common.limit_samples", t_limit, [f"{CM}.limit_samples"]),
    Task("common.limit_samples [same seed]", t_prefix, [f"{CM}.limit_samples"]),
    Task("common.apply_limits, apply_limits_to_split", t_compose, [f"{CM}.apply_limits", f"{CM}.apply_limits_to_split"]),
    Task("slicing.select_rows [lists]", t_list, [f"{SL}.select_rows", f"{SL}._slice_sequence", f"{SL}._as_idx"]),
    Task("slicing.select_rows [mappings]", t_mapping, [f"{SL}.select_rows", f"{SL}._should_slice_by_dim0", f"{SL}._infer_num_nodes"]),
]
from contracts import c24 as _c24  # noqa: E402

TASKS += [t for t in _c24.TASKS if t.name.startswith("slicing.select_rows")]
NOT_DISCHARGED = []
