"""Feature views: the columns of each view, and the view built from them."""
from contracts.lib import *

VS, VP = "modssc.views.services.service", "modssc.views.plan"
TRUSTED = ["a draw without replacement is duplicate-free and from the given values (numpy)",
           "generate_views is executed on plans of two and three arbitrary views (the loop body is the same for every view)"]
W = World(inert=("modssc.preprocess",), stubs={f"{VS}:_stable_u32": lambda t: NAMEHASH[t]})
NAMEHASH = {"a": 1234567, "b": 89, "c": 40}


def err():
    return W.fn(VS, "ViewsValidationError")


def well_formed(c, r, n):
    i, k, x = skolem("i"), skolem("k"), skolem("x")
    m = A.dz(r._shape[0])
    if r.srt:
        c.assume(Implies(And(i >= 0, i <= k, k < m), r.at(i) <= r.at(k)))  # what np.sort and friends guarantee
    c.oblige("columns are sorted", Implies(And(i >= 0, i <= k, k < m), r.at(i) <= r.at(k)))
    c.oblige("columns are unique", r.cnt(x) <= 1)
    c.oblige("columns are in range", Implies(r.cnt(x) >= 1, And(x >= 0, x < n)))
    return x


def call(c, spec, n, seed=0, resolved=None, widths=None, name="b"):
    f = W.fn(VS, "_resolve_columns")
    return f(spec=spec, n_features=SymInt(n), seed=seed, view_name=name, resolved=resolved or {}, n_features_map=widths or {})


def spec_of(**kw):
    return W.fn(VP, "ColumnSelectSpec")(**kw)


def t_all(c):
    n = c.int("n")
    spec = None if c.choose(2, "no spec") else spec_of(mode="all")
    try:
        r = call(c, spec, n)
    except err():
        c.cover("refused")
        c.oblige("only an empty feature set is refused", n <= 0)
        return
    c.cover("returns")
    c.oblige("an empty feature set is refused", n >= 1)
    i = skolem("i")
    x = well_formed(c, r, n)
    c.oblige("every column is selected", And(A.dz(r._shape[0]) == n, r.cnt(x) == inrange(x, n)))


def t_indices(c):
    n, m = c.int("n"), c.int("m")
    c.assume(And(m >= 0, n >= 1))
    q = A.fresh_index_array("listed", n=m)
    seq = ScalarSeq(m, lambda i: q.elem(i))
    spec = spec_of(mode="indices", indices=seq)
    w = skolem("w")
    try:
        r = call(c, spec, n)
    except err():
        c.cover("refused")
        for a in c.ghost.get("from lists", []):
            A.same_counts(a, q)
        # an acceptable list: not empty, in range, without duplicates
        ok = c.bool("acceptable")
        A.forall(lambda x: Implies(And(ok, q.cntf(x) >= 1), And(x >= 0, x < n)))
        A.forall(lambda x: Implies(ok, q.cntf(x) <= 1))
        c.assume(Implies(ok, m >= 1))
        c.oblige("an acceptable list is not refused", Not(ok))
        return
    c.cover("returns")
    for a in c.ghost.get("from lists", []):
        A.same_counts(a, q)
    x = well_formed(c, r, n)
    c.oblige("the listed columns, and no other, are selected", (r.cnt(x) >= 1) == (q.cnt(x) >= 1))
    c.oblige("as many columns as listed", A.dz(r._shape[0]) == m)


def t_random(c):
    n, seed, off = c.int("n"), I("seed"), I("offset")
    c.assume(n >= 1)
    frac = R("fraction")
    ok = And(frac.t > 0, frac.t <= 1)
    spec = spec_of(mode="random", fraction=frac, seed_offset=off)
    name = ("a", "b")[c.choose(2, "name")]
    try:
        r = call(c, spec, n, seed=seed, name=name)
    except err():
        c.cover("refused")
        c.oblige("only a fraction outside (0, 1] is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("a fraction outside (0, 1] is refused", ok)
    well_formed(c, r, n)
    from pyvc.values import sround

    k = unwrap(sround(frac * SymReal(z3.ToReal(n))))
    m = A.dz(r._shape[0])
    c.oblige("the requested fraction, rounded, and at least one column", m == If(k < 1, 1, If(k > n, n, k)))
    rngs = c.ghost.get("rng_seeds", [])
    c.oblige("one generator is used", len(rngs) == 1)
    t = unwrap(rngs[0])
    c.oblige("its seed depends on nothing but seed, name and offset", {str(v) for v in consts(t)} <= {"seed", "offset"})
    c.oblige("the seed and the offset take part", {str(v) for v in consts(t)} == {"seed", "offset"})


def consts(t):
    out, todo = set(), [t]
    while todo:
        q = todo.pop()
        if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(q)
        todo.extend(q.children())
    return out


def t_complement(c):
    n, wd = c.int("n"), c.int("width_a")
    c.assume(And(n >= 1, wd >= 1))
    base = A.fresh_index_array("base", lo=0, hi=wd, distinct=True)
    known = c.choose(2, "resolved")
    spec = spec_of(mode="complement", complement_of="a")
    v = base.version
    try:
        r = call(c, spec, n, resolved={"a": base} if known else {"z": base}, widths={"a": SymInt(wd)} if known else {})
    except err():
        c.cover("refused")
        if known:
            x = skolem("x")
            # refused although the widths agree: then no column is left
            c.oblige("a complement is refused only for another width or when nothing is left", Or(wd != n, nothing_left(c, base, n)))
        return
    c.cover("returns")
    c.oblige("an unresolved reference or another width is refused", And(bool(known), wd == n))
    x = well_formed(c, r, n)
    c.oblige("exactly the columns the reference lacks", r.cnt(x) == If(And(x >= 0, x < n, base.cnt(x) == 0), 1, 0))
    c.oblige("not empty", A.dz(r._shape[0]) >= 1)
    c.oblige("the reference is not modified", base.version == v)


def nothing_left(c, base, n):
    b, w = c.bool("left"), c.int("leftcol")
    base.cnt(w)
    c.assume(Implies(b, And(w >= 0, w < n, base.cntf(w) == 0)))
    return Not(b)


class Frozen:
    """an input that must not be written"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __setattr__(self, k, v):
        raise AssertionError(f"input attribute {k} was written")


class FrozenDict(dict):
    def _no(self, *a, **k):
        raise AssertionError("input mapping was written")

    __setitem__ = __delitem__ = pop = popitem = clear = update = setdefault = _no


def t_generate(c):
    Wg = World(inert=("modssc.preprocess",))
    f = Wg.fn(VS, "generate_views")
    d = Wg.mods[VS].__dict__
    nv = 2 + c.choose(2, "views")
    as_dict, has_test, with_pre = [(0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 1, 1)][c.choose(4, "shape")]
    fit = None if c.choose(2, "default fit rows") else A.fresh_index_array("fit", lo=0)
    seed = I("seed")

    def split(tag, dd):
        n = c.int("n_" + tag)
        c.assume(And(n >= 1, dd >= 1))
        X = A.fresh_array("X_" + tag, (n, dd), "f")
        y = A.fresh_array("y_" + tag, (n,), "i")
        return Frozen(X=FrozenDict(x=X, edge_index="edges") if as_dict else X, y=y, edges=("edges", tag), masks=("masks", tag))

    def dataset(tag):
        widths = c.int("d_" + tag)
        tr = split(tag + "_train", widths)
        te = split(tag + "_test", widths) if has_test else None
        return Frozen(train=tr, test=te, meta=FrozenDict(dataset_fingerprint="fp", views=FrozenDict(old=1)))

    raw, pre = dataset("raw"), dataset("pre")
    raws = arrays_of(raw) + arrays_of(pre)
    versions = [a.version for a in raws]
    pcalls, rcalls = [], []

    def run_pre(ds, *, plan, seed, fit_indices, cache):
        pcalls.append((ds, plan, seed, fit_indices, cache))
        return ns(dataset=pre)

    def resolve(*, spec, n_features, seed, view_name, resolved, n_features_map):
        cols = A.fresh_index_array("cols_" + view_name, lo=0, hi=ti(n_features), distinct=True)
        rcalls.append((spec, n_features, seed, view_name, dict(resolved), dict(n_features_map), cols))
        return cols

    d["run_preprocess"], d["_resolve_columns"] = run_pre, resolve
    PS, VSPEC, CS = Wg.fn(VP, "ViewsPlan"), Wg.fn(VP, "ViewSpec"), Wg.fn(VP, "ColumnSelectSpec")
    d["asdict"] = lambda o: ("dict of", o)
    specs = [CS(mode="random", fraction=0.5), CS(mode="complement", complement_of="a"), None]
    plan = PS(views=tuple(VSPEC(name=q, columns=specs[z], preprocess="plan " + q if with_pre and z != 1 else None) for z, q in enumerate("abc"[:nv])))
    r = f(raw, plan=plan, seed=seed, cache=True, fit_indices=fit)
    c.cover("returns")
    c.oblige("one view per declared view, in order", list(r.views) == list("abc"[:nv]) == list(r.columns))
    c.oblige("nothing was written into the input", [a.version for a in raws] == versions)
    i, j = c.int("i"), skolem("j")
    for z, q in enumerate("abc"[:nv]):
        src = pre if with_pre and z != 1 else raw
        spec, nf, sd, vn, res, wid, cols = rcalls[z]
        view = r.views[q]
        c.oblige("the columns are resolved for this view's own request", spec is plan.views[z].columns and vn == q and sd is not None)
        c.oblige("with the caller's seed", unwrap(sd) == seed.t)
        X0 = feats(src.train)
        c.oblige("for the width of its own features", ti(nf) == A.dz(X0._shape[1]))
        c.oblige("the views resolved before are known", list(res) == list("abc"[:z]) == list(wid) and all(res[p] is rcalls[e][-1] for e, p in enumerate("abc"[:z]))
                 and all(wid[p] is not None for p in wid))
        for e, p in enumerate("abc"[:z]):
            c.oblige("with their widths", ti(wid[p]) == ti(rcalls[e][1]))
        c.oblige("the declared columns are the ones used", r.columns[q] is cols)
        for part in ("train", "test"):
            s, v = getattr(src, part), getattr(view, part)
            if s is None:
                c.oblige("no test set appears", v is None)
                continue
            X, Xv = feats(s), feats(v)
            c.oblige("labels, edges and masks are untouched", v.y is s.y and v.edges is s.edges and v.masks is s.masks)
            if as_dict:
                c.oblige("the other entries of the features are kept", list(v.X) == list(s.X) and v.X["edge_index"] == "edges" and v.X is not s.X)
            n0 = A.dz(X._shape[0])
            c.oblige("as many rows as before, as many columns as selected", And(A.dz(Xv._shape[0]) == n0, A.dz(Xv._shape[1]) == cols.sz))
            lim = A.dz(X._shape[1])
            c.oblige("column j of the view is the j-th selected column", Implies(And(i >= 0, i < n0, j >= 0, j < cols.sz), Xv.at(i, j) == X.at(i, cols.at(j))))
    exp = [plan.views[z].preprocess for z in range(nv) if plan.views[z].preprocess is not None]
    c.oblige("each view is preprocessed with its own plan, from the input dataset", [p[1] for p in pcalls] == exp and all(p[0] is raw for p in pcalls))
    for p in pcalls:
        c.oblige("preprocessing gets the caller's seed", unwrap(p[2]) == seed.t)
        if fit is not None:
            c.oblige("preprocessing gets the caller's fit rows", p[3] is fit)
        else:
            x = skolem("x")
            c.oblige("preprocessing is fitted on every training row by default", p[3].cnt(x) == inrange(x, A.dz(raw.train.y._shape[0])))


def feats(s):
    return s.X["x"] if isinstance(s.X, dict) else s.X


def arrays_of(ds):
    return [a for s in (ds.train, ds.test) if s is not None for a in (feats(s), s.y)]


def t_plan(c):
    """a complement may only refer to a view declared before it; names are unique"""
    PS, VSPEC, CS = (W.fn(VP, q) for q in ("ViewsPlan", "ViewSpec", "ColumnSelectSpec"))
    names = [("a", "b"), ("a", "a"), ("a", "b", "c"), ("a",)][c.choose(4, "names")]
    target = ("a", "b", "c", "zz")[c.choose(4, "reference")]
    at = c.choose(len(names), "position")
    plan = PS(views=tuple(VSPEC(name=q, columns=CS(mode="complement", complement_of=target) if z == at else None) for z, q in enumerate(names)))
    good = len(names) >= 2 and len(set(names)) == len(names) and target in names[:at]
    try:
        plan.validate()
    except err():
        c.cover("refused")
        c.oblige("a valid plan is not refused", not good)
        return
    c.cover("accepted")
    c.oblige("an invalid plan is refused", good)


F = f"{VS}._resolve_columns"
TASKS = [
    Task("views._resolve_columns [all]", t_all, [F]),
    Task("views._resolve_columns [indices]", t_indices, [F, f"{VP}.ColumnSelectSpec.validate"]),
    Task("views._resolve_columns [random]", t_random, [F, f"{VP}.ColumnSelectSpec.validate"]),
    Task("views._resolve_columns [complement]", t_complement, [F, f"{VP}.ColumnSelectSpec.validate"]),
    Task("views.generate_views", t_generate, [f"{VS}.generate_views"], ["views._resolve_columns"]),
    Task("plan.ViewsPlan.validate", t_plan, [f"{VP}.ViewsPlan.validate", f"{VP}.ViewSpec.validate"]),
]
NOT_DISCHARGED = []
