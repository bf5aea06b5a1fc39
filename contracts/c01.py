"""Multiset contracts of the splitters: cnt(a, x) is the number of occurrences of x in a.

The splitters are verified for every label vector, number of samples, fraction, k, fold and every
outcome of the random generator; sample() is verified against the contracts of the splitters,
the labelling and the imbalance functions (each verified under C01 or C02)."""
from contracts.lib import *


def lab(y):
    return y


W = World()
SPL = "modssc.sampling.splitters"


def t_random_split(c):
    f = W.fn(SPL, "random_split")
    idx = A.fresh_index_array("idx")
    h = I("n_holdout")
    x = skolem()
    keep, hold = f(idx, n_holdout=h, rng=SRng())
    c.cover("returns")
    c.oblige("keep and hold-out together are the input multiset", keep.cnt(x) + hold.cnt(x) == idx.cnt(x))
    c.oblige("hold-out has the requested size", hold.sz == If(h.t <= 0, 0, If(h.t >= idx.sz, idx.sz, h.t)))


def t_strat(c):
    f = W.fn(SPL, "stratified_holdout")
    y = labels()
    idx = A.fresh_index_array("idx", lo=0, hi=y.sz)
    h = I("n_holdout")
    x = skolem()
    keep, hold = f(idx, y, n_holdout=h, rng=SRng())
    c.cover("returns")
    c.oblige("keep and hold-out together are the input multiset", keep.cnt(x) + hold.cnt(x) == idx.cnt(x))


def t_plain_kfold(c):
    f = W.fn(SPL, "plain_kfold")
    idx = A.fresh_index_array("idx")
    k = I("k")
    c.assume(k.t >= 1)
    x = skolem()
    folds = f(idx, k=k, rng=SRng(), shuffle=B("shuffle"))
    c.cover("returns")
    c.oblige("k folds", folds.n == k.t)
    c.oblige("the folds together are the input multiset", folds.tot(x) == idx.cnt(x))


def t_strat_kfold(c):
    f = W.fn(SPL, "stratified_kfold")
    y = labels()
    idx = A.fresh_index_array("idx", lo=0, hi=y.sz)
    k = I("k")
    c.assume(k.t >= 1)
    x = skolem()
    folds = f(idx, y, k=k, rng=SRng(), shuffle=B("shuffle"))
    c.cover("returns")
    c.oblige("k folds", folds.n == k.t)
    c.oblige("the folds together are the input multiset", folds.tot(x) == idx.cnt(x))


def _cover(c, r, n, x):
    c.oblige("every sample is in exactly one of train, val, test",
             r["train"].cnt(x) + r["val"].cnt(x) + r["test"].cnt(x) == inrange(x, n))


def k_two(base, idx, hold_size=None):
    """contract of random_split / stratified_holdout"""
    c = ctx()
    keep, hold = A.fresh_index_array(base + "_keep"), A.fresh_index_array(base + "_hold")
    keep.cnt(z3.IntVal(0)), hold.cnt(z3.IntVal(0)), idx.cnt(z3.IntVal(0))
    A.forall(lambda x: keep.cntf(x) + hold.cntf(x) == idx.cntf(x))
    c.assume(keep.sz + hold.sz == idx.sz)
    if hold_size is not None:
        c.assume(hold.sz == If(hold_size <= 0, 0, If(hold_size >= idx.sz, idx.sz, hold_size)))
    return keep, hold


def s_random(indices, *, n_holdout, rng):
    return k_two("rs", indices, ti(n_holdout))


def s_strat(indices, y, *, n_holdout, rng):
    x = ctx().int("pre_x")
    A.add_probe(x)
    ctx().oblige("stratified_holdout is called with indices of y",
                 Implies(indices.cnt(x) >= 1, And(x >= 0, x < y.sz)))
    return k_two("sh", indices)


WH = World(stubs={SPL + ":random_split": s_random, SPL + ":stratified_holdout": s_strat})


def sround_spec(v):
    from pyvc.values import sround
    return unwrap(sround(wrap(v)))


def t_holdout(c):
    f = WH.fn(SPL, "make_holdout_split")
    y = labels()
    st = B("stratify")
    tf, vf = R("test_fraction"), R("val_fraction")
    x = skolem()
    r = f(n_samples=SymInt(y.sz), y=y, test_fraction=tf, val_fraction=vf, stratify=st, rng=SRng())
    c.cover("returns")
    _cover(c, r, y.sz, x)
    n = y.sz
    if not c.branch(st.t):
        nt = sround_spec(unwrap(SymReal(tf.t) * SymReal(z3.ToReal(n))))
        c.oblige("test size is the rounded fraction", r["test"].sz == If(nt <= 0, 0, If(nt >= n, n, nt)))


def t_kfold(c):
    f = W.fn(SPL, "make_kfold_split")
    y = labels()
    n = SymInt(y.sz)
    k, fold, vf = I("k"), I("fold"), R("val_fraction")
    x = skolem()
    try:
        r = f(n_samples=n, y=y, k=k, fold=fold, stratify=B("stratify"), rng=SRng(), shuffle=B("shuffle"), val_fraction=vf)
    except ValueError:
        c.oblige("refused only for a bad k or fold", Or(k.t <= 1, fold.t < 0, fold.t >= k.t))
        return
    c.cover("returns")
    c.oblige("bad k or fold is refused", And(k.t >= 2, fold.t >= 0, fold.t < k.t))
    _cover(c, r, n.t, x)


# ---- the service: callees by contract ------------------------------------------
SVC = "modssc.sampling.services.service"


def s_holdout(*, n_samples, y, test_fraction, val_fraction, stratify, rng):
    c = ctx()
    n = ti(n_samples)
    c.oblige("split over all rows of y", n == y.sz)
    a, b, d = partition3(n)
    if isinstance(test_fraction, float) and test_fraction == 0.0:
        c.assume(d.sz == 0)
        A.forall(lambda x: d.cntf(x) == 0)
    c.ghost["parts"] = (a, b, d)
    return {"train": a, "val": b, "test": d}


def s_kfold(*, n_samples, y, k, fold, stratify, shuffle, val_fraction, rng):
    c = ctx()
    n = ti(n_samples)
    c.oblige("split over all rows of y", n == y.sz)
    a, b, d = partition3(n)
    if isinstance(val_fraction, float) and val_fraction == 0.0:
        c.assume(b.sz == 0)
        A.forall(lambda x: b.cntf(x) == 0)
    c.ghost["parts"] = (a, b, d)
    return {"train": a, "val": b, "test": d}


def s_imb(*, idx, y, spec, rng):
    """apply_imbalance: kind none keeps the multiset, other kinds keep a sub-multiset"""
    c = ctx()
    r = A.fresh_index_array("imb")
    r.cnt(z3.IntVal(0)), idx.cnt(z3.IntVal(0))
    none = spec.kind == "none"
    A.forall(lambda x: (r.cntf(x) == idx.cntf(x)) if none else And(r.cntf(x) <= idx.cntf(x), r.cntf(x) >= 0))
    c.assume(r.sz == idx.sz if none else r.sz <= idx.sz)
    return r


def s_sel(*, train_idx, y, spec, rng):
    c = ctx()
    r = A.fresh_index_array("lab")
    r.cnt(z3.IntVal(0)), train_idx.cnt(z3.IntVal(0))
    A.forall(lambda x: And(r.cntf(x) <= 1, Implies(r.cntf(x) >= 1, train_idx.cntf(x) >= 1)))
    return r


class Rec:
    """records what the service constructs; validation itself is C04"""

    def __init__(self, **kw):
        self.__dict__.update(kw)
        ctx().ghost["result"] = self

    def validate(self, **kw):
        self.validated = kw


WS = World(
    stubs={
        SPL + ":make_holdout_split": s_holdout, SPL + ":make_kfold_split": s_kfold,
        "modssc.sampling.imbalance:apply_imbalance": s_imb, "modssc.sampling.labeling:select_labeled": s_sel,
        "modssc.sampling.stats:build_inductive_stats": lambda **k: {}, "modssc.sampling.stats:build_graph_stats": lambda **k: {},
        "modssc.sampling.result:SamplingResult": Rec,
    },
    shims=pathshim(),
)


def sym_plan(c, imb=("none", "long_tail")):
    P = WS.module("modssc.sampling.plan")
    if c.choose(2, "split kind"):
        split = P.KFoldSplitSpec(k=I("k"), fold=I("fold"), stratify=B("stratify"), shuffle=B("shuffle"), val_fraction=R("val_fraction"))
    else:
        split = P.HoldoutSplitSpec(test_fraction=R("test_fraction"), val_fraction=R("val_fraction"), stratify=B("stratify"))
    kind = imb[c.choose(len(imb), "imbalance kind")]
    at = ("train", "labeled")[c.choose(2, "apply_to")]
    pol = P.SamplingPolicy(respect_official_test=B("respect"), use_official_graph_masks=B("use_masks"), allow_override_official=B("override"))
    return P.SamplingPlan(split=split, imbalance=P.ImbalanceSpec(kind=kind, apply_to=at), policy=pol)


def t_inductive(c):
    f = WS.fn(SVC, "_sample_inductive")
    y = labels()
    plan = sym_plan(c)
    has_test = c.choose(2, "official test")
    yt = labels("yt")
    ds = ns(train=ns(y=y), test=ns(y=yt) if has_test else None, meta={})
    x = skolem()
    r = f(ds, plan=plan, seed_split=1, seed_label=2, seed_imb=3, dataset_fingerprint="d", split_fingerprint="s", created_at="t", plan_dict={})
    c.cover("returns")
    ix, refs = r.indices, r.refs
    tr, va, te = ix["train"], ix["val"], ix["test"]
    none = plan.imbalance.kind == "none" or plan.imbalance.apply_to == "labeled"
    off = bool(has_test) and c.branch(And(plan.policy.respect_official_test.t, Not(plan.policy.allow_override_official.t)))
    c.oblige("train and val refer to the training data", refs["train"] == "train" and refs["val"] == "train")
    c.oblige("official test is used exactly when the policy says so", refs["test"] == ("test" if off else "train"))
    in_n = inrange(x, y.sz)
    if off:
        c.oblige("the official test set is returned whole", te.cnt(x) == inrange(x, yt.sz))
        s = tr.cnt(x) + va.cnt(x)
    else:
        s = tr.cnt(x) + va.cnt(x) + te.cnt(x)
    if none:
        c.oblige("train, val (and test) partition the training data", s == in_n)
    else:
        c.oblige("the sets stay disjoint and in range under imbalance", s <= in_n)
    # the result was validated against the right sizes
    v = getattr(r, "validated", None)
    c.oblige("the split is validated against the true sizes",
             v is not None and c.entails(ti(v["n_train"]) == y.sz) and (not has_test or c.entails(ti(v["n_test"]) == yt.sz)))


def t_graph(c):
    f = WS.fn(SVC, "_sample_graph")
    y = labels()
    plan = sym_plan(c)
    n = y.sz
    off = c.choose(2, "official masks")
    masks = None
    if off:
        masks = {k: A.fresh_array("m_" + k, (n,), "b") for k in ("train", "val", "test")}
    ds = ns(train=ns(y=y, masks=masks), test=None, meta={})
    x = c.int("x")
    c.assume(And(x >= 0, x < n))
    A.add_probe(x)
    r = f(ds, plan=plan, seed_split=1, seed_label=2, seed_imb=3, dataset_fingerprint="d", split_fingerprint="s", created_at="t", plan_dict={})
    c.cover("returns")
    m = r.masks
    used = bool(off) and c.branch(plan.policy.use_official_graph_masks.t)
    if used:
        for k in ("train", "val", "test"):
            c.oblige("official masks are returned unchanged", m[k].elem(x) == masks[k].elem(x))
    else:
        s = sum((If(m[k].elem(x), 1, 0) for k in ("train", "val", "test")), z3.IntVal(0))
        c.oblige("every node is in exactly one of train, val, test", s == 1)
    v = getattr(r, "validated", None)
    c.oblige("the split is validated against the number of nodes", v is not None and c.entails(ti(v["n_nodes"]) == n))


TASKS = [
    Task("splitters.random_split", t_random_split, ["splitters.random_split"]),
    Task("splitters.stratified_holdout", t_strat, ["splitters.stratified_holdout", "common.class_counts"]),
    Task("splitters.plain_kfold", t_plain_kfold, ["splitters.plain_kfold"]),
    Task("splitters.stratified_kfold", t_strat_kfold, ["splitters.stratified_kfold"]),
    Task("splitters.make_holdout_split", t_holdout, ["splitters.make_holdout_split"],
         ["splitters.random_split", "splitters.stratified_holdout"]),
    Task("splitters.make_kfold_split", t_kfold, ["splitters.make_kfold_split", "splitters.plain_kfold",
                                                 "splitters.stratified_kfold", "splitters.stratified_holdout", "splitters.random_split"]),
    Task("service._sample_inductive", t_inductive, ["service._sample_inductive"],
         ["splitters.make_holdout_split", "splitters.make_kfold_split", "imbalance.apply_imbalance", "labeling.select_labeled"]),
    Task("service._sample_graph", t_graph, ["service._sample_graph", "service._idx_to_mask"],
         ["splitters.make_holdout_split", "splitters.make_kfold_split", "imbalance.apply_imbalance", "labeling.select_labeled"]),
]
