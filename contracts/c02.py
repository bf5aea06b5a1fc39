"""Contracts of labelling and imbalance for every label vector, training set and specification.

cnt(a, x) counts x in the index array a.  The training set handed to select_labeled is duplicate-free (as every
caller provides it: C01)."""
from contracts import c01
from contracts.lib import *

LAB = "modssc.sampling.labeling"
IMB = "modssc.sampling.imbalance"
W = World()


def setting(c):
    y = labels()
    idx = A.fresh_index_array("train", lo=0, hi=y.sz, distinct=True)
    return y, idx, skolem()


def sub_of(c, r, idx, x, what):
    c.oblige(f"{what}: duplicate-free subset of the training set",
             And(r.cnt(x) <= 1, Implies(r.cnt(x) >= 1, idx.cnt(x) >= 1)))


def mode_task(mode, strategy):
    def t(c):
        f = W.fn(LAB, "select_labeled")
        P = W.module("modssc.sampling.plan")
        y, idx, x = setting(c)
        v = R("value") if mode == "fraction" else I("value")
        spec = P.LabelingSpec(mode=mode, value=v, min_per_class=I("min_per_class"), strategy=strategy)
        try:
            r = f(train_idx=idx, y=y, spec=spec, rng=SRng())
        except W.fn("modssc.sampling.errors", "SamplingValidationError"):
            return  # the final guard: nothing is returned
        except ValueError:
            c.oblige("only an invalid fraction is refused", Or(v.t <= 0, v.t > 1) if mode == "fraction" else z3.BoolVal(False))
            return
        c.cover("returns")
        sub_of(c, r, idx, x, "labelled")
    return t


def t_fixed(c):
    f = W.fn(LAB, "select_labeled")
    P = W.module("modssc.sampling.plan")
    E = W.fn("modssc.sampling.errors", "SamplingValidationError")
    y, idx, x = setting(c)
    fixed = A.fresh_index_array("fixed")
    fixed.cnt(z3.IntVal(0))
    spec = P.LabelingSpec(fixed_indices=fixed)
    try:
        r = f(train_idx=idx, y=y, spec=spec, rng=SRng())
    except E:
        w = skolem("w")
        bad = c.bool("bad")
        # refused: some index is outside train or listed twice
        ok = c.bool("all_ok")
        fc, ic = fixed.cntf, idx.cntf
        A.forall(lambda q: Implies(ok, And(fc(q) <= 1, Implies(fc(q) >= 1, ic(q) >= 1))))
        c.oblige("valid fixed indices are not refused", Not(ok))
        return
    c.cover("returns")
    if c.branch(idx.sz == 0):
        return
    c.oblige("fixed labelled indices are returned exactly", r.cnt(x) == fixed.cnt(x))
    sub_of(c, r, idx, x, "fixed")


def t_imb(kind):
    def t(c):
        f = W.fn(IMB, "apply_imbalance")
        P = W.module("modssc.sampling.plan")
        y, idx, x = setting(c)
        spec = P.ImbalanceSpec(kind=kind, max_per_class=I("cap"), alpha=R("alpha"), min_per_class=I("min_per_class"))
        if kind == "long_tail":
            c.assume(spec.min_per_class.t >= 0)
        try:
            r = f(idx=idx, y=y, spec=spec, rng=SRng())
        except ValueError:
            c.oblige("only invalid parameters are refused",
                     {"none": z3.BoolVal(False), "subsample_max_per_class": spec.max_per_class.t < 1,
                      "long_tail": Or(spec.alpha.t <= 0, spec.alpha.t >= 1)}[kind])
            return
        c.cover("returns")
        sub_of(c, r, idx, x, "imbalance")
        if kind == "none":
            c.oblige("no imbalance keeps every sample", r.cnt(x) == idx.cnt(x))
    return t


# ---- service -----------------------------------------------------------------
def t_inductive(c):
    f = c01.WS.fn(c01.SVC, "_sample_inductive")
    y = labels()
    plan = c01.sym_plan(c, imb=("none", "long_tail"))
    has_test = c.choose(2, "official test")
    yt = labels("yt")
    ds = ns(train=ns(y=y), test=ns(y=yt) if has_test else None, meta={})
    x = skolem()
    r = f(ds, plan=plan, seed_split=1, seed_label=2, seed_imb=3, dataset_fingerprint="d", split_fingerprint="s", created_at="t", plan_dict={})
    c.cover("returns")
    ix = r.indices
    tr, la, un = ix["train"].cnt(x), ix["train_labeled"].cnt(x), ix["train_unlabeled"].cnt(x)
    c.oblige("labelled and unlabelled split the training set", la + un == tr)
    c.oblige("labelled is duplicate-free", la <= 1)
    c.oblige("all refer to the training data", all(r.refs[k] == "train" for k in ("train", "train_labeled", "train_unlabeled")))
    if plan.imbalance.apply_to == "labeled" or plan.imbalance.kind == "none":
        c.oblige("imbalance on the labelled set leaves the training set alone", tr == c.ghost["parts"][0].cnt(x))


def t_graph(c):
    f = c01.WS.fn(c01.SVC, "_sample_graph")
    y = labels()
    plan = c01.sym_plan(c)
    n = y.sz
    off = c.choose(2, "official masks")
    masks = {k: A.fresh_array("m_" + k, (n,), "b") for k in ("train", "val", "test")} if off else None
    ds = ns(train=ns(y=y, masks=masks), test=None, meta={})
    x = c.int("x")
    c.assume(And(x >= 0, x < n))
    A.add_probe(x)
    r = f(ds, plan=plan, seed_split=1, seed_label=2, seed_imb=3, dataset_fingerprint="d", split_fingerprint="s", created_at="t", plan_dict={})
    c.cover("returns")
    m = r.masks
    t, l, u = (m[k].elem(x) for k in ("train", "labeled", "unlabeled"))
    c.oblige("labelled nodes are training nodes", Implies(l, t))
    c.oblige("unlabelled nodes are the other training nodes", u == And(t, Not(l)))


TASKS = [Task(f"labeling.select_labeled [{m}, {s}]", mode_task(m, s), ["labeling.select_labeled", "common.class_counts"], wall=420)
         for m, s in (("fraction", "proportional"), ("fraction", "balanced"), ("count", "proportional"), ("count", "balanced"), ("per_class", "proportional"))]
TASKS += [Task("labeling.select_labeled [fixed]", t_fixed, ["labeling.select_labeled"])]
TASKS += [Task(f"imbalance.apply_imbalance [{k}]", t_imb(k), ["imbalance.apply_imbalance"]) for k in ("none", "subsample_max_per_class", "long_tail")]
TASKS += [
    Task("service._sample_inductive [labelled/unlabelled]", t_inductive, ["service._sample_inductive"],
         ["splitters.make_holdout_split", "splitters.make_kfold_split", "imbalance.apply_imbalance", "labeling.select_labeled"]),
    Task("service._sample_graph [labelled/unlabelled]", t_graph, ["service._sample_graph", "service._idx_to_mask"],
         ["splitters.make_holdout_split", "splitters.make_kfold_split", "imbalance.apply_imbalance", "labeling.select_labeled"]),
]
