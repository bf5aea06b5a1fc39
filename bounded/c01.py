"""Run-time contract of sample(): partition of the data for generated datasets, plans and seeds."""
from dataclasses import replace

from bounded.samp import *

RULE = ("datasets (0-200 rows, graph or not, official test or masks or neither, 9 label types, 5 class profiles) x hold-out and "
        "k-fold plans x policies x seeds; distinct by the generated dataset and plan")
EXPLANATION = ("Splitters and the sampling service are verified for all inputs against multiset contracts; exact hold-out sizes of "
               "the stratified splitter and k-fold families are additionally checked on generated inputs.")


def parts(res, ds):
    if res.is_graph():
        return {k: np.flatnonzero(res.masks[k]) for k in ("train", "val", "test")}
    return {k: np.asarray(res.indices[k]) for k in ("train", "val", "test")}


def check(g, ds, plan, res):
    n = len(ds.train.y)
    p = parts(res, ds)
    for k, a in p.items():
        g.require(a.ndim == 1 and a.dtype.kind in "iu", f"{k} is not a 1-D integer index array")
        g.require(len(set(a.tolist())) == len(a), f"{k} has duplicate indices", out={q: w.tolist() for q, w in p.items()})
    out = {q: w.tolist() for q, w in p.items()}
    if is_graph(ds) and masks_used(ds, plan):
        for k in p:
            g.require(np.array_equal(res.masks[k], ds.train.masks[k]), f"official {k} mask was changed", out=out)
        return p
    if not is_graph(ds) and official_test_used(ds, plan):
        g.require(sorted(out["test"]) == list(range(len(ds.test.y))), "official test set is not returned whole", out=out)
        g.require(res.refs["test"] == "test", "official test indices do not refer to the test data")
        g.require(sorted(out["train"] + out["val"]) == list(range(n)), "train and val do not partition the training data", out=out)
        if isinstance(plan.split, HoldoutSplitSpec):
            g.require(near(len(out["val"]), plan.split.val_fraction, n), "validation size is not the requested fraction", out=out)
        return p
    g.require(sorted(out["train"] + out["val"] + out["test"]) == list(range(n)),
              "train, val and test do not cover every sample exactly once", out=out)
    if not is_graph(ds):
        g.require(res.refs["test"] == "train" and res.refs["train"] == "train" and res.refs["val"] == "train", "wrong index base")
    if isinstance(plan.split, HoldoutSplitSpec):
        g.require(near(len(out["test"]), plan.split.test_fraction, n), "test size is not the requested fraction", out=out)
        rest = n - len(out["test"])
    else:
        rest = n - len(out["test"])
    if isinstance(plan.split, HoldoutSplitSpec) or plan.split.val_fraction > 0:
        g.require(near(len(out["val"]), plan.split.val_fraction, rest), "validation size is not the requested fraction", out=out)
    else:
        g.require(len(out["val"]) == 0, "validation samples although none were requested", out=out)
    return p


def s_partition(g):
    ds = gen_dataset(g)
    plan = gen_plan(g, imb=False)
    seed = g.int(0, 10**6)
    g.note(seed=seed)
    res, _ = sample(ds, plan=plan, seed=seed)
    check(g, ds, plan, res)


def s_kfold_family(g):
    n = g.int(1, 80)
    ds = gen_dataset(g, n=n)
    k = g.int(2, 8)
    base = KFoldSplitSpec(k=k, fold=0, stratify=g.bool(), shuffle=g.bool(), val_fraction=g.pick([0.0, 0.2]))
    plan = SamplingPlan(split=base, labeling=gen_labeling(g), policy=gen_policy(g))
    g.note(plan=plan.as_dict())
    seed = g.int(0, 999)
    g.note(seed=seed)
    if is_graph(ds) and masks_used(ds, plan):
        raise __import__("vf.gen").gen.Skip()
    folds = []
    for f in range(k):
        pf = replace(plan, split=replace(base, fold=f))
        res, _ = sample(ds, plan=pf, seed=seed)
        p = check(g, ds, pf, res)
        held = p["val"] if (not is_graph(ds) and official_test_used(ds, plan)) else p["test"]
        folds.append(held.tolist())
    g.require(sorted(sum(folds, [])) == list(range(n)), "the folds of a k-fold plan do not partition the data", out=folds)
    sizes = [len(f) for f in folds]
    if not base.stratify:
        g.require(max(sizes) - min(sizes) <= 1, "plain folds are not of equal size up to one", out=sizes)
    else:
        y = np.asarray(ds.train.y)
        for c in np.unique(y):
            per = [int((y[f] == c).sum()) for f in folds]
            g.require(max(per) - min(per) <= 1, "a class is not spread evenly over the stratified folds", out=per)


def s_refuse(g):
    ds = gen_dataset(g, graph=False, n=g.int(2, 30))
    k, f = g.pick([(1, 0), (0, 0), (3, 3), (3, -1), (5, 9), (-2, 0)])
    plan = SamplingPlan(split=KFoldSplitSpec(k=k, fold=f, stratify=g.bool()))
    g.note(plan=plan.as_dict())
    g.raises(lambda: sample(ds, plan=plan, seed=1), (ValueError,), "a k-fold plan without that fold is accepted")


SCENARIOS = [("partition", s_partition, 9000, 3), ("kfold-family", s_kfold_family, 1500, 2), ("refuse", s_refuse, 30)]
