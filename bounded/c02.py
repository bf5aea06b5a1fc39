"""Run-time contract of labelling and imbalance inside sample()."""
from bounded.samp import *
from modssc.sampling.imbalance import apply_imbalance
from modssc.sampling.labeling import select_labeled

RULE = "as C01, with labelling rules (fraction, count, per class, fixed) and imbalance rules; distinct by dataset and plan"
EXPLANATION = ("Subset, complement and no-duplicate contracts are verified for all inputs; the exact totals and per-class minima are "
               "checked against a closed formula on generated inputs.")


def expected_total(counts, n, spec):
    if spec.mode == "fraction":
        t = [int(np.floor(spec.value * n + 0.5)), int(np.ceil(spec.value * n - 0.5))]
    elif spec.mode == "count":
        t = [int(spec.value)] * 2
    else:
        t = [int(spec.value) * len(counts)] * 2
    m = max(0, spec.min_per_class)
    low = m * sum(1 for c in counts if c >= m)
    return [max(max(0, min(n, v)), low) for v in t]


def check_labeled(g, lab, train, y, spec):
    lab, train = np.asarray(lab), np.asarray(train)
    out = {"labeled": lab.tolist(), "train": train.tolist()}
    g.require(len(set(lab.tolist())) == len(lab), "labelled set has duplicates", out=out)
    g.require(set(lab.tolist()) <= set(train.tolist()), "labelled sample outside the training set", out=out)
    if spec.fixed_indices is not None:
        g.require(sorted(lab.tolist()) == sorted(int(i) for i in spec.fixed_indices) or len(train) == 0, "fixed labelled indices are not returned exactly", out=out)
        return
    classes = sorted(set(np.asarray(y)[train].tolist()))
    counts = [int((np.asarray(y)[train] == c).sum()) for c in classes]
    got = [int((np.asarray(y)[lab] == c).sum()) for c in classes]
    out["per_class"] = dict(zip(map(str, classes), zip(got, counts)))
    n = len(train)
    if n == 0:
        g.require(len(lab) == 0, "labels from an empty training set", out=out)
        return
    tot = expected_total(counts, n, spec)
    g.require(len(lab) in tot, f"number of labelled samples is {len(lab)}, requested {tot}", out=out)
    m = spec.min_per_class
    for a, c in zip(got, counts):
        if c >= m:
            g.require(a >= m, "a class with enough samples got less than the per-class minimum", out=out)
        if spec.mode == "per_class" and m <= spec.value:
            g.require(a >= min(spec.value, c), "a class got less than its per-class budget", out=out)
    if spec.mode == "per_class" and m <= spec.value and min(counts) >= spec.value:
        g.require(all(a == spec.value for a in got), "per-class budget not met exactly", out=out)
    if m <= 0 and spec.mode != "per_class" and spec.strategy == "balanced" and min(counts) >= -(-max(tot) // len(counts)):
        g.require(max(got) - min(got) <= 1, "balanced labelling is not balanced", out=out)
    if m <= 0 and spec.mode != "per_class" and spec.strategy == "proportional":
        for a, c in zip(got, counts):
            g.require(abs(a - c * len(lab) / n) < 1 + 1e-9, "proportional labelling is not proportional", out=out)


def check_imb(g, before, after, y, spec):
    before, after = np.asarray(before), np.asarray(after)
    out = {"before": before.tolist(), "after": after.tolist()}
    g.require(len(set(after.tolist())) == len(after) and set(after.tolist()) <= set(before.tolist()),
              "imbalance added or duplicated samples", out=out)
    y = np.asarray(y)
    cs = sorted(set(y[before].tolist()))
    cb = [int((y[before] == c).sum()) for c in cs]
    ca = [int((y[after] == c).sum()) for c in cs]
    out["per_class"] = (cb, ca)
    if spec.kind == "none":
        g.require(ca == cb, "no imbalance requested but samples were removed", out=out)
    elif spec.kind == "subsample_max_per_class":
        g.require(ca == [min(c, spec.max_per_class) for c in cb], "classes are not cut to exactly their cap", out=out)
    else:
        # sorted by frequency, class of rank r keeps min(count, max(round(max*alpha^r), min))
        order = sorted(range(len(cs)), key=lambda i: -cb[i])
        mx = max(cb) if cb else 0
        want = sorted(min(cb[i], max(int(round(mx * spec.alpha ** r)), spec.min_per_class)) for r, i in enumerate(order))
        g.require(sorted(ca) == want, f"long-tail sizes are {sorted(ca)}, expected {want}", out=out)


def s_sample(g):
    imb = g.bool(0.5)
    ds = gen_dataset(g)
    plan = gen_plan(g, imb=imb)
    seed = g.int(0, 10**6)
    g.note(seed=seed)
    res, _ = sample(ds, plan=plan, seed=seed)
    y = np.asarray(ds.train.y)
    if res.is_graph():
        tr, lab, unl = (np.flatnonzero(res.masks[k]) for k in ("train", "labeled", "unlabeled"))
    else:
        tr, lab, unl = (np.asarray(res.indices[k]) for k in ("train", "train_labeled", "train_unlabeled"))
    out = {"train": tr.tolist(), "labeled": lab.tolist(), "unlabeled": unl.tolist()}
    g.require(len(set(lab.tolist())) == len(lab), "labelled duplicates", out=out)
    g.require(sorted(lab.tolist() + unl.tolist()) == sorted(tr.tolist()), "labelled and unlabelled do not split the training set", out=out)
    g.require(not set(lab.tolist()) & set(unl.tolist()), "labelled and unlabelled overlap", out=out)
    if not imb or (plan.imbalance.apply_to == "train"):
        check_labeled(g, lab, tr, y, plan.labeling)
    if imb and plan.imbalance.apply_to == "train" and not res.is_graph():
        # the imbalanced training set against the one of the same plan without imbalance
        from dataclasses import replace
        r0, _ = sample(ds, plan=replace(plan, imbalance=ImbalanceSpec()), seed=seed)
        check_imb(g, r0.indices["train"], tr, y, plan.imbalance)
        g.require(np.array_equal(np.sort(r0.indices["val"]), np.sort(res.indices["val"])) and
                  np.array_equal(np.sort(r0.indices["test"]), np.sort(res.indices["test"])), "imbalance on train changed val or test")
    if imb and plan.imbalance.apply_to == "labeled":
        from dataclasses import replace
        r0, _ = sample(ds, plan=replace(plan, imbalance=ImbalanceSpec()), seed=seed)
        l0 = np.flatnonzero(r0.masks["labeled"]) if r0.is_graph() else r0.indices["train_labeled"]
        check_imb(g, l0, lab, y, plan.imbalance)
        t0 = np.flatnonzero(r0.masks["train"]) if r0.is_graph() else r0.indices["train"]
        g.require(np.array_equal(np.sort(t0), np.sort(tr)), "imbalance on the labelled set changed the training set")


def s_select(g):
    n = g.pick([0, 1, 2, g.int(3, 15), g.int(10, 120)])
    N = n + g.int(0, 20)
    y = gen_labels(g, N)
    idx = g.rng.permutation(N)[:n]
    if g.bool(0.7):
        idx = np.sort(idx)
    spec = gen_labeling(g)
    if g.bool(0.2) and n:
        m = g.int(0, n)
        spec = LabelingSpec(fixed_indices=[int(i) for i in g.rng.permutation(idx)[:m]])
    g.note(spec=spec.as_dict(), n=n, y=y.tolist(), idx=idx.tolist())
    keep = idx.copy(), y.copy()
    lab = select_labeled(train_idx=idx, y=y, spec=spec, rng=np.random.default_rng(g.int(0, 999)))
    g.require(np.array_equal(idx, keep[0]) and np.array_equal(y, keep[1]), "labelling changed its input")
    check_labeled(g, lab, idx, y, spec)


def s_fixed_refused(g):
    n = g.int(2, 30)
    y = gen_labels(g, n + 5)
    idx = np.sort(g.rng.permutation(n + 5)[:n])
    bad = [int(i) for i in idx[: g.int(1, n)]]
    if g.bool():
        out = [i for i in range(-2, n + 8) if i not in set(idx.tolist())]
        bad.insert(g.int(0, len(bad)), int(g.pick(out)))
    else:
        bad.insert(g.int(0, len(bad)), bad[0])
    g.note(fixed=bad, train=idx.tolist())
    g.raises(lambda: select_labeled(train_idx=idx, y=y, spec=LabelingSpec(fixed_indices=bad), rng=np.random.default_rng(0)),
             (SamplingValidationError, ValueError), "fixed labelled indices outside train or duplicated are accepted")


def s_imb(g):
    n = g.pick([0, 1, g.int(2, 15), g.int(10, 150)])
    N = n + g.int(0, 20)
    y = gen_labels(g, N)
    idx = np.sort(g.rng.permutation(N)[:n])
    spec = gen_imbalance(g)
    g.note(spec=spec.as_dict(), y=y.tolist(), idx=idx.tolist())
    keep = idx.copy()
    r = apply_imbalance(idx=idx, y=y, spec=spec, rng=np.random.default_rng(g.int(0, 999)))
    g.require(np.array_equal(idx, keep), "imbalance changed its input")
    check_imb(g, idx, r, y, spec)


SCENARIOS = [("sample", s_sample, 7000, 3), ("select", s_select, 8000, 2), ("fixed-refused", s_fixed_refused, 150), ("imbalance", s_imb, 4000, 2)]
