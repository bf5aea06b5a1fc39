"""Generators and oracles for the sampling properties."""
import dataclasses

import numpy as np

from modssc.data_loader.types import LoadedDataset, Split
from modssc.sampling import sample
from modssc.sampling.errors import SamplingValidationError
from modssc.sampling.plan import (HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan,
                                  SamplingPolicy)


def gen_labels(g, n, k=None):
    k = k or g.int(1, 6)
    mode = g.pick(["uniform", "skew", "single_rare", "sorted", "constant"])
    if mode == "uniform":
        c = g.rng.integers(0, k, n)
    elif mode == "skew":
        p = 1.0 / (1 + np.arange(k)) ** 2
        c = g.rng.choice(k, n, p=p / p.sum())
    elif mode == "single_rare":
        c = np.zeros(n, dtype=int)
        for j in range(1, min(k, n)):
            c[g.int(0, n - 1)] = j
    elif mode == "sorted":
        c = np.sort(g.rng.integers(0, k, n))
    else:
        c = np.zeros(n, dtype=int)
    kind = g.pick(["int", "int", "gap", "neg", "huge", "str", "float", "bool", "int8"])
    names = {"int": np.arange(k), "gap": np.arange(k) * 7 + 3, "neg": np.arange(k) - k // 2,
             "huge": np.arange(k) * 3_000_000 + 5, "str": np.array([f"c{j}" for j in range(k)]),
             "float": np.arange(k) * 0.5, "bool": np.arange(k) % 2 == 1, "int8": np.arange(k).astype(np.int8)}[kind]
    g.note(label_kind=kind, label_mode=mode)
    return names[c] if n else names[:0]


def gen_split(g, graph=False):
    if g.bool(0.6):
        f = lambda: g.pick([0.0, 0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 1.0, round(g.real(0, 1), 3), g.real(0, 1)])  # noqa: E731
        return HoldoutSplitSpec(test_fraction=f(), val_fraction=f(), stratify=g.bool(), shuffle=g.bool())
    k = g.int(2, 7)
    return KFoldSplitSpec(k=k, fold=g.int(0, k - 1), stratify=g.bool(), shuffle=g.bool(), val_fraction=g.pick([0.0, 0.1, 0.33, 0.5]))


def gen_labeling(g):
    mode = g.pick(["fraction", "count", "per_class"])
    v = {"fraction": lambda: g.pick([0.05, 0.1, 0.3, 0.5, 1.0, round(g.real(0.01, 1), 3), g.real(0.01, 1)]), "count": lambda: g.int(0, 25),
         "per_class": lambda: g.int(0, 6)}[mode]()
    return LabelingSpec(mode=mode, value=v, per_class=g.bool(), min_per_class=g.pick([0, 1, 1, 2, 3, 5]),
                        strategy=g.pick(["proportional", "balanced"]))


def gen_imbalance(g):
    kind = g.pick(["subsample_max_per_class", "long_tail"])
    return ImbalanceSpec(kind=kind, apply_to=g.pick(["train", "labeled"]),
                         max_per_class=g.int(1, 6) if kind.startswith("sub") else None,
                         alpha=round(g.real(0.05, 0.95), 3) if kind == "long_tail" else None, min_per_class=g.int(0, 3))


def gen_policy(g):
    return SamplingPolicy(respect_official_test=g.bool(0.7), use_official_graph_masks=g.bool(0.6),
                          allow_override_official=g.bool(0.3))


def gen_plan(g, imb=False, graph=False):
    p = SamplingPlan(split=gen_split(g, graph), labeling=gen_labeling(g),
                     imbalance=gen_imbalance(g) if imb else ImbalanceSpec(apply_to=g.pick(["train", "labeled"])),
                     policy=gen_policy(g))
    g.note(plan=p.as_dict())
    return p


def gen_dataset(g, graph=None, n=None):
    graph = g.bool(0.35) if graph is None else graph
    n = g.pick([0, 1, 2, 3, g.int(4, 12), g.int(10, 60), g.int(40, 200)]) if n is None else n
    y = gen_labels(g, n)
    X = g.rng.normal(size=(n, 3))
    meta = {"dataset_fingerprint": "fp-" + str(g.int(0, 99))}
    if graph:
        m = g.int(0, 3 * n)
        e = g.rng.integers(0, max(n, 1), size=(2, m)) if n else np.zeros((2, 0), dtype=int)
        masks = None
        if g.bool(0.5):
            part = g.rng.integers(0, g.pick([3, 4]), n)
            masks = {"train": part == 0, "val": part == 1, "test": part == 2}
            if g.bool(0.2):
                masks.pop(g.pick(["train", "val", "test"]))
        ds = LoadedDataset(train=Split(X=X, y=y, edges=e, masks=masks), test=None, meta=meta)
        g.note(n=n, graph=True, masks=None if masks is None else {k: np.where(v)[0].tolist() for k, v in masks.items()}, y=y.tolist())
        return ds
    test = None
    if g.bool(0.5):
        nt = g.int(0, 20)
        test = Split(X=g.rng.normal(size=(nt, 3)), y=g.rng.choice(y, nt) if n else y[:0])
    g.note(n=n, graph=False, official_test=None if test is None else len(test.y), y=y.tolist())
    return LoadedDataset(train=Split(X=X, y=y), test=test, meta=meta)


def label_fault(ds, plan):
    """does the labelling rule legitimately refuse this request?"""
    return False


def official_test_used(ds, plan):
    return ds.test is not None and plan.policy.respect_official_test and not plan.policy.allow_override_official


def masks_used(ds, plan):
    m = ds.train.masks
    return bool(plan.policy.use_official_graph_masks and isinstance(m, dict) and {"train", "val", "test"} <= set(m))


def clamp_round(frac, n):
    return max(0, min(n, int(round(frac * n))))


def near(size, frac, n):
    return abs(size - min(max(frac * n, 0), n)) <= 0.5 + 1e-9


def is_graph(ds):
    return ds.train.edges is not None or ds.train.masks is not None
