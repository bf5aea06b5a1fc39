"""Generators of datasets and preprocessing plans."""
import copy
import hashlib
import pickle

import numpy as np

from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess.plan import PreprocessPlan, StepConfig

WORDS = "alpha beta gamma delta eps zeta eta theta iota kappa the a of und".split()


def cfg(step, **params):
    return StepConfig(step_id=step, params=params)


def fingerprinted(ds):
    """the same dataset with a content-determined identity"""
    h = hashlib.sha256(pickle.dumps((ds.train, ds.test))).hexdigest()
    return LoadedDataset(train=ds.train, test=ds.test, meta={**ds.meta, "dataset_fingerprint": h})


def rows(g, n, kind, d):
    if kind == "num":
        X = g.rng.normal(size=(n, d)) * g.pick([0.01, 1, 50])
        if g.bool(0.3):
            X[g.rng.random((n, d)) < 0.15] = np.nan
        return X.astype(g.pick([np.float64, np.float64, np.float32]))
    if kind == "clean":
        return g.rng.normal(size=(n, d)) * g.pick([1, 20])
    if kind == "int":
        return g.rng.integers(0, 9, size=(n, d))
    if kind == "table":
        X = np.empty((n, d), dtype=object)
        for j in range(d):
            for i in range(n):
                X[i, j] = g.pick(["red", "blue", "green", "?", None]) if j % 2 == 0 else g.pick([1, 2.5, "3", "NA", np.nan, -7])
        return X
    if kind == "text":
        X = np.empty(n, dtype=object)
        for i in range(n):
            X[i] = " ".join(g.pick(WORDS) for _ in range(g.int(0, 9))) + g.pick(["", " !", " Alpha"])
        return X
    if kind == "image":
        return g.rng.random((n, 3, 3, 1)) * g.pick([1.0, 255.0])
    raise AssertionError(kind)


def numeric_chain(g, first="raw", fittable=True):
    steps = []
    if first == "raw":
        steps.append(g.pick([cfg("core.ensure_2d"), cfg("core.copy_raw")]))
    opts = ["impute", "scaler", "pca", "rp", "cast", "numpy", "fp16", "ensure"]
    for _ in range(g.int(1, 3)):
        o = g.pick(opts)
        if o == "impute":
            steps.append(cfg("tabular.impute", strategy=g.pick(["mean", "median", "constant", "most_frequent"]), fill_value=0.0, add_indicator=False))
        elif o == "scaler":
            steps.append(cfg("tabular.standard_scaler", with_mean=g.bool(), with_std=g.bool(0.8)))
        elif o == "pca":
            steps.append(cfg("core.pca", n_components=g.int(1, 6), center=g.bool(0.8)))
        elif o == "rp":
            steps.append(cfg("core.random_projection", n_components=g.int(1, 6), normalize=g.bool()))
        elif o == "cast":
            steps.append(cfg("core.cast_dtype", dtype=g.pick(["float32", "float64"])))
        elif o == "numpy":
            steps.append(cfg("core.to_numpy"))
        elif o == "fp16":
            steps.append(cfg("core.cast_fp16"))
        elif o == "ensure":
            steps.append(cfg("core.ensure_2d"))
    return steps


def gen_case(g, kind=None):
    """(kind, dataset without identity, steps)"""
    kind = kind or g.pick(["num", "clean", "int", "table", "text", "image"])
    n, m, d = g.int(3, 25), g.pick([None, g.int(1, 12)]), g.int(1, 6)
    if g.bool(0.04):
        n = 8192 + g.int(1, 4) if kind in ("num", "clean") else n
    if kind == "table":
        steps = [cfg("tabular.one_hot", handle_unknown="ignore")] + (numeric_chain(g, "features") if g.bool(0.4) else [])
    elif kind == "text":
        steps = [cfg("text.ensure_strings")] if g.bool(0.4) else []
        steps.append(g.pick([cfg("text.tfidf", max_features=g.pick([None, 3, 8]), min_df=1), cfg("text.vocab_tokenizer", vocab_size=g.int(3, 12), max_length=g.int(1, 8), min_freq=g.int(1, 3)),
                             cfg("text.hash_tokenizer", vocab_size=g.int(3, 50), max_length=g.int(1, 8))]))
    elif kind == "image":
        steps = [cfg("vision.channels_order", order=g.pick(["NCHW", "NHWC"]))] if g.bool() else []
        steps.append(cfg("vision.zca_whitening", eps=g.pick([1e-5, 0.1])))
        if g.bool():
            steps += numeric_chain(g)
    else:
        steps = numeric_chain(g)
    k = g.int(1, 3)
    lab = lambda q: g.pick([g.rng.integers(0, k, q), np.array([f"c{j}" for j in g.rng.integers(0, k, q)])])  # noqa: E731
    y = lab(n)
    yt = None if m is None else y[g.rng.integers(0, n, m)]
    if g.bool(0.3):
        steps.insert(g.int(0, len(steps)), g.pick([cfg("labels.encode"), cfg("labels.to_numpy")]))
    ds = LoadedDataset(train=Split(X=rows(g, n, kind, d), y=y), test=None if m is None else Split(X=rows(g, m, kind, d), y=yt), meta={})
    g.note(kind=kind, n=n, m=m, d=d, steps=[(s.step_id, dict(s.params)) for s in steps])
    return kind, ds, steps


def gen_fit(g, n):
    k = g.int(1, n)
    f = g.rng.permutation(n)[:k]
    return f if g.bool() else np.sort(f)


def spoil(g, X, idx, kind):
    """X with the rows idx replaced by very different ones of the same kind"""
    X = copy.deepcopy(X)
    how = g.pick(["huge", "other", "const", "nan"])
    for i in idx:
        if kind in ("num", "clean", "image"):
            X[i] = {"huge": X[i] * -1e4 + 977, "other": g.rng.normal(size=X[i].shape) * 30, "const": 3.0,
                    "nan": np.nan if kind == "num" else -555.0}[how]
        elif kind == "int":
            X[i] = X[i] * 0 + {"huge": 10**6, "other": g.int(-99, 99), "const": 3, "nan": -1}[how]
        elif kind == "table":
            for j in range(X.shape[1]):
                X[i, j] = g.pick(["unseen%d" % g.int(0, 99), "red", None]) if j % 2 == 0 else g.pick([10**6, -5.5, None])
        else:
            X[i] = " ".join(g.pick(["unseen%d" % g.int(0, 9), "alpha", "alpha", "zeta"]) for _ in range(g.int(0, 30)))
    return X


def dense(v):
    return v.toarray() if hasattr(v, "toarray") else np.asarray(v)
