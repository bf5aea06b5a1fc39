"""C24: the benchmark harness - which rows each stage sees, and what a seed sweep changes."""
import copy
import json
from pathlib import Path
from types import SimpleNamespace

import numpy as np

from bounded.util import same
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess.store import ArtifactStore
from modssc.preprocess.types import PreprocessResult
from modssc.sampling.result import SamplingResult
from modssc.views.types import ViewsResult
from vf.gen import Skip

RULE = "features and labels of a split = rows indices[split] of the base refs[split]; metric = metric(those rows); fit rows = fit_on"
EXPLANATION = ("evaluate_inductive/evaluate_transductive are driven with a recording method on generated split results "
               "(train/test references, label artifacts, views, numpy/torch/list/graph features) and compared with metrics "
               "computed by hand from the same rows; whole benchmark runs are executed on generated datasets with recorders at "
               "the stage boundaries; seed sweeps are compared field by field with the base configuration.")

METRICS = ["accuracy", "macro_f1", "balanced_accuracy"]
KEYS = ["train", "val", "test", "train_labeled", "train_unlabeled"]


def PRELOAD():
    import torch
    import torch_geometric.utils  # noqa: F401

    torch.set_num_threads(1)
    import bench.main  # noqa: F401


def hand(t, p):
    """metric definitions, spelled out over python lists"""
    t, p = [int(x) for x in t], [int(x) for x in p]
    n = len(t)
    acc = sum(a == b for a, b in zip(t, p, strict=True)) / n if n else 0.0
    f1, rec = [], []
    for c in sorted(set(t)):
        tp = sum(a == c and b == c for a, b in zip(t, p, strict=True))
        fp = sum(a != c and b == c for a, b in zip(t, p, strict=True))
        fn = sum(a == c and b != c for a, b in zip(t, p, strict=True))
        f1.append(2 * tp / (2 * tp + fp + fn))
        rec.append(tp / (tp + fn))
    return {"accuracy": acc, "macro_f1": float(np.mean(f1)) if f1 else 0.0, "balanced_accuracy": float(np.mean(rec)) if rec else 0.0}


def agree(g, got, want, msg):
    g.require(set(got) == set(want), f"{msg}: metrics {sorted(got)} instead of {sorted(want)}")
    for k in want:
        g.require(abs(float(got[k]) - want[k]) <= 1e-6, f"{msg}: {k} = {got[k]} but on the split's own rows it is {want[k]}")


def rows_of(g, n, d, kind, base):
    """n distinguishable rows (row i carries the value base + i)"""
    A = (np.arange(n)[:, None] + base + np.zeros((1, d)))
    if kind == "float32":
        return A.astype(np.float32)
    if kind == "torch":
        import torch

        return torch.as_tensor(A, dtype=torch.float32)
    if kind == "list":
        return [[float(v) for v in r] for r in A]
    if kind == "1d":
        return A[:, 0].copy()
    return A


def tags(X):
    """the row markers of a feature container"""
    if hasattr(X, "detach"):
        X = X.detach().cpu().numpy()
    if isinstance(X, dict):
        return tags(X["x"])
    return [float(np.ravel(r)[0]) for r in X]


def gen_sampling(g, nt, ns, refs_test):
    pool = g.rng.permutation(nt)
    a = g.int(0, nt)
    train, val = pool[:a], pool[a:]
    if refs_test == "train":
        b = g.int(0, len(val))
        test, val = val[b:], val[:b]
    else:
        test = g.rng.permutation(ns)[: g.int(0, ns)]
    k = g.int(0, len(train))
    ind = {"train": np.sort(train) if g.bool() else train, "val": val, "test": test, "train_labeled": train[:k], "train_unlabeled": train[k:]}
    ind = {k: np.asarray(v, dtype=np.int64) for k, v in ind.items()}
    refs = {k: "train" for k in KEYS}
    refs["test"] = refs_test
    if refs_test == "train" and g.bool(0.3):
        refs.pop(g.pick(KEYS))
    return SamplingResult(schema_version=1, created_at="now", dataset_fingerprint="f", split_fingerprint="s", plan={}, indices=ind, refs=refs, masks={}, stats={})


class Rec:
    """a method whose scores are a fixed function of the row marker"""

    def __init__(self, pred, C, torch=False):
        self.pred, self.C, self.seen, self.torch = pred, C, [], torch

    def predict_proba(self, X):
        self.seen.append(X)
        views = getattr(X, "views", None)
        t = tags(X.X_l if views is not None else X)
        S = np.full((len(t), self.C), 0.1)
        for i, v in enumerate(t):
            S[i, self.pred[int(v)]] = 0.8
        if self.torch:
            import torch

            return torch.as_tensor(S)
        return S


def store(values):
    s = ArtifactStore()
    for k, v in values.items():
        s.set(k, v)
    return s


def world(g):
    nt, ns = g.int(1, 9), g.int(1, 8)
    C, d = g.int(2, 4), g.int(1, 3)
    kind = g.pick(["float64", "float32", "torch", "list", "1d"])
    has_test = g.bool(0.7)
    mk = lambda n, b: rows_of(g, n, d, kind, b)  # noqa: E731
    y = {"train": g.rng.integers(0, C, nt), "test": g.rng.integers(0, C, ns)}
    X = {"train": mk(nt, 0), "test": mk(ns, 100)}
    art = {"train": {}, "test": {}}
    truth = dict(y)
    if g.bool(0.3):
        for k in y:
            truth[k] = (y[k] + 1) % C
            art[k]["labels.y"] = truth[k]
    ykind = g.pick(["np", "list", "torch"])
    conv = {"np": lambda v: v, "list": lambda v: [int(t) for t in v]}.get(ykind)
    if conv is None:
        import torch

        conv = torch.as_tensor
    y = {k: conv(v) for k, v in y.items()}
    for k in art:
        if art[k]:
            art[k]["labels.y"] = conv(art[k]["labels.y"])
    ds = LoadedDataset(train=Split(X=X["train"], y=y["train"]), test=Split(X=X["test"], y=y["test"]) if has_test else None, meta={})
    pre = PreprocessResult(dataset=ds, plan=None, preprocess_fingerprint="p", train_artifacts=store(art["train"]),
                           test_artifacts=store(art["test"]) if has_test else None, cache_dir=None)
    pred = {i: int(v) for i, v in enumerate(g.rng.integers(0, C, nt))}
    pred.update({100 + i: int(v) for i, v in enumerate(g.rng.integers(0, C, ns))})
    g.note(nt=nt, ns=ns, kind=kind, ykind=ykind, artifacts=bool(art["train"]), has_test=has_test)
    return nt, ns, C, X, truth, pre, pred, has_test


def s_inductive(g):
    from bench.errors import BenchRuntimeError
    from bench.orchestrators.evaluation import evaluate_inductive

    nt, ns, C, X, truth, pre, pred, has_test = world(g)
    samp = gen_sampling(g, nt, ns, "test" if g.bool(0.6) else "train")
    method = Rec(pred, C, g.bool(0.3))
    views, mid = None, "pseudo_label"
    if g.bool(0.3):
        mid = "co_training"
        vs = {}
        for j, name in enumerate(["a", "b"]):
            off = 1000 * (j + 1)
            tr = rows_of(g, nt, 1, "float64", off)
            te = rows_of(g, ns, 1, "float64", off + 100)
            vs[name] = LoadedDataset(train=Split(X=tr, y=pre.dataset.train.y), test=Split(X=te, y=None) if has_test else None, meta={})
        views = ViewsResult(views=vs, columns={}, meta={}, plan=None, seed=0) if "seed" in ViewsResult.__dataclass_fields__ else SimpleNamespace(views=vs)
    splits = [s for s in KEYS if g.bool(0.7)] or ["test"]
    ms = [m for m in METRICS if g.bool(0.7)] or ["accuracy"]
    g.note(splits=splits, refs=dict(samp.refs), indices={k: v.tolist() for k, v in samp.indices.items()}, method=mid)
    call = lambda sp: evaluate_inductive(method=method, pre=pre, sampling=samp, report_splits=sp, metrics=ms, method_id=mid, views=views)  # noqa: E731
    if not has_test and samp.refs.get("test") == "test" and "test" in splits:
        g.raises(lambda: call(splits), BenchRuntimeError, "a test split is evaluated although the dataset has none")
        return
    if any(len(samp.indices[s]) == 0 for s in splits) and g.bool(0.8):
        splits = [s for s in splits if len(samp.indices[s])]
        if not splits:
            raise Skip()
    if any(len(samp.indices[s]) == 0 for s in splits):
        raise Skip()
    res = call(splits)
    g.require(list(res) == splits, f"results for {list(res)} instead of {splits}")
    for s, seen in zip(splits, method.seen, strict=True):
        ref = samp.refs.get(s, "train")
        idx = samp.indices[s]
        want = [float(i + (0 if ref == "train" else 100)) for i in idx]
        g.require(tags(seen.X_l if views is not None else seen) == want, f"split {s} is not evaluated on its own rows")
        if views is not None:
            for j, name in enumerate(["a", "b"]):
                g.require(tags(seen.views[name]["X"]) == [w + 1000 * (j + 1) for w in want], f"view {name} of split {s} holds other rows")
        h = hand(truth[ref][idx], [pred[int(v)] for v in want])
        agree(g, res[s], {m: h[m] for m in ms}, f"split {s}")
    if g.bool(0.2):
        bad = SamplingResult(schema_version=1, created_at="", dataset_fingerprint="", split_fingerprint="", plan={},
                             masks={"train": np.ones(nt, bool)}, indices=samp.indices, refs=samp.refs)
        g.raises(lambda: evaluate_inductive(method=method, pre=pre, sampling=bad, report_splits=splits, metrics=ms, method_id=mid, views=views),
                 BenchRuntimeError, "graph sampling is evaluated inductively")


def s_transductive(g):
    from bench.errors import BenchRuntimeError
    from bench.main import _graph_sampling_to_inductive, _mask_map_from_sampling, _use_test_split
    from bench.orchestrators.evaluation import evaluate_transductive

    nt, ns = g.int(1, 9), g.int(1, 8)
    C = g.int(2, 4)
    if g.bool(0.35):
        part = g.rng.integers(0, 3, nt)
        lab = (part == 0) & (g.rng.random(nt) < 0.5)
        masks = {"train": part == 0, "val": part == 1, "test": part == 2, "labeled": lab, "unlabeled": (part == 0) & ~lab}
        as_kind = g.pick([bool, np.uint8, np.int64])
        samp = SamplingResult(schema_version=1, created_at="", dataset_fingerprint="", split_fingerprint="", plan={},
                              masks={k: v.astype(as_kind) for k, v in masks.items()}, refs={k: "nodes" for k in masks})
        n = nt
        rows = {k: np.flatnonzero(v) for k, v in masks.items()}
        got = _mask_map_from_sampling(samp, n_train=nt, n_test=None)
        ind = _graph_sampling_to_inductive(samp)
        for k, src in zip(KEYS, ["train", "val", "test", "labeled", "unlabeled"], strict=True):
            g.require(ind.indices[k].tolist() == rows[src].tolist() and ind.refs[k] == "train", f"node mask {src} converted to other rows")
        g.require(not ind.is_graph() and not _use_test_split(ind), "converted node masks still refer to graph or test rows")
    else:
        refs_test = g.pick(["train", "test"])
        samp = gen_sampling(g, nt, ns, refs_test)
        g.require(_use_test_split(samp) == (refs_test == "test" or samp.refs.get("test") == "test"), "use of the official test split misread")
        n = nt + (ns if refs_test == "test" else 0)
        got = _mask_map_from_sampling(samp, n_train=nt, n_test=ns if refs_test == "test" else None)
        rows = {"labeled" if k == "train_labeled" else "unlabeled" if k == "train_unlabeled" else k:
                v + (nt if samp.refs.get(k, "train") == "test" else 0) for k, v in samp.indices.items()}
        g.note(indices={k: v.tolist() for k, v in samp.indices.items()}, refs=dict(samp.refs), nt=nt, ns=ns)
    g.require(set(got) == {f"{k}_mask" for k in rows}, f"masks {sorted(got)}")
    for k, v in rows.items():
        m = got[f"{k}_mask"]
        g.require(m.dtype == bool and m.shape == (n,) and np.flatnonzero(m).tolist() == sorted(v.tolist()), f"mask {k} selects other nodes than the split")
    y = g.rng.integers(0, C, n)
    S = g.rng.random((n, C))
    in_meta = g.bool()
    shown = np.where(got["labeled_mask"], y, -1) if in_meta else y
    data = SimpleNamespace(y=shown, meta={"y_true": y} if in_meta else g.pick([None, {}]))
    splits = [k for k in rows if len(rows[k]) and g.bool(0.7)]
    method = SimpleNamespace(predict_proba=lambda d: S)
    res = evaluate_transductive(method=method, data=data, report_splits=splits, metrics=METRICS, masks=got)
    g.require(list(res) == splits, "splits reported")
    pred = S.argmax(1)
    for s in splits:
        i = np.sort(rows[s])
        agree(g, res[s], hand(y[i], pred[i]), f"split {s}")
    g.raises(lambda: evaluate_transductive(method=method, data=data, report_splits=["other"], metrics=METRICS, masks=got), BenchRuntimeError,
             "a split without mask is evaluated")
    bad = dict(got, val_mask=np.ones(n + 1, bool))
    g.raises(lambda: evaluate_transductive(method=method, data=data, report_splits=["val"], metrics=METRICS, masks=bad), BenchRuntimeError,
             "a mask of another length is accepted")


def s_fit(g):
    from bench.orchestrators.preprocess import resolve_fit_indices

    nt, ns = g.int(1, 9), g.int(1, 8)
    ds = LoadedDataset(train=Split(X=np.zeros((nt, 1)), y=np.zeros(nt, int)), test=None, meta={})
    which = {"train": "train", "train_labeled": "labeled", "train_unlabeled": "unlabeled", "val": "val"}
    graph = g.bool()
    if graph:
        part = g.rng.integers(0, 3, nt)
        lab = (part == 0) & (g.rng.random(nt) < 0.5)
        samp = SamplingResult(schema_version=1, created_at="", dataset_fingerprint="", split_fingerprint="", plan={},
                              masks={"train": part == 0, "val": part == 1, "test": part == 2, "labeled": lab, "unlabeled": (part == 0) & ~lab})
    else:
        samp = gen_sampling(g, nt, ns, g.pick(["train", "test"]))
    keep = copy.deepcopy(samp)
    for f in which:
        got = resolve_fit_indices(dataset=ds, sampling=samp, fit_on=f)
        want = np.flatnonzero(samp.masks[which[f]]) if graph else samp.indices[f]
        g.require(np.asarray(got).dtype.kind == "i" and sorted(np.asarray(got).tolist()) == sorted(want.tolist()), f"fit_on={f} gives rows {np.asarray(got).tolist()} instead of {want.tolist()}")
    g.require(resolve_fit_indices(dataset=ds, sampling=samp, fit_on=None) is None, "fit_on none")
    for bad in ["test", "all", "", "Train", "labeled"]:
        g.raises(lambda b=bad: resolve_fit_indices(dataset=ds, sampling=samp, fit_on=b), ValueError, f"fit_on={bad!r} accepted")
    g.require(same(keep, samp) is None, "the split result is modified")


def s_rows(g):
    from bench.errors import BenchRuntimeError
    from bench.orchestrators.slicing import select_rows

    n = g.int(1, 9)
    d = g.int(1, 3)
    kind = g.pick(["float64", "float32", "torch", "list", "1d", "graph", "sparse"])
    idx = g.rng.permutation(n)[: g.int(0, n)]
    form = g.pick(["array", "list", "int32"])
    arg = {"array": idx, "list": [int(i) for i in idx], "int32": idx.astype(np.int32)}[form]
    g.note(kind=kind, idx=idx.tolist(), n=n)
    if kind == "sparse":
        import scipy.sparse as sp

        A = sp.csr_matrix(rows_of(g, n, d, "float64", 1))
        got = select_rows(A, arg, context="t")
        g.require(got.shape == (len(idx), d) and got.toarray()[:, 0].tolist() == [i + 1.0 for i in idx], "sparse rows")
        return
    if kind == "graph":
        E = g.int(0, 12)
        ei = g.rng.integers(0, n, size=(2, E))
        use_torch = g.bool()
        x = rows_of(g, n, d, "torch" if use_torch else "float64", 0)
        eit = ei
        if use_torch:
            import torch

            eit = torch.as_tensor(ei)
        X = {"x": x, "edge_index": eit, "name": "g", "aux": np.arange(n) * 1.0, "tags": list(range(n))}
        keep = copy.deepcopy(X)
        got = select_rows(X, arg, context="t")
        g.require(same(keep, X) is None, "the features are modified")
        g.require(tags(got) == [float(i) for i in idx] and got["name"] == "g", "node rows of the sub-graph")
        g.require(got["aux"].tolist() == [float(i) for i in idx] and got["tags"] == [int(i) for i in idx], "node attributes of the sub-graph")
        pos = {int(o): k for k, o in enumerate(idx)}
        want = sorted((pos[u], pos[v]) for u, v in ei.T.tolist() if u in pos and v in pos)
        sub = np.asarray(got["edge_index"])
        # nodes are renumbered in row order; edges keep connecting the same original nodes
        have = sorted(map(tuple, sub.T.tolist()))
        g.require(have == want, f"edges of the sub-graph {have} instead of {want}")
        return
    X = rows_of(g, n, d, kind, 0)
    keep = copy.deepcopy(X)
    got = select_rows(X, arg, context="t")
    g.require(type(got) is type(X) and tags(got) == [float(i) for i in idx], "selected rows")
    g.require(same(keep, X) is None, "the features are modified")
    if len(idx):
        bad = idx.copy()
        bad[g.int(0, len(idx) - 1)] = -g.int(1, n)
        g.raises(lambda: select_rows(X, bad, context="t"), BenchRuntimeError, "a negative row index is accepted")
        bad[0] = n + g.int(0, 2)
        g.raises(lambda: select_rows(X, np.abs(bad), context="t"), Exception, "an out-of-range row index is accepted")
    g.require(select_rows(None, idx, context="t") is None, "None")


SECTIONS = ("sampling", "preprocess", "views", "graph", "augmentation", "search")


def s_sweep(g):
    from bench.seed_sweep import apply_global_seed, sweep_run_name

    def block(depth=0):
        d = {}
        for k in ["plan", "seed", "id", "params", "list", "x"]:
            if g.bool(0.6):
                d[k] = g.pick([1, "s", None, [1, {"seed": 3}], {"seed": 9}, 0.5]) if depth or g.bool() else block(1)
        return d

    raw = {}
    for s in SECTIONS + ("run", "dataset", "method", "evaluation", "limits"):
        if g.bool(0.7):
            raw[s] = g.pick([None, block(), block(), block(), "x"]) if s in SECTIONS else block()
    if isinstance(raw.get("run"), dict) and g.bool():
        raw["run"]["seeds"] = [1, 2]
        raw["run"]["name"] = "n"
    seed = g.pick([0, 1, 7, 12345, np.int64(5)])
    name = g.pick([None, "other"])
    keep = copy.deepcopy(raw)
    got = apply_global_seed(raw, seed=seed, run_name=name)
    g.note(raw=repr(keep), seed=int(seed))
    g.require(same(keep, raw) is None, "the base configuration is modified")
    want = copy.deepcopy(keep)
    run = want.setdefault("run", {})
    run.pop("seeds", None)
    run["seed"] = int(seed)
    if name is not None:
        run["name"] = name
    for s in SECTIONS:
        if isinstance(want.get(s), dict):
            want[s]["seed"] = int(seed)
    d = same(want, got)
    g.require(d is None, f"the seeded configuration differs from the base configuration with the seed set: {d}")
    g.require(not aliased(got, raw), "the seeded configuration shares mutable parts with the base configuration")
    names = {sweep_run_name("b", seed=s, index=i, total=4) for i, s in enumerate([0, 1, 10, 11])}
    g.require(len(names) == 4, "two seeds share a run name")


def aliased(a, b):
    ids = set()

    def walk(o, f):
        if isinstance(o, (dict, list)):
            f(o)
            for v in o.values() if isinstance(o, dict) else o:
                walk(v, f)

    walk(b, lambda o: ids.add(id(o)))
    hit = []
    walk(a, lambda o: hit.append(id(o) in ids))
    return any(hit)


def base_cfg(g, out):
    cfg = {
        "run": {"name": "r", "seed": g.int(0, 50), "output_dir": str(out), "fail_fast": True},
        "dataset": {"id": "toy", "options": {}},
        "sampling": {"plan": {"split": {"kind": "holdout", "test_fraction": g.pick([0.0, 0.25]), "val_fraction": g.pick([0.25, 0.4]), "stratify": False},
                              "labeling": {"mode": "fraction", "value": 0.5, "min_per_class": 1},
                              "policy": {"respect_official_test": True}}},
        "preprocess": {"fit_on": g.pick(["train", "train_labeled", "train_unlabeled", "val"]), "cache": False,
                       "plan": {"steps": [{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}, {"id": "tabular.standard_scaler"}]}},
        "evaluation": {"report_splits": ["val", "test"], "metrics": list(METRICS)},
    }
    for s in ("sampling", "preprocess"):
        if g.bool():
            cfg[s]["seed"] = g.int(0, 9)
    return cfg


def gen_dataset(g, official):
    C, d = 2, g.int(1, 3)
    def part(n):
        y = g.rng.permutation(np.concatenate([np.arange(C), g.rng.integers(0, C, n - C)]))
        return g.rng.normal(size=(n, d)) + y[:, None], y
    X, y = part(g.int(16, 30))
    test = None
    if official:
        test = Split(**dict(zip(["X", "y"], part(g.int(4, 9)), strict=True)))
    return LoadedDataset(train=Split(X=X, y=y), test=test, meta={"dataset_fingerprint": f"ds-{g.int(0, 10**9)}", "modality": "tabular"})


class Patch:
    def __init__(self):
        self.old = []

    def set(self, obj, name, val):
        self.old.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def undo(self):
        for o, n, v in reversed(self.old):
            setattr(o, n, v)


def standardised(X, fit):
    m, s = X[fit].mean(0), X[fit].std(0)
    return (X - m) / np.where(s == 0, 1, s)


def s_run(g):
    """a whole benchmark run, with recorders at the stage boundaries"""
    import bench.main as bm
    from bench.schema import ExperimentConfig

    official = g.bool()
    ds = gen_dataset(g, official)
    kind = g.pick(["inductive", "inductive", "transductive"])
    cfg = base_cfg(g, Path(g.tmp) / "out")
    if kind == "inductive":
        cfg["method"] = {"kind": "inductive", "id": g.pick(["pseudo_label", "supervised", "self_training", "co_training"]),
                         "device": {"device": "cpu"}, "params": {"classifier_id": "knn", "classifier_backend": "numpy", "classifier_params": {"k": 1}}}
        if cfg["method"]["id"] == "co_training":
            cfg["views"] = {"plan": {"views": [{"name": "a", "columns": {"mode": "random", "fraction": 0.6}}, {"name": "b", "columns": {"mode": "all"}}]}}
    else:
        cfg["method"] = {"kind": "transductive", "id": g.pick(["label_propagation", "label_spreading"]), "device": {"device": "cpu"}, "params": {}}
        cfg["graph"] = {"enabled": True, "cache": False, "spec": {"scheme": "knn", "metric": "euclidean", "k": 3, "backend": "numpy", "symmetrize": "or",
                                                                  "weights": {"kind": "binary"}, "feature_field": "features.X"}}
    if g.bool(0.3):
        cfg["evaluation"]["report_splits"] = ["val", "train", "test"]
    g.note(config=cfg, official=official, n=len(ds.train.y))
    keep = copy.deepcopy(ds)
    rec = {}
    p = Patch()
    try:
        p.set(bm, "_check_extra", lambda extra: None)  # what is installed is looked up relative to the working directory
        p.set(bm.ds_orch, "load", lambda c: (ds, {"id": "toy"}))
        real_s = bm.sampling_orch.run
        p.set(bm.sampling_orch, "run", lambda *a, **k: rec.setdefault("samp", real_s(*a, **k)))
        real_p = bm.prep_orch.run

        def prep(*a, **k):
            rec["fit"] = k["fit_indices"]
            rec["pre"] = real_p(*a, **k)
            return rec["pre"]

        p.set(bm.prep_orch, "run", prep)
        orch = bm.inductive_orch if kind == "inductive" else bm.transductive_orch
        real_m = orch.run

        def meth(*a, **k):
            out = real_m(*a, **k)
            rec["method"], rec["data"] = out[0], out[1]
            return out

        p.set(orch, "run", meth)
        if kind == "inductive":
            from modssc.inductive.registry import get_method_class
            cls = get_method_class(cfg["method"]["id"])
            real_fit = cls.fit
            p.set(cls, "fit", lambda self, data, **k: rec.update(seen=data) or real_fit(self, data, **k))
        path = Path(g.tmp) / "c.yaml"
        path.write_text("x: 1\n")
        raw = copy.deepcopy(cfg)
        try:
            res = bm._run_experiment_single(path, raw=raw, cfg=ExperimentConfig.from_dict(raw))
        except Exception as exc:  # noqa: BLE001
            if "samp" not in rec or any(len(rec["samp"].indices[s]) == 0 for s in KEYS):
                raise Skip(repr(exc)) from exc
            raise
    finally:
        p.undo()
    samp = rec["samp"]
    g.require(same(keep, ds) is None, "the run modifies the dataset")
    out = json.loads(Path(res.run_json_path).read_text())
    g.require(out["run"]["status"] == "success", "run status")
    fit = np.sort(np.asarray(samp.indices[cfg["preprocess"]["fit_on"]]))
    g.require(np.sort(np.asarray(rec["fit"])).tolist() == fit.tolist(), f"preprocessing fitted on {rec['fit']} instead of the {cfg['preprocess']['fit_on']} rows")
    Z = {"train": standardised(ds.train.X, fit)}
    Y = {"train": ds.train.y}
    if official:
        Z["test"] = (ds.test.X - ds.train.X[fit].mean(0)) / np.where(ds.train.X[fit].std(0) == 0, 1, ds.train.X[fit].std(0))
        Y["test"] = ds.test.y
    g.require(np.allclose(rec["pre"].dataset.train.X, Z["train"], atol=1e-5), "the features are not standardised over the fit rows")
    if kind == "inductive":
        L, U = samp.indices["train_labeled"], samp.indices["train_unlabeled"]
        seen = rec["seen"]
        g.require(np.allclose(seen.X_l, Z["train"][L], atol=1e-5) and np.asarray(seen.y_l).tolist() == Y["train"][L].tolist(),
                  "the method is not fitted on the labelled rows with their own labels")
        if seen.X_u is not None and cfg["method"]["id"] != "supervised":
            g.require(np.allclose(seen.X_u, Z["train"][U], atol=1e-5), "the method's unlabelled data are not the unlabelled rows")
    for s in cfg["evaluation"]["report_splits"]:
        ref = samp.refs.get(s, "train")
        idx = samp.indices[s]
        if len(idx) == 0:
            continue
        if kind == "inductive":
            if cfg["method"]["id"] == "co_training":
                continue
            P = np.asarray(rec["method"].predict_proba(rec["pre"].dataset.train.X[idx] if ref == "train" else rec["pre"].dataset.test.X[idx]))
        else:
            P = np.asarray(rec["method"].predict_proba(rec["data"]))[idx + (len(ds.train.y) if ref == "test" else 0)]
        agree(g, out["metrics"][s], hand(Y[ref][idx], P.argmax(1)), f"reported metrics of split {s}")
    if kind == "transductive":
        lm = np.asarray(rec["data"].masks["labeled_mask"])
        g.require(np.flatnonzero(lm).tolist() == sorted(samp.indices["train_labeled"].tolist()), "labelled nodes")


def s_many(g):
    """seed sweeps: one run per seed, each with the base configuration under that seed"""
    import bench.main as bm
    import yaml

    cfg = base_cfg(g, Path(g.tmp) / "out")
    cfg["method"] = {"kind": "inductive", "id": "supervised", "device": {"device": "cpu"}, "params": {}}
    mode = g.pick(["seeds", "num_runs"])
    base = cfg["run"]["seed"]
    if mode == "seeds":
        seeds = [int(s) for s in g.rng.permutation(20)[: g.int(1, 4)]]
        cfg["run"]["seeds"] = seeds
        nr = None
    else:
        nr = g.int(1, 4)
        seeds = [base + i for i in range(nr)]
        if g.bool():
            cfg["run"]["seeds"] = [3, 4]
    path = Path(g.tmp) / "c.yaml"
    path.write_text(yaml.safe_dump(cfg))
    calls = []
    p = Patch()
    try:
        def single(config_path, *, raw, cfg):
            calls.append((copy.deepcopy(raw), cfg))
            raw.setdefault("sampling", {})["spoiled"] = True  # what one run does to its configuration must not reach the next
            raw["preprocess"]["plan"]["steps"].clear()
            return SimpleNamespace(code=0, run_dir=None, run_json_path=None)
        p.set(bm, "_run_experiment_single", single)
        p.set(bm.report_orch, "write_seed_sweep_summary", lambda **k: None)
        rc = bm.run_experiment(path, num_runs=nr)
    finally:
        p.undo()
    g.require(rc == 0 and [c[0]["run"]["seed"] for c in calls] == seeds, f"the sweep ran seeds {[c[0]['run']['seed'] for c in calls]} instead of {seeds}")
    names = set()
    for (raw, c), s in zip(calls, seeds, strict=True):
        want = copy.deepcopy(cfg)
        want["run"].pop("seeds", None)
        want["run"].update(seed=s, name=raw["run"]["name"], output_dir=raw["run"]["output_dir"])
        for k in SECTIONS:
            if k in want:
                want[k]["seed"] = s
        d = same(want, raw)
        g.require(d is None, f"the run of seed {s} does not use the base configuration under that seed: {d}")
        g.require(c.run.seed == s and c.sampling.seed == s and c.preprocess.seed == s, "parsed configuration carries another seed")
        names.add(raw["run"]["name"])
    g.require(len(names) == len(seeds), "two runs of the sweep share a name")


SCENARIOS = [
    ("evaluation of inductive methods", s_inductive, 900, 3),
    ("evaluation of transductive methods and masks", s_transductive, 900, 2),
    ("rows preprocessing is fitted on", s_fit, 600, 1),
    ("row selection", s_rows, 1500, 2),
    ("configuration under a seed", s_sweep, 1500, 1),
    ("whole benchmark runs", s_run, 90, 6),
    ("seed sweeps", s_many, 60, 1),
]
