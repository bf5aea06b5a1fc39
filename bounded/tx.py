"""Generators for transductive methods."""
import copy
import dataclasses
from types import SimpleNamespace

import numpy as np

from modssc.transductive.registry import get_method_class

SMALL = {
    "max_epochs": lambda g: g.int(2, 5), "patience": lambda g: g.pick([1, 2, 50]), "hidden_dim": lambda g: g.pick([4, 6]),
    "hidden_dims": lambda g: (4, 4), "num_layers": lambda g: g.int(3, 4), "embedding_dim": lambda g: 4, "num_walks": lambda g: 1,
    "walk_length": lambda g: 4, "batch_size": lambda g: 16, "sup_batch_size": lambda g: 8, "num_samples": lambda g: 2,
    "prop_steps": lambda g: 2, "K": lambda g: 2, "r": lambda g: 1, "heads": lambda g: 2, "n_heads": lambda g: 2, "channels": lambda g: 2,
}
BINARY = {"lazy_random_walk", "graph_mincuts", "tsvm"}
CLASSIC = ["label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation",
           "graph_mincuts", "tsvm", "poisson_learning", "poisson_mbo", "p_laplace_learning"]
GNN = ["chebnet", "planetoid", "gcn", "graphsage", "gat", "sgc", "appnp", "h_gcn", "n_gcn", "graphhop", "grafn", "gcnii", "grand"]


def dataset(g, binary=False, nonneg=True, all_train=True, connected=None):
    """a valid node dataset; every class has a training node"""
    C = 2 if binary else g.int(2, 3)
    n = C + g.pick([0, 1, 2, 4, 6, 9])
    d = g.int(1, 4)
    X = g.rng.normal(size=(n, d)).astype(g.pick([np.float32, np.float64]))
    y = g.rng.permutation(np.concatenate([np.arange(C), g.rng.integers(0, C, n - C)])).astype(np.int64)
    train = np.zeros(n, bool)
    for c in range(C):
        train[g.rng.choice(np.flatnonzero(y == c))] = True
    train |= g.rng.random(n) < g.pick([0, 0.2, 0.5, 1.0])
    kind = g.pick(["sparse", "dense", "split"]) if not connected else "tree"
    pairs = []
    if connected:
        perm = g.rng.permutation(n)
        pairs = [(int(perm[i]), int(perm[g.int(0, i - 1)])) for i in range(1, n)]
    p = {"sparse": 0.15, "dense": 0.6, "split": 0.3, "tree": 0.1}[kind]
    for i in range(n):
        for j in range(i + 1, n):
            if g.rng.random() < p and not (kind == "split" and (i < n // 2) != (j < n // 2)):
                pairs.append((i, j))
    if g.bool(0.2):
        pairs += [(i, i) for i in range(n) if g.bool()]
    if g.bool(0.2) and pairs:
        pairs.append(pairs[0])
    e = [(u, v) for u, v in pairs]
    w = [1.0] * len(e)
    if g.bool(0.5):
        w = (g.rng.random(len(e)) * 2 + 0.05).tolist()
    sym = connected or g.bool(0.8)
    if sym:
        w = w + [x for (u, v), x in zip(e, w, strict=True) if u != v]
        e = e + [(v, u) for u, v in e if u != v]
    ei = np.array(e, dtype=np.int64).reshape(-1, 2).T
    ew = np.array(w, dtype=np.float32) if g.bool(0.7) or any(x != 1.0 for x in w) else None
    masks = {"train_mask": train}
    rest = np.flatnonzero(~train)
    val = np.zeros(n, bool)
    val[rest[g.rng.random(rest.size) < 0.4]] = True
    if g.bool(0.4):
        masks["val_mask"] = val
    if g.bool(0.4):
        masks["test_mask"] = ~train & ~val
    if g.bool(0.3):
        masks["unlabeled_mask"] = ~train
    g.note(n=n, C=C, y=y.tolist(), train=np.flatnonzero(train).tolist(), edges=e, w=np.round(w, 3).tolist(), masks=sorted(masks))
    return SimpleNamespace(X=X, y=y, graph=SimpleNamespace(edge_index=ei, edge_weight=ew), masks=masks, meta=None), C


def method(g, mid, **over):
    cls = get_method_class(mid)
    spec = cls().spec
    kw = {f.name: SMALL[f.name](g) for f in dataclasses.fields(spec) if f.name in SMALL}
    kw.update({k: v for k, v in over.items() if k in {f.name for f in dataclasses.fields(spec)}})
    g.note(method=mid, spec=kw)
    return lambda: cls(dataclasses.replace(spec, **kw))


def snapshot(data):
    return copy.deepcopy((data.X, data.y, data.graph.edge_index, data.graph.edge_weight, data.masks, data.meta))


def scores(make, data, seed, device, noise=0):
    """fitted scores, or the refusal; noise seeds the global generators, which must not matter"""
    import torch

    torch.set_num_threads(1)
    torch.manual_seed(noise)
    np.random.seed(noise)
    try:
        m = make()
        m.fit(data, device=device, seed=seed)
        return np.asarray(m.predict_proba(data)), None
    except (ValueError, RuntimeError) as e:
        return None, e
