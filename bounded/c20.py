"""Run-time contract: filtering, limiting and slicing keep features and labels aligned."""
import copy

import numpy as np

from bench.errors import BenchRuntimeError
from bench.orchestrators.slicing import select_rows
from bounded.util import same
from modssc.data_loader.providers.common import apply_class_filter, apply_limits, apply_limits_to_split, limit_samples, normalize_filter
from modssc.data_loader.types import Split
from vf.gen import Skip

RULE = "datasets of 0-20 tagged rows, label types, class filters, limits, seeds and index lists (repeated, unsorted, empty), row containers (arrays, tensors, lists, dictionaries, graphs); distinct by input"
EXPLANATION = "Every row carries its own number, so alignment, order and uniqueness are read off the result."


def PRELOAD():
    import torch

    torch.set_num_threads(1)


def data(g):
    n = g.int(0, 20)
    tag = np.arange(n)
    y = g.rng.integers(0, g.pick([1, 2, 4]), n)
    kind = g.pick(["int", "str", "object", "gap", "float"])
    if kind != "int":
        names = {"str": np.array(["a", "b", "ab", "z"]), "object": np.array(["a", "b", "ab", "z"], dtype=object), "gap": np.array([-7, 100, 3, 0]), "float": np.array([0.5, 1.5, -2.0, 9.0])}[kind]
        y = names[y]
    X = {"2d": lambda: np.stack([tag, tag * 10], 1), "1d": lambda: tag.copy(), "obj": lambda: np.array([f"doc {i}" for i in range(n)] + [""], dtype=object)[:n],
         "3d": lambda: np.repeat(tag, 4).reshape(n, 2, 2)}[g.pick(["2d", "1d", "obj", "3d"])]()
    return n, X, y, kind


def rows_of(X):
    """the row numbers of tagged rows, checking that each row is intact"""
    out = []
    for r in X:
        if isinstance(r, str):
            out.append(int(r.split()[1]))
        else:
            v = np.asarray(r).ravel()
            t = int(v[0])
            assert v.tolist() in ([t], [t, 10 * t], [t] * 4), v
            out.append(t)
    return out


def s_limit(g):
    n, X, y, kind = data(g)
    vals = np.unique(y).tolist() + {"str": ["zz"], "object": ["zz"], "gap": [55], "int": [9], "float": [7.5]}[kind]
    cf = g.pick([None, None, [], g.rng.permutation(np.array(vals, dtype=object))[: g.int(1, 3)].tolist()])
    ms = g.pick([None, 0, -1, 1, g.int(1, 25), n])
    seed = g.pick([None, 0, g.int(0, 10**6)])
    g.note(n=n, y=y.tolist(), kind=kind, xshape=X.shape, class_filter=cf, max_samples=ms, seed=seed)
    kx, ky = X.copy(), y.copy()
    np.random.seed(g.int(0, 99))
    Xo, yo = apply_limits(X, y, class_filter=cf, max_samples=ms, seed=seed)
    g.require(same(X, kx) is None and same(y, ky) is None, "the input was modified")
    r = rows_of(Xo)
    g.require(len(r) == len(yo) == Xo.shape[0], "features and labels of another number", rows=len(r), labels=len(yo))
    g.require(ky[r].tolist() == yo.tolist() if r else len(yo) == 0, "labels do not belong to their rows", rows=r, labels=yo.tolist())
    g.require(len(set(r)) == len(r), "a sample was returned twice", rows=r)
    g.require(Xo.dtype == X.dtype and Xo.shape[1:] == X.shape[1:] and yo.dtype == y.dtype, "element type or row shape changed")
    keep = [i for i in range(n) if cf is None or any(ky[i] == v for v in cf)]
    g.require(set(r) <= set(keep), "a class that was not requested remains", rows=r)
    want = len(keep) if ms is None else max(0, min(len(keep), ms))
    g.require(len(r) == want, "another number of samples than the limit allows", got=len(r), wanted=want)
    if ms is None or seed is None:
        g.require(r == keep[:want], "without shuffling the samples are not in their original order", rows=r)
    np.random.seed(g.int(0, 99))
    X2, y2 = apply_limits(kx, ky, class_filter=cf, max_samples=ms, seed=seed)
    g.require(same(X2, Xo) is None and same(y2, yo) is None, "a second call selected other samples")
    # the pieces compose
    a = apply_class_filter(X, y, class_filter=cf)
    b = limit_samples(*a, max_samples=ms, seed=seed)
    g.require(same(b[0], Xo) is None and same(b[1], yo) is None, "limits are not the class filter followed by the size limit")
    s = Split(X=X, y=y)
    t = apply_limits_to_split(s, class_filter=cf, max_samples=ms, seed=seed)
    g.require(same(t.X, Xo) is None and same(t.y, yo) is None and same(s.X, kx) is None, "limiting a split differs from limiting its arrays")
    g.require(apply_limits_to_split(None, class_filter=cf, max_samples=ms, seed=seed) is None, "a missing split appeared")
    # larger limits with the same seed extend the selection
    if ms is not None and ms >= 0:
        X3, _ = apply_limits(X, y, class_filter=cf, max_samples=ms + g.int(1, 4), seed=seed)
        g.require(rows_of(X3)[: len(r)] == r, "a larger limit with the same seed selects other samples first")


def s_norm(g):
    v = g.pick([None, 3, "a", [1, 2], (1,), np.array([3, 4]), {5}, []])
    g.note(v=repr(v))
    r = normalize_filter(v)
    g.require(r is None if v is None else r == (list(v) if isinstance(v, (list, tuple, set, np.ndarray)) else [v]), "class filter changed by normalisation", got=r)


def s_rows(g):
    import torch

    n = g.int(1, 15)
    tag = np.arange(n)
    k = g.int(0, 18)
    idx = g.pick([lambda: g.rng.integers(0, n, k), lambda: g.rng.permutation(n)[: min(k, n)], lambda: np.sort(g.rng.permutation(n)[: min(k, n)])])()
    arg = g.pick([idx, idx.tolist(), idx.astype(np.int32)])
    base = {"np": np.stack([tag, tag * 10], 1), "np1": tag * 3, "torch": torch.as_tensor(np.stack([tag, -tag], 1)), "list": [f"r{i}" for i in range(n)], "obj": np.array([{"i": i} for i in range(n)] + [0], dtype=object)[:n]}
    kind = g.pick(["np", "np1", "torch", "list", "obj", "dict", "csr", "none"])
    g.note(n=n, idx=idx.tolist(), kind=kind)
    if kind == "none":
        g.require(select_rows(None, arg, context="t") is None, "rows selected from nothing")
        return
    if kind == "dict":
        X = {"x": base["np"], "m": base["torch"], "names": base["list"], "k": 5}
    elif kind == "csr":
        import scipy.sparse as sp

        X = sp.csr_matrix(base["np"])
    else:
        X = base[kind]
    keep = copy.deepcopy(X)
    out = select_rows(X, arg, context="t")
    want = [int(i) for i in idx]

    def check(o, src):
        if isinstance(src, list):
            g.require(isinstance(o, list) and o == [src[i] for i in want], "selected list entries are not the requested rows", got=o)
            return
        d = lambda v: v.toarray() if hasattr(v, "toarray") else v.numpy() if hasattr(v, "numpy") else v  # noqa: E731
        g.require(type(o) is type(src), "another container came back", got=type(o).__name__)
        g.require(same(d(o), d(src)[np.asarray(want, dtype=np.int64)]) is None, "selected rows are not the requested rows", got=d(o).tolist())

    if kind == "dict":
        g.require(set(out) == set(X) and out["k"] == 5, "dictionary entries lost")
        for f in ("x", "m", "names"):
            check(out[f], keep[f])
    else:
        check(out, keep)
    g.require(same(X, keep) is None, "the input was modified")
    if kind == "np" and idx.size and out.size:
        out[0, 0] = -99
        g.require(same(X, keep) is None, "selected rows share memory with the input")


def s_graph(g):
    """graph dictionaries: the induced subgraph in the numbering of the selection"""
    import torch

    try:
        import torch_geometric  # noqa: F401
    except ImportError:
        raise Skip() from None
    n, E = g.int(1, 10), g.int(0, 20)
    x = np.arange(n)[:, None] * 7.0
    ei = g.rng.integers(0, n, (2, E))
    idx = g.rng.permutation(n)[: g.int(1, n)]
    lib = g.pick(["np", "torch"])
    g.note(n=n, edges=ei.T.tolist(), idx=idx.tolist(), lib=lib)
    X = {"x": torch.as_tensor(x), "edge_index": torch.as_tensor(ei)} if lib == "torch" else {"x": x, "edge_index": ei}
    keep = copy.deepcopy(X)
    out = select_rows(X, idx, context="t")
    g.require(same(X, keep) is None, "the input was modified")
    xs = np.asarray(out["x"])
    g.require(xs[:, 0].tolist() == (idx * 7.0).tolist(), "node features are not the selected nodes", got=xs[:, 0].tolist())
    pos = {int(v): i for i, v in enumerate(idx)}
    want = sorted((pos[u], pos[v]) for u, v in ei.T.tolist() if u in pos and v in pos)
    got = sorted(map(tuple, np.asarray(out["edge_index"]).T.tolist()))
    g.require(got == want, "edges are not the induced subgraph in the order of the selection", got=got, wanted=want)


def s_bad(g):
    n = g.int(1, 6)
    X = g.pick([np.arange(n), list(range(n)), {"x": np.arange(n)}])
    g.note(n=n)
    g.raises(lambda: select_rows(X, [0, -1], context="t"), BenchRuntimeError, "a negative row index was accepted")
    if not isinstance(X, dict):
        g.raises(lambda: select_rows(X, [n], context="t"), Exception, "a row index out of range was accepted")


SCENARIOS = [("limit", s_limit, 2500, 2), ("norm", s_norm, 30, 1), ("rows", s_rows, 1500, 2), ("graph", s_graph, 300, 1), ("bad", s_bad, 40, 1)]
