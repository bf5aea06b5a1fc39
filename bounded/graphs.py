"""Generators and mathematical oracles for graph construction."""
import numpy as np


def features(g, exact=None):
    """(X, exact): feature matrices; exact ones have small integer coordinates (no rounding in squared distances)"""
    exact = g.bool(0.6) if exact is None else exact
    n, d = g.pick([1, 2, 3, 5, 8, 13, 21, 40]), g.int(1, 4)
    if exact:
        X = g.rng.integers(-g.pick([1, 2, 6]), g.pick([2, 3, 7]), size=(n, d)).astype(g.pick([np.float64, np.float32, np.int64]))
    else:
        X = (g.rng.normal(size=(n, d)) * g.pick([0.1, 1, 5]) + g.pick([0, 0, 3])).astype(g.pick([np.float64, np.float32]))
    if g.bool(0.3) and n > 2:
        X[g.int(0, n - 1)] = X[g.int(0, n - 1)]
    if g.bool(0.15) and n > 4:
        X[: n // 2] = X[0]
    if g.bool(0.15):
        X = np.asfortranarray(X)
    g.note(n=n, d=d, exact=exact, dtype=str(X.dtype), X=np.array2string(X[:6], precision=3))
    return X, exact


def distances(X, metric):
    X = np.asarray(X, dtype=np.float64)
    if metric == "euclidean":
        return np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    nrm = np.maximum(np.sqrt((X ** 2).sum(1, keepdims=True)), 1e-12)
    Y = X / nrm
    return 1.0 - Y @ Y.T


def slack(X, metric, exact):
    """rounding allowance on distances computed in single precision"""
    if metric == "cosine":
        return 2e-5
    if exact:
        return 1e-6
    m = float((np.asarray(X, dtype=float) ** 2).sum(1).max()) if len(X) else 0.0
    return float(np.sqrt(1e-5 * max(m, 1e-12)) + 1e-6)


def adjacency(edge_index, weight=None):
    """{(u, v): [weights]}"""
    out = {}
    for i, (u, v) in enumerate(np.asarray(edge_index).T.tolist()):
        out.setdefault((u, v), []).append(None if weight is None else float(weight[i]))
    return out
