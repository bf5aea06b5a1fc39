"""Run-time contract: classifiers predict known labels with normalised scores."""
import copy

import numpy as np

from bounded.util import close, same
from modssc.supervised.api import available_classifiers, create_classifier
from modssc.supervised.backends.numpy.knn import NumpyKNNClassifier
from modssc.supervised.backends.torch.knn import TorchKNNClassifier
from modssc.supervised.utils import encode_labels, onehot
from vf.gen import Skip

RULE = "training sets of 1-14 points on an integer grid (ties and duplicates) or in general position, label types, k, metrics, weights and batch sizes; distinct by training set, query and parameters"
EXPLANATION = "Votes are compared with an exact neighbour search (any choice among equally distant points is allowed at the k-th place)."


def PRELOAD():
    import torch

    torch.set_num_threads(1)


def labels(g, n, torch_only=False):
    c = g.int(1, 4)
    pool = g.pick([[0, 1, 2, 3], [5, -3, 100, 7], [2, 1, 0, 9]] + ([] if torch_only else
                  [["b", "a", "zz", "Ab"], [0.5, -1.5, 2.0, 3.25], [True, False, True, False], [10**12, 3, -(10**13), 4]]))[:c]
    y = np.array([pool[i] for i in g.rng.integers(0, c, n)])
    if y.dtype.kind == "i" and abs(y).max() < 100 and g.bool(0.3):
        y = y.astype(np.int8 if y.min() < 0 else g.pick([np.uint8, np.int32]))
    if y.dtype.kind == "U" and g.bool(0.4):
        y = y.astype(object)
    return y


def s_encode(g):
    y = labels(g, g.int(0, 12) or 1)
    if g.bool(0.05):
        y = y[:0]
    kind = g.pick(["array", "list", "torch", "column"])
    g.note(y=y.tolist(), dtype=str(y.dtype), kind=kind)
    if kind == "torch" and y.dtype.kind not in "biu":
        raise Skip()
    if kind == "torch":
        import torch

        arg = torch.as_tensor(y)
    else:
        arg = {"array": y, "list": y.tolist(), "column": y.reshape(-1, 1)}[kind]
    if kind == "list" and not y.size:
        raise Skip()
    before = copy.deepcopy(arg)
    e, c = encode_labels(arg)
    g.require(same(before, arg) is None, "the labels were modified")
    g.require(e.shape == y.shape and e.dtype == np.int64, "encoded labels have another shape or type")
    g.require(bool(np.all(c[:-1] < c[1:])) and set(c.tolist()) == set(y.tolist()), "classes are not the sorted distinct labels", classes=c.tolist())
    g.require(y.size == 0 or (e.min() >= 0 and e.max() < c.size), "an encoded label is out of range")
    g.require(set(e.tolist()) == set(range(c.size)), "encoded labels are not consecutive")
    g.require(c[e].tolist() == y.tolist(), "labels do not decode to themselves", decoded=c[e].tolist())
    o = onehot(e, c.size)
    g.require(o.shape == (y.size, c.size) and bool(np.all((o == 0) | (o == 1))) and bool(np.all(o.sum(1) == 1)) and (not y.size or o.argmax(1).tolist() == e.tolist()), "not the one-hot encoding")


def votes(D, k, w_of, tol, enc, ncls):
    """(lower, upper) score bounds per class for one query with distances D"""
    o = np.sort(D)
    kth = o[k - 1]
    must, tie = D < kth - tol, np.abs(D - kth) <= tol
    w = w_of(D)
    lo = np.bincount(enc[must], weights=w[must], minlength=ncls)
    left = k - int(must.sum())
    # the number of tied points per class that may vote
    tc = np.bincount(enc[tie], minlength=ncls)
    others = int(tie.sum()) - tc
    wt = w[tie].mean()
    total = lo.sum() + left * wt
    return (lo + np.maximum(left - others, 0) * wt) / total, (lo + np.minimum(tc, left) * wt) / total


def s_knn(g):
    back = g.pick(["numpy", "torch"])
    n, m, d = g.int(1, 14), g.int(1, 9), g.int(1, 4)
    grid = g.bool(0.7)
    mk = (lambda q: g.rng.integers(-3, 4, (q, d)).astype(float)) if grid else (lambda q: g.rng.normal(size=(q, d)))  # noqa: E731
    X, Q, y = mk(n), mk(m), labels(g, n, back == "torch")
    if g.bool(0.3):
        Q[: min(n, m)] = X[: min(n, m)]
    k, metric, weights = g.int(1, n + 2), g.pick(["euclidean", "euclidean", "cosine"]), g.pick(["uniform", "distance"])
    bs = g.pick([1024, 1, 2, 3, m, max(1, m - 1)])
    g.note(back=back, X=X.round(3).tolist(), y=y.tolist(), Q=Q.round(3).tolist(), k=k, metric=metric, weights=weights, batch_size=bs)
    dt = g.pick([np.float32, np.float64])
    X, Q = X.astype(dt), Q.astype(dt)
    again = g.pick([0, 0, 1, 2])
    g.note(refit=again)

    def run(batch, q):
        if back == "numpy":
            c = NumpyKNNClassifier(k=k, metric=metric, weights=weights, batch_size=batch)
            a, b, qq = X, y, q
        else:
            import torch

            c = TorchKNNClassifier(k=k, metric=metric, weights=weights, batch_size=batch)
            a, b, qq = torch.as_tensor(X), torch.as_tensor(y), torch.as_tensor(q)
        keep = copy.deepcopy((a, b, qq))
        if again:  # an earlier fit leaves no trace
            s = slice(None, None, -1) if again == 1 else slice(0, max(1, n // 2))
            flip = (lambda v, s: v[s]) if back == "numpy" else (lambda v, s: v[np.arange(len(v))[s].copy()])  # noqa: E731
            c.fit(flip(a, s) + 1, flip(b, slice(None, None, 1) if again == 1 else s))
            c.predict(qq)
        r = c.fit(a, b)
        P, p = c.predict_proba(qq), c.predict(qq)
        S = c.predict_scores(qq)
        g.require(same(keep, (a, b, qq)) is None, "the classifier modified its data")
        g.require((r.n_samples, r.n_features, r.n_classes) == (n, d, len(set(y.tolist()))), "fit reports wrong sizes")
        conv = (lambda v: v.numpy() if hasattr(v, "numpy") else np.asarray(v))  # noqa: E731
        g.require(same(conv(P), conv(S)) is None, "scores differ from probabilities")
        return np.asarray(c.classes_), conv(P), conv(p)

    classes, P, p = run(bs, Q)
    g.require(sorted(set(y.tolist())) == classes.tolist(), "class list is not the sorted distinct labels")
    g.require(P.shape == (m, classes.size) and bool(np.all(np.isfinite(P))) and bool(np.all(P >= 0)), "scores have the wrong shape, are negative or not finite")
    g.require(close(P.sum(1), np.ones(m), atol=1e-4), "score rows do not sum to one", sums=P.sum(1).tolist())
    g.require(set(p.tolist()) <= set(y.tolist()), "an unseen label was predicted", got=p.tolist())
    enc = {c: i for i, c in enumerate(classes.tolist())}
    pe = np.array([enc[v] for v in p.tolist()])
    g.require(bool(np.all(P[np.arange(m), pe] == P.max(1))), "the predicted class has not the highest score")
    kk = min(k, n)
    A, B = X.astype(float), Q.astype(float)
    if metric == "euclidean":
        D = ((B[:, None] - A[None]) ** 2).sum(-1)
    else:
        na, nb = np.linalg.norm(A, axis=1) + 1e-12, np.linalg.norm(B, axis=1) + 1e-12
        D = 1 - (B / nb[:, None]) @ (A / na[:, None]).T
    tol = (0.25 if grid else 1e-5) if metric == "euclidean" else 1e-5
    ye = np.array([enc[v] for v in y.tolist()])
    exact = True
    for i in range(m):
        if weights == "distance" and (D[i].min() < 1e-3 and not (metric == "euclidean" and grid)):
            continue
        w_of = (lambda v: np.ones_like(v)) if weights == "uniform" else (lambda v: 1 / (np.maximum(v, 0) + 1e-12))  # noqa: E731
        lo, hi = votes(D[i], kk, w_of, tol, ye, classes.size)
        g.require(bool(np.all(P[i] >= lo - 2e-3)) and bool(np.all(P[i] <= hi + 2e-3)), "other points than the k nearest voted", query=i, scores=P[i].tolist(), lower=lo.tolist(), upper=hi.tolist())
        if weights == "uniform":
            g.require(close(P[i] * kk, np.round(P[i] * kk), atol=1e-3), "not k votes", scores=P[i].tolist())
        o = np.sort(D[i])
        exact = exact and (kk == n or o[kk] - o[kk - 1] > 2e-5)
    # batches
    _, P2, p2 = run(max(1, m) if bs != m else 1, Q)
    if (metric == "euclidean" and grid) or exact:
        g.require(close(P, P2, atol=1e-4), "batch size changed the scores")
    if metric == "euclidean" and grid:
        g.require(p.tolist() == p2.tolist(), "batch size changed the predictions")
        j = g.int(0, m - 1)
        _, P3, p3 = run(bs, Q[j:j + 1])
        g.require(close(P3[0], P[j], atol=1e-4) and p3.tolist() == p[j:j + 1].tolist(), "the other queries of a call changed the result of a query")


SMALL = {"extra_trees": {"n_estimators": 5}, "random_forest": {"n_estimators": 5}, "gradient_boosting": {"n_estimators": 3}, "mlp": {"max_epochs": 2}, "logreg": {"max_iter": 20}}
TAB = ["bernoulli_nb", "extra_trees", "gaussian_nb", "gradient_boosting", "knn", "linear_svm", "logreg", "mlp", "multinomial_nb", "random_forest", "ridge", "svm_rbf"]


def s_any(g):
    """every built-in classifier of tables"""
    have = {d["key"]: list(d["backends"]) for d in available_classifiers(available_only=True)}
    cid = g.pick(TAB)
    if not have.get(cid):
        raise Skip()
    back = g.pick(have[cid])
    n, m, d = g.int(8, 24), g.int(1, 6), g.int(1, 4)
    X, Q = np.abs(g.rng.normal(size=(n, d))).astype(np.float32), np.abs(g.rng.normal(size=(m, d))).astype(np.float32)
    y = labels(g, n, back == "torch")
    vals = np.unique(y)
    if vals.size < 2 or min(np.sum(y == v) for v in vals) < 2:
        raise Skip()
    g.note(classifier=cid, backend=back, n=n, m=m, d=d, y=y.tolist())
    import inspect

    def make():
        ps = dict(SMALL.get(cid, {}))
        try:
            return create_classifier(cid, backend=back, params={**ps, "seed": 3})
        except TypeError:
            return create_classifier(cid, backend=back, params={"seed": 3})

    a, b, q = X, y, Q
    if back == "torch":
        import torch

        a, b, q = torch.as_tensor(X), torch.as_tensor(y), torch.as_tensor(Q)
    keep = copy.deepcopy((a, b, q))
    c = make()
    conv = (lambda v: v.detach().numpy() if hasattr(v, "detach") else np.asarray(v))  # noqa: E731
    c.fit(a, b)
    p, S = conv(c.predict(q)), conv(c.predict_scores(q))
    g.require(same(keep, (a, b, q)) is None, "the classifier modified its data")
    g.require(np.asarray(c.classes_).tolist() == vals.tolist(), "class list is not the sorted distinct labels")
    g.require(p.shape == (m,) and set(p.tolist()) <= set(y.tolist()), "an unseen label was predicted", got=p.tolist())
    g.require(S.shape == (m, vals.size) and bool(np.all(np.isfinite(S))), "scores do not have one column per class", shape=S.shape)
    enc = {v: i for i, v in enumerate(vals.tolist())}
    pe = np.array([enc[v] for v in p.tolist()])
    if cid != "svm_rbf":  # its probabilities are calibrated separately from its decisions
        g.require(close(S[np.arange(m), pe], S.max(1), atol=1e-5), "the predicted class has not the highest score", scores=S.tolist(), predicted=p.tolist())
    if c.supports_proba:
        P = conv(c.predict_proba(q))
        g.require(P.shape == (m, vals.size) and bool(np.all(P >= 0)) and close(P.sum(1), np.ones(m), atol=1e-3), "probability rows are not distributions", rows=P.tolist())
    c2 = make()
    if g.bool(0.4):  # an earlier fit leaves no trace
        g.note(refit=True)
        if back == "torch":
            c2.fit(a[np.arange(n)[::-1].copy()] * 2, b)
        else:
            c2.fit(a[::-1] * 2, b)
        c2.predict(q)
    c2.fit(copy.deepcopy(a), copy.deepcopy(b))
    g.require(conv(c2.predict(q)).tolist() == p.tolist() and close(conv(c2.predict_scores(q)), S, atol=1e-5), "the same seed gave another classifier")


SCENARIOS = [("encode", s_encode, 800, 1), ("knn", s_knn, 2500, 4), ("any", s_any, 120, 2)]
