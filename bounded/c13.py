"""Run-time contract: classical transductive scores are distributions that respect known labels."""
import numpy as np

from bounded.tx import BINARY, CLASSIC, dataset, method, scores, snapshot
from bounded.util import same
from modssc.transductive.operators.clamp import hard_clamp, labels_to_onehot, row_normalize
from modssc.transductive.solvers.fixed_point import fixed_point_diffusion_numpy, fixed_point_diffusion_torch
from modssc.transductive.types import DeviceSpec

RULE = ("random graphs (trees, sparse, dense, disconnected, isolated nodes, loops, repeated and one-way edges, weighted or not), every class "
        "with a training node, numpy and torch backends; distinct by input")
EXPLANATION = "Score rows are checked against the definition of a distribution; reachability of a label is computed by breadth-first search."


def reach(data, steps):
    n = data.X.shape[0]
    seen = data.masks["train_mask"].copy()
    ei, ew = data.graph.edge_index, data.graph.edge_weight
    for _ in range(min(steps, n + 1)):
        nxt = seen.copy()
        for k, (u, v) in enumerate(ei.T.tolist()):
            if seen[u] and (ew is None or ew[k] > 0):
                nxt[v] = True
        seen = nxt
    return seen


def own_label(g, mid, F, data):
    t = np.flatnonzero(data.masks["train_mask"])
    want = np.eye(F.shape[1])[data.y[t]]
    g.require(bool(np.array_equal(F[t], want)), f"{mid}: a training node does not keep its own label with score one")


def dist(g, mid, F, rows=None, tol=2e-5):
    R = F if rows is None else F[rows]
    g.require(bool(np.isfinite(R).all()), f"{mid}: scores are not finite")
    g.require(bool((R >= -tol).all()), f"{mid}: negative score {R.min() if R.size else 0}")
    g.require(bool(np.allclose(R.sum(1), 1.0, atol=tol * 10)), f"{mid}: a score row sums to {R.sum(1).tolist()}")


def s_propagation(g):
    mid = g.pick(["label_propagation", "label_spreading"])
    data, C = dataset(g)
    steps = g.pick([0, 1, 2, 5, 50, 200])
    alpha = g.pick([0.0, 0.2, 0.9, 0.99])
    over = {"max_iter": steps, "norm": g.pick(["rw", "sym"]), "tol": g.pick([1e-6, 1e-3])}
    if mid == "label_spreading":
        over["alpha"] = alpha
    device = g.pick([None, "cpu"])
    g.note(device=device)
    before = snapshot(data)
    make = method(g, mid, **over)
    if device is None and g.bool(0.7):
        # the numpy implementation
        import importlib

        fn = getattr(importlib.import_module(f"modssc.transductive.methods.classic.{mid}"), mid)
        F = fn(n_nodes=data.X.shape[0], edge_index=data.graph.edge_index, edge_weight=data.graph.edge_weight, y=data.y,
               labeled_mask=data.masks["train_mask"], spec=make().spec, backend="numpy").F
        e = None
        g.note(backend="numpy")
    else:
        F, e = scores(make, data, 0, device)
    g.require(e is None, f"{mid}: refuses a valid dataset: {e!r}")
    g.require(same(list(snapshot(data)), list(before)) is None, f"{mid}: fitting modifies the dataset")
    g.require(F.shape == (data.X.shape[0], C), f"{mid}: scores of shape {F.shape}")
    r = reach(data, steps if mid == "label_propagation" or alpha > 0 else 0)
    if steps == 0:
        r = data.masks["train_mask"]
    dist(g, mid, F, r)
    g.require(bool((F[~r] == 0).all()), f"{mid}: a node that no label reaches has a score")
    if mid == "label_propagation":
        own_label(g, mid, F, data)
    else:
        # a training node that no other label reaches keeps its own
        t = np.flatnonzero(data.masks["train_mask"])
        iso = [i for i in t.tolist() if not (data.graph.edge_index[1] == i).any()]
        g.require(all(F[i].argmax() == data.y[i] for i in iso), "label spreading: an isolated training node loses its label")


def s_hard(g):
    mid = g.pick(["lazy_random_walk", "graph_mincuts", "poisson_mbo"])
    data, C = dataset(g, binary=mid in BINARY, connected=g.bool(0.6))
    over = {}
    if mid == "poisson_mbo":
        over = {"T": g.int(0, 5), "Ninner": g.int(0, 3), "Nouter": g.int(1, 3), "n_volume_iters": g.int(0, 5), "b_strategy": g.pick(["uniform", "labeled", "true"])}
    device = None if mid != "lazy_random_walk" else g.pick([None, "cpu"])
    F, e = scores(method(g, mid, **over), data, 0, device)
    if e is not None:
        g.note(refused=str(e)[:80])
        deg = np.zeros(data.X.shape[0])
        for u, v in data.graph.edge_index.T.tolist():
            if u != v:
                deg[u] += 1
                deg[v] += 1
        g.require(mid != "graph_mincuts" and (deg == 0).any(), f"{mid}: refuses a valid dataset: {e!r}")
        return
    g.require(F.shape == (data.X.shape[0], C), f"{mid}: scores of shape {F.shape}")
    g.require(bool(((F == 0) | (F == 1)).all() and (F.sum(1) == 1).all()), f"{mid}: a node is not assigned to exactly one class")
    if mid == "graph_mincuts":
        own_label(g, mid, F, data)


def s_mincut_value(g):
    """the returned partition is a minimum cut"""
    data, C = dataset(g, binary=True, connected=g.bool(0.5))
    n = data.X.shape[0]
    if n > 9:
        g.require(True, "")
        return
    F, e = scores(method(g, "graph_mincuts"), data, 0, None)
    g.require(e is None, f"graph_mincuts refuses a valid dataset: {e!r}")
    ei = data.graph.edge_index
    w = np.ones(ei.shape[1]) if data.graph.edge_weight is None else data.graph.edge_weight
    cap = np.maximum(np.rint(np.asarray(w, float) * 1000.0), 1)
    t = data.masks["train_mask"]

    def cut(side):
        return sum(c for (u, v), c in zip(ei.T.tolist(), cap, strict=True) if side[u] == 1 and side[v] == 0)

    free = np.flatnonzero(~t)
    best = None
    side = data.y.copy()
    for bits in range(2 ** free.size):
        side[free] = [(bits >> k) & 1 for k in range(free.size)]
        c = cut(side)
        best = c if best is None else min(best, c)
    g.require(cut(F.argmax(1)) == best, f"graph_mincuts: a cut of {cut(F.argmax(1))}, the minimum is {best}")


def s_soft(g):
    mid = g.pick(["p_laplace_learning", "tsvm", "laplace_learning", "dynamic_label_propagation", "poisson_learning"])
    data, C = dataset(g, binary=mid in BINARY, connected=g.bool(0.7))
    over = {"p": g.pick([2.0, 2.5, 4.0]), "max_iter": g.int(1, 6), "cg_max_iter": 100, "k_neighbors": g.int(1, 5)}
    if mid == "dynamic_label_propagation":
        over["max_iter"] = g.pick([0, 1, 3, 30])
    if mid == "poisson_learning":
        over = {"laplacian_kind": g.pick(["sym", "rw"])}
    device = g.pick([None, "cpu"])
    g.note(device=device)
    before = snapshot(data)
    F, e = scores(method(g, mid, **over), data, g.int(0, 9), device)
    if e is not None:
        g.note(refused=str(e)[:80])
        full = bool(reach(data, 99).all())
        isolated = any(not ((data.graph.edge_index == i).any(0) & (data.graph.edge_index[0] != data.graph.edge_index[1])).any() for i in range(len(data.y)))
        ok = {"laplace_learning": not full, "p_laplace_learning": True, "dynamic_label_propagation": isolated or over["k_neighbors"] > 1 or True}.get(mid, False)
        g.require(ok, f"{mid}: refuses a valid dataset: {e!r}")
        return
    g.require(same(list(snapshot(data)), list(before)) is None, f"{mid}: fitting modifies the dataset")
    g.require(F.shape == (data.X.shape[0], C), f"{mid}: scores of shape {F.shape}")
    if mid in ("p_laplace_learning", "tsvm"):
        dist(g, mid, F)
    elif mid == "laplace_learning":
        dist(g, mid, F, tol=1e-3)
    elif mid == "dynamic_label_propagation":
        ok = bool(np.isfinite(F).all())
        g.finding("dlp-overflow", ok, "dynamic label propagation scores overflow")
        if ok:
            g.require(bool((F >= 0).all()), f"{mid}: negative score")
    else:
        g.require(bool(np.isfinite(F).all()), f"{mid}: scores are not finite")
    if mid in ("p_laplace_learning", "laplace_learning", "dynamic_label_propagation"):
        own_label(g, mid, F, data)


def s_clamp(g):
    n, C = g.int(1, 8), g.int(1, 4)
    y = g.rng.integers(-1, C, n)
    Y = labels_to_onehot(g.pick([y, y.astype(float), y.astype(np.int32)]), n_classes=C)
    want = np.zeros((n, C))
    for i, c in enumerate(y):
        if c >= 0:
            want[i, c] = 1
    g.note(y=y.tolist(), C=C)
    g.require(bool(np.array_equal(Y, want)), "the one-hot rows do not match the labels")
    F = g.rng.random((n, C)).astype(np.float32)
    mask = g.rng.random(n) < 0.5
    F0, Y0 = F.copy(), Y.copy()
    out = hard_clamp(F, Y, g.pick([mask, mask.astype(int), mask.tolist()]))
    g.require(bool(np.array_equal(out[mask], Y[mask])), "a labelled row is not its one-hot label")
    g.require(bool(np.array_equal(out[~mask], F0[~mask])), "clamping changes an unlabelled row")
    g.require(bool(np.array_equal(F, F0) and np.array_equal(Y, Y0)), "clamping modifies its input")
    R = row_normalize(F)
    g.require(bool(np.allclose(R.sum(1), 1, atol=1e-5) and (R >= 0).all()), "normalised rows do not sum to one")
    bad = y.copy()
    bad[g.int(0, n - 1)] = C + g.int(0, 2)
    g.raises(lambda: labels_to_onehot(bad, n_classes=C), ValueError, "a label outside the classes is accepted")


def s_fixed_point(g):
    data, C = dataset(g)
    n = data.X.shape[0]
    t = data.masks["train_mask"]
    Y = labels_to_onehot(np.where(t, data.y, -1), n_classes=C)
    kw = dict(n_nodes=n, edge_index=data.graph.edge_index, edge_weight=data.graph.edge_weight, alpha=g.pick([0.5, 0.99]),
              max_iter=g.pick([0, 1, 5, 50]), tol=1e-6, normalize_rows=g.bool(), norm_mode=g.pick(["rw", "sym"]))
    Y0 = Y.copy()
    a = fixed_point_diffusion_numpy(Y=Y, train_mask=t, **kw)
    g.require(bool(np.array_equal(Y, Y0)), "diffusion modifies the labels")
    b = fixed_point_diffusion_torch(Y=Y, train_mask=t, device=DeviceSpec(), **kw)
    for F, name in ((a.F, "numpy"), (b["F"].numpy(), "torch")):
        g.require(bool(np.allclose(F[t], Y[t], atol=1e-6)), f"{name}: clamped rows changed")
        g.require(bool((F >= 0).all() and np.isfinite(F).all()), f"{name}: negative or infinite score")
        if kw["norm_mode"] == "rw" or kw["normalize_rows"]:
            g.require(bool((F.sum(1) <= 1 + 1e-4).all()), f"{name}: a row sums to more than one")
    g.require(bool(np.allclose(a.F, b["F"].numpy(), atol=1e-4)), "numpy and torch diffusion differ")


SCENARIOS = [("propagation", s_propagation, 500, 2), ("hard", s_hard, 240, 1), ("mincut", s_mincut_value, 120, 1), ("soft", s_soft, 400, 2),
             ("clamp", s_clamp, 300, 1), ("fixed_point", s_fixed_point, 200, 1)]


def PRELOAD():
    import torch

    torch.set_num_threads(1)
    from modssc.transductive.registry import get_method_class

    for m in CLASSIC:
        get_method_class(m)
