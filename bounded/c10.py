"""Run-time contract: similarity graphs connect exactly the right neighbours."""
import numpy as np

from bounded.graphs import adjacency, distances, features, slack
from bounded.util import same
from modssc.graph import build_graph
from modssc.graph.construction.backends.faiss_backend import FaissParams, knn_edges_faiss
from modssc.graph.construction.backends.numpy_backend import epsilon_edges_numpy, knn_edges_numpy
from modssc.graph.construction.backends.sklearn_backend import epsilon_edges_sklearn, knn_edges_sklearn
from modssc.graph.construction.builder import build_raw_edges
from modssc.graph.construction.ops.weights import compute_edge_weights
from modssc.graph.construction.schemes.anchor import AnchorParams, anchor_edges
from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

RULE = "feature matrices (duplicates, ties, zero rows), metrics, back ends, k, radii and block sizes; distinct by input"
EXPLANATION = "Every graph is compared with all pairwise distances computed in double precision, up to the rounding of the single-precision distances."


def check_knn(g, X, ei, dist, k, metric, exact, include_self=False):
    n = len(X)
    D, tol = distances(X, metric), slack(X, metric, exact)
    g.require(ei.shape[0] == 2 and dist.shape == (ei.shape[1],), "edges and distances are not aligned")
    g.require(ei.size == 0 or (ei.min() >= 0 and ei.max() < n), "an edge leaves the node range")
    want = min(k, n) if include_self else min(k, n - 1)
    for i in range(n):
        nb = ei[1][ei[0] == i].tolist()
        g.require(len(nb) == want, f"node {i} has {len(nb)} neighbours instead of {want}")
        g.require(len(set(nb)) == len(nb), f"node {i} has a repeated neighbour")
        g.require(include_self or i not in nb, f"node {i} is its own neighbour")
        rest = [j for j in range(n) if j not in nb and (include_self or j != i)]
        if nb and rest:
            g.require(max(D[i, nb]) <= min(D[i, rest]) + tol, f"a neighbour of node {i} is farther than a node left out")
    g.require(np.all(np.abs(dist - D[ei[0], ei[1]]) <= tol + 1e-5 * np.abs(dist)), "an edge does not carry the metric's distance")


def s_knn(g):
    X, exact = features(g)
    metric = g.pick(["euclidean", "cosine"])
    if metric == "cosine":
        exact = False
        if g.bool(0.2):
            X[0] = 0
    k = g.pick([1, 2, 3, 5, len(X) - 1, len(X), len(X) + 3])
    k = max(1, k)
    # (the distance of a zero row to itself is a matter of convention under the cosine metric)
    inc = g.bool(0.15) and (metric != "cosine" or bool((np.abs(X).sum(1) > 0).all()))
    chunk = g.pick([1, 2, 3, 7, 512])
    backend = g.pick(["numpy", "numpy", "sklearn", "faiss"])
    g.note(metric=metric, k=k, include_self=inc, chunk=chunk, backend=backend)
    keep = X.copy()
    if backend == "numpy":
        ei, d = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=chunk, work_dir=g.pick([None, g.tmp + "/w"]), resume=True)
    elif backend == "sklearn":
        ei, d = knn_edges_sklearn(X, k=k, metric=metric, include_self=inc)
    else:
        inc = False
        ei, d = knn_edges_faiss(X, k=k, metric=metric, params=FaissParams(exact=True))
    g.require(same(keep, X) is None, "building the graph modifies the features")
    check_knn(g, X, ei, d, k, metric, exact, inc)
    if backend == "numpy":
        ei2, d2 = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=g.pick([1, 2, 5, 64]))
        if exact and metric == "euclidean":
            g.require(same((ei, d), (ei2, d2)) is None, "the block size changes the graph")
        else:
            for i in range(len(X)):
                a, b = np.sort(d[ei[0] == i]), np.sort(d2[ei2[0] == i])
                g.require(a.shape == b.shape and np.allclose(a, b, atol=slack(X, metric, exact)), "the block size changes the graph")
        ei3, d3 = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=chunk, work_dir=g.tmp + "/w2", resume=True)
        other = g.pick([1, 2, 3, 5, 64])
        ei5, d5 = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=other, work_dir=g.tmp + "/w2", resume=True)
        ei6, d6 = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=other)
        g.require(same((ei5, d5), (ei6, d6)) is None, "resuming a run with another block size changes the graph")
        ei4, d4 = knn_edges_numpy(X, k=k, metric=metric, include_self=inc, chunk_size=chunk, work_dir=g.tmp + "/w2", resume=g.bool(0.8))
        g.require(same((ei, d), (ei3, d3)) is None and same((ei, d), (ei4, d4)) is None, "resuming from stored blocks changes the graph")


def s_radius(g):
    X, exact = features(g)
    metric = g.pick(["euclidean", "cosine"])
    if metric == "cosine":
        exact = False
    r = g.pick([1.0, 2.0, 3.0, g.real(0.05, 4)]) if metric == "euclidean" else g.real(0.02, 1.9)
    inc, chunk = g.bool(0.2), g.pick([1, 2, 3, 512])
    backend = g.pick(["numpy", "sklearn"])
    g.note(metric=metric, radius=r, include_self=inc, chunk=chunk, backend=backend)
    if backend == "numpy":
        ei, d = epsilon_edges_numpy(X, radius=r, metric=metric, include_self=inc, chunk_size=chunk, work_dir=g.pick([None, g.tmp + "/w"]), resume=True)
    else:
        ei, d = epsilon_edges_sklearn(X, radius=r, metric=metric, include_self=inc)
    n = len(X)
    D, tol = distances(X, metric), slack(X, metric, exact)
    g.require(ei.size == 0 or (ei.min() >= 0 and ei.max() < n), "an edge leaves the node range")
    adj = adjacency(ei, d)
    edge_exact = exact and float(r).is_integer()
    for i in range(n):
        for j in range(n):
            if i == j:
                if not inc:
                    g.require((i, i) not in adj, "a node is its own neighbour")
                continue
            if edge_exact:
                want = round(D[i, j] ** 2) <= r * r
            elif abs(D[i, j] - r) <= 3 * tol:
                continue
            else:
                want = D[i, j] <= r
            got = adj.get((i, j), [])
            g.require(len(got) == (1 if want else 0), f"pair ({i}, {j}) at distance {D[i, j]:.6g} with radius {r:.6g}: {len(got)} edges")
            if got:
                g.require(abs(got[0] - D[i, j]) <= tol + 1e-5 * D[i, j], "an edge does not carry the metric's distance")
    if inc and metric == "euclidean":
        g.require(all((i, i) in adj for i in range(n)), "a self neighbour is missing although requested")
    if backend == "numpy":
        ei2, d2 = epsilon_edges_numpy(X, radius=r, metric=metric, include_self=inc, chunk_size=g.pick([1, 2, 5, 64]))
        if exact and metric == "euclidean":
            g.require(same((ei, d), (ei2, d2)) is None, "the block size changes the graph")
        for other in (chunk, g.pick([1, 2, 3, 5, 64])):
            a = epsilon_edges_numpy(X, radius=r, metric=metric, include_self=inc, chunk_size=other, work_dir=g.tmp + "/w2", resume=True)
            b = epsilon_edges_numpy(X, radius=r, metric=metric, include_self=inc, chunk_size=other)
            g.require(same(tuple(a), tuple(b)) is None, "stored blocks of another run change the graph")


def s_anchor(g):
    X, exact = features(g)
    n = len(X)
    metric = g.pick(["euclidean", "cosine"])
    exact = exact and metric == "euclidean"
    k = g.int(1, n + 2)
    m = g.pick([None, 1, 2, n])
    full = g.bool(0.4)
    m_eff = min(max(1, int(max(10, round(np.sqrt(n)))) if m is None else m), n)
    params = AnchorParams(n_anchors=m, anchors_k=m_eff if full else g.int(1, 4), candidate_limit=1000 if full else g.pick([1, 3, 1000]), chunk_size=g.pick([1, 3, 512]))
    backend = g.pick(["numpy", "sklearn"])
    seed = g.int(0, 99)
    g.note(metric=metric, k=k, params=str(params), backend=backend, seed=seed)
    ei, d = anchor_edges(X, k=k, metric=metric, backend=backend, seed=seed, params=params)
    if full:
        check_knn(g, X, ei, d, k, metric, exact)
    else:
        D, tol = distances(X, metric), slack(X, metric, exact)
        for i in range(n):
            nb = ei[1][ei[0] == i].tolist()
            g.require(len(set(nb)) == len(nb) <= min(k, n - 1, params.candidate_limit) and i not in nb, "an anchor graph node has a wrong neighbour list")
        g.require(np.all(np.abs(d - D[ei[0], ei[1]]) <= tol + 1e-5), "an edge does not carry the metric's distance")
    g.require(same((ei, d), anchor_edges(X, k=k, metric=metric, backend=backend, seed=seed, params=params)) is None, "the same request gives another graph")


def s_build(g):
    """the whole construction: raw edges, weights, self loops"""
    X, exact = features(g)
    n = len(X)
    metric = g.pick(["euclidean", "cosine"])
    exact = exact and metric == "euclidean"
    scheme = g.pick(["knn", "knn", "epsilon"])
    kind = g.pick(["binary", "heat", "cosine"] if metric == "cosine" else ["binary", "heat"])
    sigma = g.real(0.3, 3)
    spec = GraphBuilderSpec(scheme=scheme, metric=metric, k=g.int(1, n + 2), radius=g.real(0.1, 3) if metric == "euclidean" else g.real(0.05, 1.5),
                            symmetrize="none", weights=GraphWeightsSpec(kind, sigma=sigma), normalize="none", self_loops=g.bool(),
                            backend=g.pick(["auto", "numpy", "sklearn", "faiss"] if scheme == "knn" else ["auto", "numpy", "sklearn"]), chunk_size=g.pick([1, 2, 5, 512]), faiss_exact=True)
    g.note(spec=str(spec))
    keep = X.copy()
    gr = build_graph(X, spec=spec, seed=g.int(0, 9), cache=False)
    g.require(same(keep, X) is None, "building the graph modifies the features")
    ei, w = gr.edge_index, gr.edge_weight
    loops = ei[0] == ei[1]
    g.require(int(loops.sum()) == (n if spec.self_loops else 0) and len(set(ei[0][loops].tolist())) == int(loops.sum()), "the requested self-loop rule is not respected")
    D, tol = distances(X, metric), slack(X, metric, exact)
    e, we = ei[:, ~loops], w[~loops]
    d = D[e[0], e[1]]
    want = {"binary": lambda d: np.ones_like(d), "heat": lambda d: np.exp(-d * d / (2 * sigma * sigma)), "cosine": lambda d: 1 - d}[kind]
    lo, hi = want(np.maximum(d + tol, 0) if kind != "cosine" else d + tol), want(np.maximum(d - tol, 0) if kind != "cosine" else d - tol)
    g.require(np.all(we >= np.minimum(lo, hi) - 1e-5) and np.all(we <= np.maximum(lo, hi) + 1e-5), "edge weights are not the documented function of the distances")
    if scheme == "knn":
        check_knn(g, X, e, d.astype(np.float32), spec.k, metric, exact)
    else:
        adj = adjacency(e)
        for i in range(n):
            for j in range(n):
                if i != j and abs(D[i, j] - spec.radius) > 3 * tol:
                    g.require(((i, j) in adj) == (D[i, j] <= spec.radius), f"pair ({i}, {j}) at distance {D[i, j]:.6g} with radius {spec.radius:.6g}")
    raw, rd = build_raw_edges(X, spec=spec, seed=0)
    g.require(same(compute_edge_weights(distances=rd, metric=metric, weights=spec.weights), we) is None and same(raw, e) is None, "the graph is not made of its raw edges")


def s_refuse(g):
    X, _ = features(g)
    bad = g.pick([dict(k=0), dict(k=-1), dict(k=None), dict(scheme="epsilon", radius=0.0), dict(scheme="epsilon", radius=None), dict(metric="manhattan"), dict(chunk_size=0),
                  dict(weights=GraphWeightsSpec("cosine")), dict(weights=GraphWeightsSpec("heat", sigma=0.0)), dict(symmetrize="and"), dict(normalize="x"), dict(scheme="tree"), dict(backend="gpu")])
    base = dict(scheme="knn", metric="euclidean", k=2, radius=1.0, weights=GraphWeightsSpec("binary"), symmetrize="none", normalize="none")
    g.note(bad=str(bad))
    from modssc.graph.errors import GraphValidationError

    g.raises(lambda: build_graph(X, spec=GraphBuilderSpec(**{**base, **bad}), cache=False), GraphValidationError, "an invalid graph specification is accepted")


SCENARIOS = [("knn", s_knn, 700, 2), ("radius", s_radius, 500, 2), ("anchor", s_anchor, 300, 1), ("build", s_build, 400, 1), ("refuse", s_refuse, 60, 1)]
