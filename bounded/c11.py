"""Run-time contract: graph post-processing keeps the graph well formed."""
import copy

import numpy as np

from bounded.graphs import adjacency, features
from bounded.util import close, same
from modssc.graph import build_graph
from modssc.graph.artifacts import DatasetViews, GraphArtifact, NodeDataset
from modssc.graph.construction.ops.normalize import normalize_edge_weights
from modssc.graph.construction.ops.self_loops import add_self_loops
from modssc.graph.construction.ops.symmetrize import symmetrize_edges
from modssc.graph.errors import GraphValidationError
from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec
from modssc.graph.validation import validate_edge_index, validate_view_matrix

RULE = "edge lists with loops, one-way and two-way pairs, repeated edges, with and without weights; distinct by input"
EXPLANATION = "Every result is compared with the set-theoretic definition computed edge by edge."


def edges(g, dup=True):
    n = g.int(1, 8)
    E = g.pick([0, 1, 2, 5, 12, 30])
    ei = g.rng.integers(0, n, size=(2, E))
    if not dup:
        ei = np.array(sorted({(u, v) for u, v in ei.T.tolist()}), dtype=np.int64).reshape(-1, 2).T
        ei = ei[:, g.rng.permutation(ei.shape[1])]
    w = None
    if g.bool(0.7):
        w = g.pick([lambda m: g.rng.random(m) + 0.01, lambda m: g.rng.integers(1, 5, m), lambda m: g.rng.normal(size=m)])(ei.shape[1]).astype(g.pick([np.float32, np.float64]))
    if g.bool(0.15):
        ei = ei.astype(np.int32)
    g.note(n=n, edges=ei.T.tolist(), weights=None if w is None else np.round(w, 3).tolist())
    return n, ei, w


def s_symmetrize(g):
    n, ei, w = edges(g)
    mode = g.pick(["or", "mutual", "none"])
    g.note(mode=mode)
    a, b = ei.copy(), None if w is None else w.copy()
    oe, ow = symmetrize_edges(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)
    g.require(same(a, ei) is None and same(b, w) is None, "symmetrising modifies its input")
    if mode == "none":
        g.require(same(oe, ei) is None and same(ow, w) is None, "mode 'none' changes the graph")
        return
    g.require((ow is None) == (w is None), "weights appear or disappear")
    g.require(oe.shape[0] == 2 and (ow is None or ow.shape == (oe.shape[1],)), "edges and weights are not aligned")
    src = {k: (None if w is None else np.float32(max(v))) for k, v in adjacency(ei, None if w is None else w.astype(np.float32)).items()}
    want = {}
    for (u, v), x in src.items():
        if u == v:
            want[u, u] = x
        elif (v, u) in src:
            m = None if x is None else 0.5 * (float(x) + float(src[v, u]))
            want[u, v] = want[v, u] = m
        elif mode == "or":
            want[u, v] = want[v, u] = x
    got = adjacency(oe, ow)
    g.require(all(len(v) == 1 for v in got.values()), "an edge is repeated")
    g.require(set(got) == set(want), f"edges {sorted(set(got) ^ set(want))[:4]} are wrong")
    for k, v in got.items():
        if w is not None:
            g.require(abs(v[0] - float(want[k])) <= 1e-5 * (1 + abs(float(want[k]))), f"edge {k} has weight {v[0]} instead of {want[k]}")
            g.require(v[0] == got[k[1], k[0]][0], "the two directions carry different weights")


def s_loops(g):
    n, ei, w = edges(g)
    wt = g.pick([1.0, 0.25, 3.0])
    a, b = ei.copy(), None if w is None else w.copy()
    oe, ow = add_self_loops(n_nodes=n, edge_index=ei, edge_weight=w, weight=wt)
    g.require(same(a, ei) is None and same(b, w) is None, "adding loops modifies its input")
    g.require((ow is None) == (w is None) and (ow is None or len(ow) == oe.shape[1]), "edges and weights are not aligned")
    E = ei.shape[1]
    g.require(same(np.asarray(oe[:, :E]), ei, strict=False) is None, "adding loops changes an edge")
    g.require(ow is None or close(ow[:E], w, atol=1e-6), "adding loops changes a weight")
    new = oe[:, E:].T.tolist()
    missing = [i for i in range(n) if (i, i) not in adjacency(ei)]
    g.require(sorted(map(tuple, new)) == [(i, i) for i in missing], f"loops added at {new} instead of {missing}")
    g.require(ow is None or np.all(ow[E:] == np.float32(wt)), "a new loop has a wrong weight")


def s_normalize(g):
    n, ei, w = edges(g)
    if w is not None and g.bool(0.8):
        w = np.abs(w) + 0.01
    mode = g.pick(["rw", "sym", "none"])
    g.note(mode=mode)
    b = None if w is None else w.copy()
    o = normalize_edge_weights(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)
    g.require(same(b, w) is None, "normalising modifies its input")
    if w is None or mode == "none":
        g.require(same(o, w) is None, "nothing to normalise, but the weights change")
        return
    deg = np.zeros(n)
    for u, x in zip(ei[0].tolist(), w.tolist(), strict=True):
        deg[u] += x
    deg = np.maximum(deg, 1e-12)
    if np.any(np.abs(deg) < 1e-3) and np.any(w < 0):
        return
    want = w / deg[ei[0]] if mode == "rw" else w / np.sqrt(deg[ei[0]] * deg[ei[1]])
    g.require(o.shape == w.shape, "a weight is lost")
    ok = (deg[ei[0]] > 1e-9) & (deg[ei[1]] > 1e-9) if ei.size else np.zeros(0, dtype=bool)
    g.require(close(o[ok], np.asarray(want)[ok], rtol=2e-4, atol=1e-6), "a weight is not rescaled by the documented degrees")
    if mode == "rw" and np.all(w > 0):
        for u in set(ei[0].tolist()):
            g.require(abs(float(o[ei[0] == u].sum()) - 1) < 1e-3, "outgoing weights do not sum to one")
    g.raises(lambda: normalize_edge_weights(n_nodes=n, edge_index=ei, edge_weight=w, mode="bogus"), ValueError)


def s_build(g):
    X, _ = features(g)
    n = len(X)
    scheme = g.pick(["knn", "epsilon", "anchor"])
    metric = g.pick(["euclidean", "cosine"])
    kw = dict(scheme=scheme, metric=metric, k=g.int(1, n + 1), radius=g.real(0.1, 2), weights=GraphWeightsSpec(g.pick(["binary", "heat"]), sigma=g.real(0.5, 2)),
              n_anchors=g.pick([None, 1, 3]), anchors_k=g.int(1, 3), candidate_limit=g.pick([2, 1000]), backend=g.pick(["numpy", "sklearn"]), chunk_size=g.pick([1, 3, 512]), faiss_exact=True)
    sym, norm, loops = g.pick(["none", "or", "mutual"]), g.pick(["none", "rw", "sym"]), g.bool()
    spec = GraphBuilderSpec(symmetrize=sym, normalize=norm, self_loops=loops, **kw)
    seed = g.int(0, 99)
    g.note(spec=str(spec), seed=seed)
    keep = X.copy()
    noise = g.int(0, 5)
    np.random.seed(noise)
    gr = build_graph(X, spec=spec, seed=seed, cache=False)
    np.random.seed(noise + 1)
    gr2 = build_graph(X, spec=copy.deepcopy(spec), seed=seed, cache=False)
    g.require(same(keep, X) is None, "building a graph modifies the features")
    g.require(same((gr.edge_index, gr.edge_weight, gr.directed, gr.meta), (gr2.edge_index, gr2.edge_weight, gr2.directed, gr2.meta)) is None, "the same request gives another graph")
    base = build_graph(X, spec=GraphBuilderSpec(symmetrize="none", normalize="none", self_loops=False, **kw), seed=seed, cache=False)
    g.require(gr.n_nodes == n and gr.directed == (sym == "none"), "the graph is described wrongly")
    a = adjacency(gr.edge_index, gr.edge_weight)
    raw = set(adjacency(base.edge_index))
    want = {"none": raw, "or": raw | {(v, u) for u, v in raw}, "mutual": {(u, v) for u, v in raw if (v, u) in raw}}[sym] | ({(i, i) for i in range(n)} if loops else set())
    g.require(set(a) == want and all(len(v) == 1 for v in a.values()), f"edges {sorted(set(a) ^ want)[:4]} are wrong")
    if sym != "none" and norm != "rw":
        g.require(all(abs(a[u, v][0] - a[v, u][0]) < 1e-6 for u, v in a), "the two directions carry different weights")
    if norm != "none":
        un = build_graph(X, spec=GraphBuilderSpec(symmetrize=sym, normalize="none", self_loops=loops, **kw), seed=seed, cache=False)
        g.require(same(un.edge_index, gr.edge_index) is None, "normalising changes the edges")
        deg = np.maximum(np.bincount(un.edge_index[0], weights=un.edge_weight, minlength=n), 1e-12)
        s, d = un.edge_index
        want = un.edge_weight / deg[s] if norm == "rw" else un.edge_weight / np.sqrt(deg[s] * deg[d])
        ok = (deg[s] > 1e-9) & (deg[d] > 1e-9)
        g.require(close(gr.edge_weight[ok], want[ok], rtol=1e-3, atol=1e-6), "a weight is not rescaled by the documented degrees")


def s_artifacts(g):
    n, ei, w = edges(g)
    ok = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w)
    g.require(np.array_equal(ok.edge_index, ei) and (w is None or close(ok.edge_weight, w, atol=1e-6)), "a valid graph is changed")
    validate_edge_index(ei, n_nodes=n)
    E = ei.shape[1]
    bad = {}
    if E:
        x = ei.copy()
        x[g.int(0, 1), g.int(0, E - 1)] = g.pick([-1, n, n + 3])
        bad["range"] = x
    bad["shape"] = g.pick([ei[:1], ei.T.reshape(-1), np.zeros((3, 4), dtype=np.int64)])
    for k, x in bad.items():
        g.note(bad=k)
        g.raises(lambda x=x: GraphArtifact(n_nodes=n, edge_index=x), GraphValidationError, f"an edge index with bad {k} is accepted")
        g.raises(lambda x=x: validate_edge_index(x, n_nodes=n), GraphValidationError, f"an edge index with bad {k} is accepted")
    for x in (np.ones(E + 1), np.ones(E - 1) if E else np.ones(2), np.ones((E, 1))):
        g.raises(lambda x=x: GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=x), GraphValidationError, "misaligned edge weights are accepted")
    X, y = np.zeros((n, 2)), np.zeros(n, dtype=np.int64)
    NodeDataset(X=X, y=y, graph=ok, masks={"train_mask": np.ones(n, dtype=bool)})
    for kw in (dict(X=np.zeros((n + 1, 2)), y=y), dict(X=X, y=np.zeros(n + 1, dtype=np.int64)), dict(X=X, y=y, masks={"m": np.ones(n + 1, dtype=bool)}), dict(X=X, y=y, masks={"m": np.ones((n, 1), dtype=bool)})):
        g.raises(lambda kw=kw: NodeDataset(graph=ok, **kw), GraphValidationError, "a misaligned node dataset is accepted")
    DatasetViews(views={"a": X, "b": X[:, :1]}, y=y)
    for kw in (dict(views={"a": X, "b": np.zeros((n + 1, 1))}, y=y), dict(views={}, y=y), dict(views={"a": X}, y=np.zeros(n + 1, dtype=np.int64)), dict(views={"a": X[:, 0]}, y=y), dict(views={"a": X}, y=y, masks={"m": np.ones(n + 2, dtype=bool)})):
        g.raises(lambda kw=kw: DatasetViews(**kw), GraphValidationError, "misaligned views are accepted")
    validate_view_matrix(X, n_nodes=n, name="v")
    Z = X.copy()
    Z[g.int(0, n - 1), 0] = g.pick([np.nan, np.inf])
    g.raises(lambda: validate_view_matrix(Z, n_nodes=n, name="v"), GraphValidationError, "non-finite view accepted")
    g.raises(lambda: validate_view_matrix(X, n_nodes=n + 1, name="v"), GraphValidationError, "misaligned view accepted")


SCENARIOS = [("symmetrize", s_symmetrize, 1500, 1), ("loops", s_loops, 800, 1), ("normalize", s_normalize, 1000, 1), ("build", s_build, 500, 2), ("artifacts", s_artifacts, 300, 1)]
