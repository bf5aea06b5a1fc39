"""Run-time contract: cached graphs and views equal freshly built ones."""
import dataclasses
import shutil
from pathlib import Path

import numpy as np

from bounded.graphs import features
from bounded.util import same
from modssc.graph import build_graph, graph_to_views
from modssc.graph.artifacts import GraphArtifact, NodeDataset
from modssc.graph.cache import GraphCache
from modssc.graph.fingerprint import fingerprint_array, fingerprint_spec
from modssc.graph.specs import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec
from vf.gen import Skip

RULE = "histories of graph and view requests sharing one cache; pairs of specifications; distinct by history"
EXPLANATION = "Every request of a history is answered with and without the shared cache and compared; specifications that differ in one field are compared by identity and by round trip."


def gspec(g, n):
    metric = g.pick(["euclidean", "cosine"])
    scheme = g.pick(["knn", "knn", "epsilon", "anchor"])
    return GraphBuilderSpec(scheme=scheme, metric=metric, k=g.int(1, 4), radius=g.pick([0.5, 1.0, 1.5]), symmetrize=g.pick(["none", "or", "mutual"]),
                            weights=GraphWeightsSpec(g.pick(["binary", "heat", "cosine"] if metric == "cosine" else ["binary", "heat"]), sigma=g.pick([0.5, 1.0])),
                            normalize=g.pick(["none", "rw", "sym"]), self_loops=g.bool(), backend=g.pick(["numpy", "sklearn"]), chunk_size=g.pick([1, 2, 512]),
                            n_anchors=g.pick([None, 2]), anchors_k=g.int(1, 2), anchors_method="random", candidate_limit=g.pick([2, 3, 1000]))


def alter(g, spec):
    """the specification with one field changed"""
    f = g.pick([x.name for x in dataclasses.fields(spec)])
    v = getattr(spec, f)
    if isinstance(spec, GraphFeaturizerSpec):
        alt = {"views": g.pick([("attr",), ("diffusion",), ("attr", "diffusion"), ("diffusion", "attr"), ("struct",)]), "diffusion_steps": v + 1 if f == "diffusion_steps" else 0, "diffusion_alpha": g.pick([0.0, 0.3, 0.31, 1.0]),
               "struct_method": g.pick(["deepwalk", "node2vec"]), "struct_dim": g.int(1, 5), "walk_length": g.int(2, 6), "num_walks_per_node": g.int(1, 3), "window_size": g.int(1, 3), "p": g.pick([0.5, 1.0, 2.0]), "q": g.pick([0.5, 1.0, 2.0]), "cache": not spec.cache}
    else:
        alt = {"scheme": g.pick(["knn", "epsilon", "anchor"]), "metric": g.pick(["euclidean", "cosine"]), "k": g.int(1, 5), "radius": g.pick([0.5, 0.75, 1.0, 2.0]), "symmetrize": g.pick(["none", "or", "mutual"]),
               "weights": g.pick([GraphWeightsSpec("binary"), GraphWeightsSpec("heat", sigma=0.5), GraphWeightsSpec("heat", sigma=0.51), GraphWeightsSpec("cosine")]), "normalize": g.pick(["none", "rw", "sym"]),
               "self_loops": not spec.self_loops if f == "self_loops" else True, "backend": g.pick(["auto", "numpy", "sklearn", "faiss"]), "chunk_size": g.pick([1, 2, 3, 512]), "feature_field": g.pick(["features.X", "raw.X"]),
               "n_anchors": g.pick([None, 1, 2, 3]), "anchors_k": g.int(1, 3), "anchors_method": g.pick(["random", "kmeans"]), "candidate_limit": g.pick([1, 2, 1000]), "faiss_exact": not spec.faiss_exact,
               "faiss_hnsw_m": g.pick([16, 32]), "faiss_ef_search": g.pick([16, 64]), "faiss_ef_construction": g.pick([100, 200])}
    return f, dataclasses.replace(spec, **{f: alt[f]})


def gval(x):
    return {"n": x.n_nodes, "ei": x.edge_index, "ew": x.edge_weight, "directed": x.directed, "meta": x.meta}


def s_graphs(g):
    X, _ = features(g)
    Xs = [X, X + 1, X.astype(np.float32) if X.dtype != np.float32 else X.astype(np.float64)]
    if X.shape[1] > 1:
        Xs.append(np.ascontiguousarray(X[:, ::-1]))
        Xs.append(X.reshape(-1)[: X.size // 2 * 2].reshape(2, -1) if X.size > 2 else X)
    specs = [gspec(g, len(X))]
    cd = Path(g.tmp) / "gc"
    log = []
    for _ in range(g.int(2, 6)):
        spec = g.pick(specs)
        if g.bool(0.6):
            try:
                f, spec = alter(g, spec)
                spec.validate()
            except Exception:  # noqa: BLE001
                continue
            if spec.backend == "auto" and spec.scheme != "epsilon" or spec.backend == "faiss" and not spec.faiss_exact or spec.anchors_method == "kmeans":
                continue
            specs.append(spec)
        x, seed, shard = g.pick(Xs[:1] * 3 + Xs), g.pick([0, 0, 1, 5]), g.pick([None, None, 1, 3])
        fp = g.pick([None, None, "content"])
        pre = g.pick([None, None, "p1"])
        kw = dict(spec=spec, seed=seed, dataset_fingerprint=None if fp is None else fingerprint_array(x) + "x", preprocess_fingerprint=pre)
        log.append((str(spec), seed, [id(y) for y in Xs].index(id(x)), shard, fp, pre))
        g.note(history=log)
        keep = x.copy()
        try:
            want = build_graph(x, cache=False, **kw)
        except Exception:  # noqa: BLE001
            continue
        got = build_graph(x, cache=True, cache_dir=cd, edge_shard_size=shard, resume=g.bool(0.7), **kw)
        d = same(gval(want), gval(got))
        g.require(d is None, f"the cached graph differs from a fresh one: {d}")
        g.require(same(keep, x) is None, "building modifies the features")
        again = build_graph(x, cache=True, cache_dir=cd, edge_shard_size=g.pick([None, 2]), **kw)
        d = same(gval(want), gval(again))
        g.require(d is None, f"the cached graph differs from a fresh one: {d}")
        if g.bool(0.2) and got.edge_weight is not None and got.n_edges:
            # what a caller does with a returned graph must not reach the cache
            got.edge_weight[:] = -1
            got.edge_index[:] = 0
    if not log:
        raise Skip()
    if g.bool(0.2) and cd.exists():
        store = GraphCache(root=cd)
        n = store.purge()
        g.require(store.list() == [] and n >= 0, "purging leaves entries behind")


def s_views(g):
    X, _ = features(g)
    n = len(X)
    X = X.astype(float)
    E = g.pick([0, 3, 8, 20])
    ei = g.rng.integers(0, n, size=(2, E))
    w = g.rng.random(E).astype(np.float32) if g.bool() else None
    big = g.bool(0.08)
    if big:
        # more edges than any prefix
        E = 1500
        w = None if w is None else g.rng.random(E).astype(np.float32)
        ei = g.rng.integers(0, n, size=(2, E))
    bases = [(X, ei, w), (X * 2, ei, w), (X, ei, None if w is not None else g.rng.random(E).astype(np.float32)), (X, ei[:, ::-1].copy(), w)]
    if E:
        e2 = ei.copy()
        e2[1, -1] = (e2[1, -1] + 1) % n
        bases.append((X, e2, w))
        if w is not None:
            w2 = w.copy()
            w2[-1] += 1
            bases.append((X, ei, w2))
    specs = [GraphFeaturizerSpec(views=("attr", "diffusion", "struct")[: g.int(1, 2 if g.bool(0.7) else 3)], diffusion_steps=g.int(0, 3), diffusion_alpha=0.3, struct_dim=2, walk_length=3, num_walks_per_node=1, window_size=1)]
    cd = g.tmp + "/vc"
    named = g.bool(0.4)
    log = []
    for _ in range(g.int(2, 6)):
        spec = g.pick(specs)
        if g.bool(0.5):
            f, spec = alter(g, spec)
            specs.append(spec)
        q = g.pick([0, 0, *range(len(bases))])
        x, e, ww = bases[q]
        seed = g.pick([0, 0, 1])
        meta = {}
        if named and g.bool(0.8):
            meta = {"fingerprint": fingerprint_array(e) + ("" if ww is None else fingerprint_array(ww))}
        y = g.rng.integers(0, 3, n)
        masks = {"train_mask": g.rng.random(n) < 0.5}
        node = NodeDataset(X=x, y=y, graph=GraphArtifact(n_nodes=n, edge_index=e, edge_weight=ww, meta=meta), masks=masks)
        log.append((str(spec), q, seed, bool(meta)))
        g.note(history=log)
        keep = (x.copy(), e.copy())
        try:
            want = graph_to_views(node, spec=spec, seed=seed, cache=False)
        except Exception:  # noqa: BLE001
            continue
        for _ in range(2):
            got = graph_to_views(node, spec=spec, seed=seed, cache=g.pick([True, True, None]), cache_dir=cd)
            d = same({"v": want.views, "y": want.y, "m": want.masks, "meta": want.meta}, {"v": got.views, "y": got.y, "m": got.masks, "meta": got.meta})
            g.require(d is None, f"the cached views differ from fresh ones: {d}")
        g.require(same(keep, (x, e)) is None, "computing views modifies its input")
    if not log:
        raise Skip()


def s_specs(g):
    if g.bool():
        spec = gspec(g, 5)
    else:
        spec = GraphFeaturizerSpec(views=("attr",), diffusion_steps=g.int(0, 5))
    if g.bool(0.3):
        for _ in range(3):
            spec = alter(g, spec)[1]
    back = type(spec).from_dict(spec.to_dict())
    g.note(spec=str(spec))
    g.require(back == spec, f"the specification changes on its way through a dictionary: {back}")
    f, other = alter(g, spec)
    g.note(field=f)
    if other == spec:
        raise Skip()
    g.require(type(other).from_dict(other.to_dict()) == other, f"the specification changes on its way through a dictionary: {other}")
    g.require(spec.to_dict() != other.to_dict() and fingerprint_spec(spec.to_dict()) != fingerprint_spec(other.to_dict()), f"field {f} is not part of the identity")


def s_identity(g):
    """array identities tell arrays apart"""
    shape = g.pick([(4, 3), (6, 2), (12,), (3, 4), (700, 800)])
    a = g.rng.normal(size=shape) if g.bool() else g.rng.integers(0, 3, size=shape).astype(float)
    b = a.copy()
    i = tuple(g.int(0, s - 1) for s in shape)
    b[i] += g.pick([1e-9, 1.0])
    g.note(shape=shape, at=i)
    g.require(fingerprint_array(a) == fingerprint_array(a.copy()) == fingerprint_array(np.asfortranarray(a)), "equal arrays have different identities")
    g.require(fingerprint_array(a) != fingerprint_array(b), f"arrays differing at {i} have one identity")
    g.require(fingerprint_array(a) != fingerprint_array(a.reshape(-1, 2) if shape != (6, 2) else a.reshape(-1)), "arrays of different shape have one identity")
    g.require(fingerprint_array(a) != fingerprint_array(a.astype(np.float32)), "arrays of different type have one identity")
    if a.ndim == 2 and a.size < 100:
        from scipy import sparse

        sa, sb = sparse.csr_matrix(a), sparse.csr_matrix(b)
        g.require(fingerprint_array(sa) != fingerprint_array(sb) and fingerprint_array(sa) == fingerprint_array(sa.copy()), "sparse identities")


def s_bench(g):
    """the benchmark's graph stage: requests over one preprocessed dataset (with or without its test part) sharing one cache"""
    from bench.orchestrators import graph as orch
    from modssc.data_loader.types import LoadedDataset, Split
    from modssc.preprocess.store import ArtifactStore
    from modssc.preprocess.types import PreprocessResult

    nt, ns, d = g.int(3, 7), g.int(1, 4), g.int(1, 3)
    cd = Path(g.tmp) / "gc"
    pres = []
    for k in range(g.int(1, 2)):
        tr, te = g.rng.normal(size=(nt, d)), g.rng.normal(size=(ns, d))
        arts = []
        for x in (tr, te):
            st = ArtifactStore()
            if g.bool():
                st.set("features.X", x)
            st.set("other.X", np.ascontiguousarray(-x[::-1] ** 2))
            arts.append(st)
        ds = LoadedDataset(train=Split(X=tr, y=np.zeros(nt, int)), test=Split(X=te, y=np.zeros(ns, int)), meta={"dataset_fingerprint": f"d{k}"})
        pres.append(PreprocessResult(dataset=ds, plan=None, preprocess_fingerprint=f"p{k}", train_artifacts=arts[0], test_artifacts=arts[1], cache_dir=None))
    specs = [{"scheme": "knn", "metric": "euclidean", "k": 2, "backend": "numpy", "feature_field": f, "weights": {"kind": "binary"}} for f in ("features.X", "other.X")]
    log = []
    for _ in range(g.int(2, 5)):
        i, it, seed, sp = g.int(0, len(pres) - 1), g.bool(), g.int(0, 1), g.int(0, 1)
        log.append((i, it, seed, sp))
        g.note(history=log)
        kw = dict(spec_dict=specs[sp], seed=seed, dataset_fingerprint=f"d{i}", cache_dir=str(cd), include_test=it)
        want = orch.build(pres[i], cache=False, **kw)
        got = orch.build(pres[i], cache=True, **kw)
        g.require(want.n_nodes == nt + (ns if it else 0), "the graph does not have one node per sample")
        r = same([want.n_nodes, want.edge_index, want.edge_weight], [got.n_nodes, got.edge_index, got.edge_weight])
        g.require(r is None, f"the cached graph differs from a fresh one: {r}")


SCENARIOS = [("benchmark graph stage", s_bench, 150, 1), ("graphs", s_graphs, 400, 2), ("views", s_views, 300, 4), ("specs", s_specs, 800, 1), ("identity", s_identity, 60, 1)]
