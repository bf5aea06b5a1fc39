"""Graph and graph-view cache: what an entry's identity covers, and what is stored under it.

Ghost argument: let the cache be a map from identities to values with the invariant "the value under an identity is what
building yields for the request with that identity".  The contracts show that (1) an identity determines every field of
the request, (2) what is saved under an identity is the freshly built value of that request, and (3) what is served is
either freshly built or the value stored under the identity of this very request; so the invariant holds after every history."""
from contracts.c03 import Digest, fields_equal
from contracts.lib import *

TRUSTED = ["canonical JSON text followed by SHA-256 is injective on identity payloads; the digest of an array determines its shape, type and content",
           "a stored entry is loaded back unchanged (property C07)"]
SP = "modssc.graph.specs"
SV = "modssc.graph.construction.services.service"
FT = "modssc.graph.featurization.api"
BG = "bench.orchestrators.graph"
W = World()


def builder_spec(c, M, few=False):
    kw = dict(k=I("k"), chunk_size=I("chunk"), self_loops=B("sl"), anchors_k=I("ak"), candidate_limit=I("cl"), faiss_exact=B("fe"),
              faiss_hnsw_m=I("fm"), faiss_ef_search=I("fs"), faiss_ef_construction=I("fc"))
    if few:
        return M.GraphBuilderSpec(**kw)
    kw["scheme"] = ("knn", "epsilon", "anchor")[c.choose(3, "scheme")]
    kw["metric"] = ("cosine", "euclidean")[c.choose(2, "metric")]
    if c.choose(2, "k none"):
        kw["k"] = None
    kw["radius"] = R("radius") if c.choose(2, "radius") else None
    kw["n_anchors"] = I("na") if c.choose(2, "n_anchors") else None
    kw["feature_field"] = ("features.X", "raw.X")[c.choose(2, "field")]
    kw["weights"] = M.GraphWeightsSpec(kind=("binary", "heat", "cosine")[c.choose(3, "weights")], sigma=R("sigma") if c.choose(2, "sigma") else None)
    return M.GraphBuilderSpec(**kw)


def t_builder(c):
    M = W.module(SP)
    s = builder_spec(c, M)
    r = M.GraphBuilderSpec.from_dict(s.to_dict())
    c.cover("returns")
    fields_equal(c, s, r, "spec")


def t_builder_names(c):
    M = W.module(SP)
    s = M.GraphBuilderSpec(symmetrize=("none", "or", "mutual")[c.choose(3, "sym")], normalize=("none", "rw", "sym")[c.choose(3, "norm")],
                           backend=("auto", "numpy", "sklearn", "faiss")[c.choose(4, "backend")], anchors_method=("random", "kmeans")[c.choose(2, "am")],
                           k=I("k"), radius=R("r"))
    r = M.GraphBuilderSpec.from_dict(s.to_dict())
    c.cover("returns")
    fields_equal(c, s, r, "spec")


def t_feat(c):
    M = W.module(SP)
    vs = ("attr", "diffusion", "struct")
    n = 1 + c.choose(3, "views")
    off = c.choose(3, "first view")
    s = M.GraphFeaturizerSpec(views=tuple(vs[(i + off) % 3] for i in range(n)), diffusion_steps=I("ds"), diffusion_alpha=R("da"),
                              struct_method=("deepwalk", "node2vec")[c.choose(2, "method")], struct_dim=I("dim"), walk_length=I("wl"),
                              num_walks_per_node=I("nw"), window_size=I("ws"), p=R("p"), q=R("q"), cache=B("cache"))
    r = M.GraphFeaturizerSpec.from_dict(s.to_dict())
    c.cover("returns")
    fields_equal(c, s, r, "spec")


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, Digest):
        return ("digest", plain(v.payload))
    return ("term", str(v.t)) if isinstance(v, Sym) else v


class FakePath:
    def __truediv__(self, o):
        return self

    def mkdir(self, **k):
        return None


def ghost_cache(c, log):
    """the cache as a map: an entry is present or not, and a present one holds the value stored under its identity"""

    class Cache:
        root = "root"

        def __init__(self, root=None, **k):
            log.append(("open", str(root)))

        @classmethod
        def default(cls):
            return cls

        def exists(self, fp):
            log.append(("exists", fp))
            return bool(c.choose(2, "entry present"))

        def load(self, fp, **k):
            log.append(("load", fp, k))
            return stored(fp), {}

        def save(self, *, fingerprint, graph=None, views=None, manifest=None, overwrite=True):
            log.append(("save", fingerprint, graph if views is None else views, manifest))

        def entry_dir(self, fp):
            return FakePath()

    return Cache


def stored(fp):
    return ns(stored=fp, n_nodes=0, edge_index=A.fresh_array("stored_ei", (2, 3), "i"), views={})


def W_build(c, log):
    def raw(X, *, spec, seed, work_dir, resume):
        log.append(("edges", X, spec, seed))
        e = ctx().int("E")
        ctx().assume(e >= 0)
        return A.fresh_array("ei", (2, e), "i"), A.fresh_array("dist", (e,), "f")

    def weights(*, distances, weights, metric):
        log.append(("weights", distances, weights, metric))
        return A.fresh_array("w", distances._shape, "f")

    def sym(*, n_nodes, edge_index, edge_weight, mode):
        log.append(("sym", n_nodes, edge_index, edge_weight, mode))
        return A.fresh_array("ei", edge_index._shape, "i"), A.fresh_array("w", edge_weight._shape, "f")

    def loops_(*, n_nodes, edge_index, edge_weight):
        log.append(("loops", n_nodes, edge_index, edge_weight))
        return A.fresh_array("ei", edge_index._shape, "i"), A.fresh_array("w", edge_weight._shape, "f")

    def norm(*, n_nodes, edge_index, edge_weight, mode):
        log.append(("norm", n_nodes, edge_index, edge_weight, mode))
        return A.fresh_array("w", edge_weight._shape, "f")

    Wb = World(stubs={SV + ":build_raw_edges": raw, SV + ":compute_edge_weights": weights, SV + ":symmetrize_edges": sym, SV + ":add_self_loops": loops_,
                      SV + ":normalize_edge_weights": norm, SV + ":fingerprint_array": lambda a: ("array", a.uid), SV + ":fingerprint_dict": Digest,
                      SV + ":GraphCache": ghost_cache(c, log), SV + ":GraphArtifact": lambda **k: ns(**k)})
    return Wb


def t_build(c):
    log = []
    Wb = W_build(c, log)
    f = Wb.fn(SV, "build_graph")
    M = Wb.module(SP)
    n, d = c.int("n"), c.int("d")
    c.assume(And(n >= 0, d >= 0))
    X = A.fresh_array("X", (n, d), "f")
    sy, nm, loops_ = (("none", "none", False), ("or", "rw", True), ("mutual", "sym", False), ("none", "sym", True), ("or", "none", False))[c.choose(5, "post")]
    wk = M.GraphWeightsSpec("binary")
    k = I("k")
    c.assume(k.t >= 1)
    spec = M.GraphBuilderSpec(scheme="knn", k=k, symmetrize=sy, normalize=nm, self_loops=loops_, weights=wk)
    seed = I("seed")
    dfp, pfp = ((None, None), ("given", None), (None, "prep"), ("given", "prep"))[c.choose(4, "identities")]
    cache = bool(c.choose(2, "cache"))
    r = f(X, spec=spec, seed=seed, dataset_fingerprint=dfp, preprocess_fingerprint=pfp, cache=cache, cache_dir="dir", resume=bool(c.choose(2, "resume")))
    c.cover("returns")
    want = {"dataset_fingerprint": dfp or ("array", X.uid), "preprocess_fingerprint": pfp, "spec": spec.to_dict(), "seed": seed}
    served = hasattr(r, "stored")
    looks = [x for x in log if x[0] in ("exists", "load", "save")]
    c.oblige("without the cache nothing is looked up, served or stored", cache or not (looks or served))
    for x in looks:
        c.oblige("an entry's identity is made of the data identity, preprocessing, every specification field and the seed",
                 isinstance(x[1], Digest) and plain(x[1].payload) == plain(want))
    c.oblige("the entry looked up is in the given directory", not looks or ("open", "dir") in log)
    if served:
        c.oblige("what is served is what is stored under this request's identity", r.stored is looks[0][1] and len(looks) == 2)
        return
    kind = [x[0] for x in log if x[0] not in ("open", "exists", "load", "save")]
    c.oblige("a fresh graph is built by the stages the specification asks for",
             kind == ["edges", "weights"] + (["sym"] if sy != "none" else []) + (["loops"] if loops_ else []) + (["norm"] if nm != "none" else []))
    e = dict((x[0], x) for x in log)
    c.oblige("neighbours come from these features, specification and seed", e["edges"][1] is X and e["edges"][2] is spec and plain(e["edges"][3]) == plain(seed))
    c.oblige("weights come from the specification", e["weights"][2] is wk and e["weights"][3] == spec.metric)
    c.oblige("stage modes", (sy == "none" or e["sym"][4] == sy) and (nm == "none" or e["norm"][4] == nm))
    c.oblige("number of nodes", eqi(r.n_nodes, n))
    c.oblige("directed unless symmetrised", bool(r.directed) == (sy == "none"))
    if cache:
        sv = [x for x in log if x[0] == "save"]
        c.oblige("the returned graph is what is stored, once", len(sv) == 1 and sv[0][2] is r)


def eqi(v, t):
    return unwrap(v) == t


def t_stages(c):
    """each post-processing stage receives the edges and weights of the stage before it"""
    log = []
    Wb = W_build(c, log)
    f = Wb.fn(SV, "build_graph")
    M = Wb.module(SP)
    X = A.fresh_array("X", (c.int("n"), 2), "f")
    c.assume(A.dz(X._shape[0]) >= 0)
    chain = []
    for nme in ("build_raw_edges", "compute_edge_weights", "symmetrize_edges", "add_self_loops", "normalize_edge_weights"):
        g = Wb.mods[SV].__dict__[nme]

        def h(*a, _g=g, _n=nme, **k):
            r = _g(*a, **k)
            chain.append((_n, k, r))
            return r

        Wb.mods[SV].__dict__[nme] = h
    sy, nm, lp = c.choose(2, "sym"), c.choose(2, "norm"), bool(c.choose(2, "loops"))
    r = f(X, spec=M.GraphBuilderSpec(symmetrize="or" if sy else "none", normalize="rw" if nm else "none", self_loops=lp, weights=M.GraphWeightsSpec("binary")), cache=False, cache_dir="dir")
    c.cover("returns")
    ei, w = None, None
    for n_, k, out in chain:
        if n_ == "build_raw_edges":
            ei, dist = out
        elif n_ == "compute_edge_weights":
            c.oblige("weights are computed from the distances found", k["distances"] is dist)
            w = out
        else:
            c.oblige(f"{n_} continues from the previous stage", k["edge_index"] is ei and k["edge_weight"] is w)
            if n_ == "normalize_edge_weights":
                w = out
            else:
                ei, w = out
    c.oblige("the graph holds the last stage's edges and weights", r.edge_index is ei and r.edge_weight is w)


def t_views(c):
    log = []
    made = {}

    def view(kind):
        def g(*a, **k):
            log.append((kind, a, k))
            made[kind] = ("view", kind)
            return made[kind]
        return g

    Wv = World(stubs={FT + ":fingerprint_array": lambda a: ("array", a.uid), FT + ":fingerprint_dict": Digest, FT + ":ViewsCache": ghost_cache(c, log),
                      FT + ":attr_view": view("attr"), FT + ":diffusion_view": view("diffusion"), FT + ":struct_embeddings": view("struct"),
                      FT + ":validate_view_matrix": lambda *a, **k: None, FT + ":DatasetViews": lambda **k: ns(**k)})
    f = Wv.fn(FT, "graph_to_views")
    M = Wv.module(SP)
    n = c.int("n")
    c.assume(n >= 0)
    vs = ("attr", "diffusion", "struct")
    nv, off = ((1, 0), (1, 1), (1, 2), (2, 1), (3, 0))[c.choose(5, "views")]
    al, p, q = R("alpha"), R("p"), R("q")
    use, spec_on = ((None, True), (None, False), (True, False), (False, True))[c.choose(4, "cache")]
    ints = {k: I(k) for k in ("diffusion_steps", "struct_dim", "walk_length", "num_walks_per_node", "window_size")}
    c.assume(And(al.t >= 0, al.t <= 1, p.t > 0, q.t > 0, ints["diffusion_steps"].t >= 0, ints["walk_length"].t >= 2,
                 *[ints[k].t >= 1 for k in ("struct_dim", "num_walks_per_node", "window_size")]))
    spec = M.GraphFeaturizerSpec(views=tuple(vs[(i + off) % 3] for i in range(nv)), diffusion_alpha=al, p=p, q=q, cache=spec_on, **ints)
    e = c.int("E")
    c.assume(e >= 0)
    ei = A.fresh_array("ei", (2, e), "i")
    ew, meta = ((A.fresh_array("ew", (e,), "f"), {"fingerprint": "graph-fp"}), (None, {}), (A.fresh_array("ew", (e,), "f"), None))[c.choose(3, "graph")]
    X, y = A.fresh_array("X", (n, 3), "f"), A.fresh_array("y", (n,), "i")
    masks = {"train_mask": A.fresh_array("m", (n,), "b")}
    g = ns(n_nodes=SymInt(n), edge_index=ei, edge_weight=ew, meta=meta)
    seed = I("seed")
    r = f(ns(X=X, y=y, masks=masks, graph=g, meta={}), spec=spec, seed=seed, cache=use, cache_dir="dir")
    c.cover("returns")
    if meta:
        gfp = "graph-fp"
    else:
        gfp = Digest({"n_nodes": SymInt(n), "edge_index": ("array", ei.uid), "edge_weight": None if ew is None else ("array", ew.uid)})
    want = {"graph_fingerprint": gfp, "features_fingerprint": ("array", X.uid), "spec": spec.to_dict(), "seed": seed}
    on = spec.cache if use is None else use
    looks = [x for x in log if x[0] in ("exists", "load", "save")]
    served = hasattr(r, "stored")
    c.oblige("without the cache nothing is looked up, served or stored", on or not (looks or served))
    for x in looks:
        if meta:
            ok = isinstance(x[1], Digest) and plain(x[1].payload) == plain(want)
        else:  # str(digest of the graph's own content)
            ok = isinstance(x[1], Digest) and plain({k: v for k, v in x[1].payload.items() if k != "graph_fingerprint"}) == plain({k: v for k, v in want.items() if k != "graph_fingerprint"}) \
                and plain(x[1].payload["graph_fingerprint"]) == plain(gfp)
        c.oblige("an entry's identity is made of the graph, the features, every specification field and the seed", ok)
    if served:
        c.oblige("what is served is what is stored under this request's identity", r.stored is looks[0][1] and len(looks) == 2)
        c.oblige("with this dataset's labels and masks", looks[1][2]["y"].uid == y.uid and looks[1][2]["masks"] is masks)
        return
    built = [x for x in log if x[0] in vs]
    c.oblige("exactly the requested views are built", [x[0] for x in built] == list(spec.views) and r.views == {v: ("view", v) for v in spec.views})
    for kind, a, k in built:
        if kind == "attr":
            c.oblige("attributes are those of the dataset", a[0] is X)
        elif kind == "diffusion":
            c.oblige("diffusion uses the dataset's features, graph and the specified steps and rate",
                     k["X"].uid == X.uid and k["edge_index"].uid == ei.uid and (k["edge_weight"] is None if ew is None else k["edge_weight"].uid == ew.uid)
                     and plain([k["n_nodes"], k["steps"]]) == plain([SymInt(n), ints["diffusion_steps"]]) and plain(k["alpha"]) == plain(al))
        else:
            pr = k["params"]
            c.oblige("structure uses the dataset's graph, the specified walks and the seed",
                     k["edge_index"].uid == ei.uid and plain([k["n_nodes"], k["seed"], pr.dim, pr.walk_length, pr.num_walks_per_node, pr.window_size, pr.p, pr.q, pr.method])
                     == plain([SymInt(n), seed, ints["struct_dim"], ints["walk_length"], ints["num_walks_per_node"], ints["window_size"], p, q, spec.struct_method]))
    c.oblige("labels and masks are the dataset's", r.y.uid == y.uid and r.masks is masks)
    if on:
        sv = [x for x in log if x[0] == "save"]
        c.oblige("the returned views are what is stored, once", len(sv) == 1 and sv[0][2] is r)


def t_bench(c):
    """the benchmark's graph stage: a graph over train and test rows has another data identity than one over train rows"""
    log = []
    Wg = World(stubs={BG + ":build_graph": lambda X, **k: log.append((X, k)) or ns(meta={}, n_nodes=0, edge_index=A.fresh_array("e", (2, 1), "i"))},
               inert=("modssc.preprocess", "modssc.graph.construction"))
    f = Wg.fn(BG, "build")
    n, m = c.int("n"), c.int("m")
    c.assume(And(n >= 0, m >= 0))
    Xs = {"train": A.fresh_array("Xtr", (n, 2), "f"), "test": A.fresh_array("Xte", (m, 2), "f")}
    art = c.choose(2, "artifact")

    def store(k):
        return ns(has=lambda key: bool(art), get=lambda key: Xs[k])

    other = A.fresh_array("raw", (n, 2), "f")
    test = c.choose(2, "test set")
    pre = ns(train_artifacts=store("train"), test_artifacts=store("test") if test else None, preprocess_fingerprint="prep",
             dataset=ns(train=ns(X=other if art else Xs["train"]), test=ns(X=Xs["test"]) if test else None))
    inc, dfp, seed = bool(c.choose(2, "include test")), (None, "d")[c.choose(2, "dfp")], I("seed")
    f(pre, spec_dict={}, seed=seed, dataset_fingerprint=dfp, cache=True, cache_dir=None, include_test=inc)
    c.cover("returns")
    X, k = log[0]
    both = inc and test
    c.oblige("rows: train rows, and test rows when asked for", A.dz(X._shape[0]) == (n + m if both else n))
    i = c.int("i")
    c.assume(And(i >= 0, i < (n + m if both else n)))
    c.oblige("row order: train rows first, then test rows", X.at(i, z3.IntVal(0)) == (If(i < n, Xs["train"].at(i, z3.IntVal(0)), Xs["test"].at(i - n, z3.IntVal(0))) if both else Xs["train"].at(i, z3.IntVal(0))))
    c.oblige("the data identity tells train rows from train and test rows", (k["dataset_fingerprint"] is None) if dfp is None else ((k["dataset_fingerprint"] == "d") == (not both)))
    c.oblige("preprocessing identity and seed are passed on", k["preprocess_fingerprint"] == "prep" and plain(k["seed"]) == plain(seed))


TASKS = [
    Task("specs.GraphBuilderSpec dictionary round trip", t_builder, ["specs.GraphBuilderSpec.to_dict", "specs.GraphBuilderSpec.from_dict", "specs.GraphWeightsSpec.to_dict", "specs.GraphWeightsSpec.from_dict"]),
    Task("specs.GraphBuilderSpec dictionary round trip [names]", t_builder_names, ["specs.GraphBuilderSpec.to_dict", "specs.GraphBuilderSpec.from_dict"]),
    Task("specs.GraphFeaturizerSpec dictionary round trip", t_feat, ["specs.GraphFeaturizerSpec.to_dict", "specs.GraphFeaturizerSpec.from_dict"]),
    Task("service.build_graph [cache]", t_build, ["service.build_graph", "service._graph_fingerprint", "specs.GraphBuilderSpec.validate", "validation.validate_features"],
         ["GraphCache.exists/load/save as a map", "build_raw_edges", "compute_edge_weights", "symmetrize_edges", "add_self_loops", "normalize_edge_weights"]),
    Task("service.build_graph [stages]", t_stages, ["service.build_graph"], ["build_raw_edges", "compute_edge_weights", "symmetrize_edges", "add_self_loops", "normalize_edge_weights"]),
    Task("featurization.graph_to_views [cache]", t_views, ["api.graph_to_views", "api._views_fingerprint", "specs.GraphFeaturizerSpec.validate"],
         ["ViewsCache.exists/load/save as a map", "attr_view", "diffusion_view", "struct_embeddings"]),
    Task("bench graph stage", t_bench, ["orchestrators.graph.build", "orchestrators.graph._feature_from_artifacts"], ["build_graph"]),
]
