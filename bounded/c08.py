"""Run-time contract: whatever operation a write is interrupted at, readers see nothing or one complete entry."""
import copy
import json
import os
import shutil
from pathlib import Path

import numpy as np

from bounded import prep
from bounded.crash import inject, points
from bounded.util import same
from modssc.data_loader import cache as dcache
from modssc.data_loader.errors import DatasetNotCachedError
from modssc.data_loader.services import service as svc
from modssc.data_loader.types import DatasetIdentity, LoadedDataset, Split
from modssc.graph import cache as gcache
from modssc.graph.artifacts import DatasetViews, GraphArtifact, NodeDataset
from modssc.graph.cache import GraphCache, ViewsCache
from modssc.preprocess.cache import CacheManager
from modssc.preprocess.errors import PreprocessCacheError
from modssc.utils import io as uio
from vf.gen import Skip

RULE = "write requests (fresh and overwriting, every cache) interrupted at each file-system operation; distinct by request and interruption point"
EXPLANATION = ("Each write runs in a child process that dies, or gets an error, at a chosen file-system operation (also with the file being written torn or empty); "
               "the readers of the real code then run on what is left.")


def fresh(g, base, name):
    d = os.path.join(g.tmp, name)
    shutil.rmtree(d, ignore_errors=True)
    if base is not None:
        shutil.copytree(base, d, symlinks=True)
    else:
        os.makedirs(d)
    return d


def drive(g, base, write, read, allowed, cap=14, again=True):
    """write(dir) is interrupted; read(dir) -> None or value; allowed: values that may be served (by name)"""
    probe = fresh(g, base, "probe")
    n, out = inject(lambda: write(probe), probe)
    g.require(out == "done", "the uninterrupted write fails")
    v = read(probe)
    g.require(v is not None and same(v, allowed["new"]) is None, f"the uninterrupted write does not serve the new entry: {same(v, allowed['new'])}")
    for k, how in points(g, n, cap):
        d = fresh(g, base, "x")
        seen, out = inject(lambda d=d: write(d), d, k, how)
        g.note(operation=k, interruption=how, outcome=out)
        try:
            v = read(d)
        except Exception as e:  # noqa: BLE001
            g.require(False, f"a reader fails after an interrupted write: {type(e).__name__}: {e}")
        ok = v is None and (how != "fail" or out == "raised") or any(same(v, w) is None for w in allowed.values() if w is not None)
        g.require(ok or v is None, f"a partial or mixed entry is served: {same(v, allowed['new'])}")
        if out == "done":
            g.require(v is not None and same(v, allowed["new"]) is None, "a write that reported success is not served")
        if again and how != "fail" and g.bool(0.3):
            write(d)
            v = read(d)
            g.require(v is not None and same(v, allowed["new"]) is None, f"writing again after the interruption does not serve the new entry: {same(v, allowed['new'])}")
    shutil.rmtree(os.path.join(g.tmp, "x"), ignore_errors=True)


# ---- text ------------------------------------------------------------------------------------
def s_text(g):
    which = g.pick(["io", "json", "dcache"])
    texts = ["".join(g.pick(list("abcé\n{}\"0")) for _ in range(g.int(0, 300))) for _ in range(2)]
    old = g.bool(0.7)
    rel = g.pick(["a.txt", "sub/b.json", "deep/er/c"])
    g.note(which=which, old=old, path=rel, sizes=[len(t) for t in texts])
    obj = [{"k": t, "n": i} for i, t in enumerate(texts)]

    def put(d, i):
        p = Path(d) / rel
        {"io": lambda: uio.atomic_write_text(p, texts[i]), "dcache": lambda: dcache.atomic_write_text(p, texts[i]), "json": lambda: gcache._safe_write_json(p, obj[i])}[which]()

    def get(d):
        p = Path(d) / rel
        if not p.exists():
            return None
        return gcache._safe_read_json(p) if which == "json" else p.read_text(encoding="utf-8")

    base = None
    if old:
        base = fresh(g, None, "base")
        put(base, 0)
        if g.bool(0.3):
            p = Path(base) / rel
            p.rename(p.with_name("target"))
            p.symlink_to("target")
            g.note(symlink=True)
    val = obj if which == "json" else texts
    if which != "json":
        # a write of something that is no text leaves the old text alone
        d = fresh(g, base, "bad")
        g.raises(lambda: uio.atomic_write_text(Path(d) / rel, "ok\udcff" * 3), Exception, "an unencodable text was written")
        g.require(get(d) == (texts[0] if old else None), "a failing write damages the old text")
    drive(g, base, lambda d: put(d, 1), get, {"new": val[1], "old": val[0] if old else None}, cap=20)
    if old:
        d = fresh(g, base, "keep")
        for k, how in points(g, 8, 8):
            inject(lambda: put(d, 0), d, k, how)
            g.require(get(d) is not None, "an interrupted rewrite loses the old text")


# ---- dataset cache ---------------------------------------------------------------------------
def some_array(g, n, kind):
    return {"f": lambda: g.rng.normal(size=(n, 2)), "i": lambda: g.rng.integers(0, 9, size=(n, 3)), "s": lambda: np.array([prep.WORDS[int(i)] for i in g.rng.integers(0, len(prep.WORDS), n)], dtype=object)}[kind]()


def some_dataset(g, tag):
    n = g.int(1, 6)
    sp = lambda n, graph: Split(X=some_array(g, n, g.pick(["f", "i", "s"])), y=g.rng.integers(0, 3, n),  # noqa: E731
                                edges=g.rng.integers(0, n, size=(2, 4)) if graph else None,
                                masks={"train": g.rng.random(n) < 0.5} if graph else None)
    graph = g.bool(0.3)
    return LoadedDataset(train=sp(n, graph), test=sp(g.int(1, 4), False) if g.bool(0.6) else None, meta={"tag": tag, "v": g.int(0, 99)})


class Stub:
    def __init__(self, ds):
        self.ds = ds

    def resolve(self, parsed, *, options):
        return DatasetIdentity(provider="toy", canonical_uri=f"toy:{parsed.reference}", dataset_id=parsed.reference, version=None, modality="tabular", task="classification", resolved_kwargs=dict(options))

    def load_canonical(self, identity, *, raw_dir):
        (raw_dir / "download.bin").write_bytes(b"x" * 10)
        return copy.deepcopy(self.ds)


def with_provider(ds, fn):
    keep = svc.create_provider
    svc.create_provider = lambda name: Stub(ds)
    try:
        return fn()
    finally:
        svc.create_provider = keep


def s_dataset(g):
    old, new = some_dataset(g, "old"), some_dataset(g, "new")
    state = g.pick(["none", "stored", "stored", "purged"])
    other = g.bool(0.4)
    via = g.pick(["download", "load"])
    g.note(state=state, other=other, via=via)
    ident = lambda ds: {"train": ds.train, "test": ds.test, "tag": ds.meta["tag"], "v": ds.meta["v"]}  # noqa: E731

    def store(d, ds, force, uri="toy:x"):
        f = svc.download_dataset if via == "download" else svc.load_dataset
        with_provider(ds, lambda: f(uri, cache_dir=Path(d), force=force))

    def get(d, uri="toy:x"):
        try:
            return ident(with_provider(old, lambda: svc.load_dataset(uri, cache_dir=Path(d), download=False)))
        except DatasetNotCachedError:
            return None

    base = fresh(g, None, "base")
    if other:
        store(base, old, False, "toy:other")
    if state != "none":
        store(base, old, False)
    if state == "purged":
        dcache.purge_dataset(svc._layout(Path(base)), "toy:x")
        g.require(get(base) is None, "a purged dataset is served")
    drive(g, base, lambda d: store(d, new, True), get, {"new": ident(new), "old": ident(old) if state == "stored" else None}, again=False)
    if state == "stored":
        # an interrupted purge: nothing or the whole entry
        fp = with_provider(old, lambda: svc._resolve_identity(svc.DatasetRequest(id="toy:x", options={})).fingerprint(schema_version=svc.SCHEMA_VERSION))
        d = fresh(g, base, "pp")
        n, _ = inject(lambda: dcache.purge_fingerprint(svc._layout(Path(d)), fp), d)
        for k, how in points(g, n, 5):
            if how != "stop":
                continue
            d = fresh(g, base, "pp")
            inject(lambda: dcache.purge_fingerprint(svc._layout(Path(d)), fp), d, k, how)
            g.note(purge_at=k)
            v = get(d)
            g.require(v is None or same(v, ident(old)) is None, "a partly purged dataset is served")
    if other:
        # the other entry is never touched
        d = fresh(g, base, "oo")
        n, _ = inject(lambda: store(d, new, True), d)
        k = g.int(0, n)
        d = fresh(g, base, "oo")
        inject(lambda: store(d, new, True), d, k, "stop")
        v = get(d, "toy:other")
        g.require(v is not None and same(v, ident(old)) is None, "an interrupted write damages another entry")


# ---- graph and view caches -------------------------------------------------------------------
def some_graph(g, tag):
    n, E = g.int(1, 6), g.int(0, 9)
    return GraphArtifact(n_nodes=n, edge_index=g.rng.integers(0, n, size=(2, E)), edge_weight=g.rng.random(E).astype(np.float32) if g.bool(0.6) else None, directed=g.bool(), meta={"tag": tag, "fingerprint": "f"})


def gview(x):
    return {"n": x.n_nodes, "ei": np.asarray(x.edge_index), "ew": x.edge_weight, "d": x.directed, "meta": dict(x.meta)}


def s_graph(g):
    old, new = some_graph(g, "old"), some_graph(g, "new")
    has_old, over = g.bool(0.7), g.bool(0.7)
    shards = [g.pick([None, 1, 2, 3]), g.pick([None, 1, 2, 3])]
    g.note(has_old=has_old, overwrite=over, shards=shards, weights=[old.edge_weight is not None, new.edge_weight is not None], edges=[old.n_edges, new.n_edges])
    cache = lambda d, i: GraphCache(root=Path(d), edge_shard_size=shards[i])  # noqa: E731
    base = fresh(g, None, "base")
    if has_old:
        cache(base, 0).save(fingerprint="f", graph=old, manifest={"who": "old"})
        if g.bool(0.3):
            (Path(base) / "f" / "_work").mkdir()
            (Path(base) / "f" / "_work" / "knn_0_1.npz").write_bytes(b"junk")

    def get(d):
        c = cache(d, 1)
        if not c.exists("f"):
            return None
        gr, man = c.load("f")
        return {**gview(gr), "who": man["who"], "has_w": man["has_edge_weight"], "E": man["n_edges"]}

    want = lambda x, who: {**gview(x), "who": who, "has_w": x.edge_weight is not None, "E": x.n_edges}  # noqa: E731
    drive(g, base, lambda d: cache(d, 1).save(fingerprint="f", graph=new, manifest={"who": "new"}, overwrite=over), get,
          {"new": want(new, "new"), "old": want(old, "old") if has_old else None})


def some_views(g, tag, n):
    return DatasetViews(views={k: g.rng.normal(size=(n, g.int(1, 3))) for k in (["attr", "diffusion", "struct"][: g.int(1, 3)])}, y=np.zeros(n, dtype=np.int64), masks={}, meta={"tag": tag})


def s_views(g):
    n = g.int(1, 5)
    old, new = some_views(g, "old", n), some_views(g, "new", n)
    has_old, over = g.bool(0.7), g.bool(0.7)
    g.note(has_old=has_old, overwrite=over, views=[sorted(old.views), sorted(new.views)])
    base = fresh(g, None, "base")
    if has_old:
        ViewsCache(root=Path(base)).save(fingerprint="v", views=old, manifest={"who": "old"})
    want = lambda x, who: {"views": dict(x.views), "meta": dict(x.meta), "who": who}  # noqa: E731

    def get(d):
        c = ViewsCache(root=Path(d))
        if not c.exists("v"):
            return None
        v, man = c.load("v", y=np.zeros(n, dtype=np.int64), masks={})
        return want(v, man["who"])

    drive(g, base, lambda d: ViewsCache(root=Path(d)).save(fingerprint="v", views=new, manifest={"who": "new"}, overwrite=over), get,
          {"new": want(new, "new"), "old": want(old, "old") if has_old else None})


def s_build(g):
    """the users of the graph caches recover from an interrupted build"""
    from modssc.graph import build_graph, graph_to_views
    from modssc.graph.specs import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec

    n = g.int(3, 9)
    X = g.rng.normal(size=(n, 2))
    spec = GraphBuilderSpec(scheme=g.pick(["knn", "epsilon"]), metric="euclidean", k=g.int(1, 3), radius=g.real(0.3, 2), weights=GraphWeightsSpec("heat", sigma=1.0),
                            symmetrize=g.pick(["none", "or"]), backend="numpy", chunk_size=g.int(1, 3), normalize="none")
    shard = g.pick([None, 2])
    fs = GraphFeaturizerSpec(views=g.pick([("attr",), ("attr", "diffusion")]), diffusion_steps=2)
    g.note(n=n, scheme=spec.scheme, chunk=spec.chunk_size, shard=shard)
    want = build_graph(X, spec=spec, cache=False)
    node = NodeDataset(X=X, y=np.zeros(n, dtype=np.int64), graph=want, masks={})
    wantv = graph_to_views(node, spec=fs, cache=False)

    def write(d):
        build_graph(X, spec=spec, cache_dir=d + "/g", edge_shard_size=shard)
        graph_to_views(node, spec=fs, cache=True, cache_dir=d + "/v")

    def read(d):
        gr = build_graph(X, spec=spec, cache_dir=d + "/g", edge_shard_size=g.pick([None, shard]))
        v = graph_to_views(node, spec=fs, cache=True, cache_dir=d + "/v")
        return {"g": gview(gr), "v": v.views}

    drive(g, None, write, read, {"new": {"g": gview(want), "v": wantv.views}}, cap=10, again=False)


# ---- preprocessing cache ---------------------------------------------------------------------
def some_outputs(g, tag):
    out = {}
    for k in ["features.X", "labels.y", "tokens.input_ids", "raw.note", "a.b", "a__b"]:
        if g.bool(0.5):
            out[k] = g.pick([lambda: g.rng.normal(size=(3, 2)), lambda: g.rng.integers(0, 9, 4), lambda: np.array(["x", tag], dtype=object), lambda: {"t": tag, "v": [1, 2]},
                             lambda: tag * 3, lambda: np.array([[1, 2], "z"], dtype=object), lambda: __import__("scipy.sparse", fromlist=["x"]).csr_matrix(g.rng.random((2, 3)))])()
    out["tag"] = tag
    return out


def s_step(g):
    old, new = some_outputs(g, "old"), some_outputs(g, "new")
    has_old, other = g.bool(0.7), g.bool(0.5)
    sp = g.pick(["train", "test"])
    osp = "test" if sp == "train" else "train"
    g.note(has_old=has_old, other=other, split=sp, keys=[sorted(old), sorted(new)])
    cm = lambda d: CacheManager(root=Path(d), dataset_fingerprint="ds")  # noqa: E731
    base = fresh(g, None, "base")
    if has_old:
        cm(base).save_step_outputs(step_fingerprint="s", split=sp, produced=old, manifest={"step_id": "x"})
    if other:
        cm(base).save_step_outputs(step_fingerprint="s", split=osp, produced=old, manifest={"step_id": "x"})

    def get(d, sp=sp):
        c = cm(d)
        if not c.has_step_outputs("s", split=sp):
            return None
        return c.load_step_outputs(step_fingerprint="s", split=sp) or None

    drive(g, base, lambda d: cm(d).save_step_outputs(step_fingerprint="s", split=sp, produced=new, manifest={"step_id": "x"}), get, {"new": new, "old": old if has_old else None})
    if other:
        d = fresh(g, base, "oo")
        n, _ = inject(lambda: cm(d).save_step_outputs(step_fingerprint="s", split=sp, produced=new, manifest={"step_id": "x"}), d)
        d = fresh(g, base, "oo")
        inject(lambda: cm(d).save_step_outputs(step_fingerprint="s", split=sp, produced=new, manifest={"step_id": "x"}), d, g.int(0, n), g.pick(["stop", "torn", "empty"]))
        v = get(d, osp)
        g.require(v is not None and same(v, old) is None, "an interrupted write damages the other split's entry")


def s_pipeline(g):
    from bounded.c06 import answer, graph_case

    kind, ds, steps = graph_case(g) if g.bool(0.3) else prep.gen_case(g, g.pick(["num", "clean", "text", "table"]))
    ds = prep.fingerprinted(ds)
    k = dict(seed=g.int(0, 9), fit_indices=prep.gen_fit(g, len(ds.train.X)))
    plan = prep.PreprocessPlan(steps=tuple(steps), output_key="features.X")
    try:
        want = answer(ds, plan, cache=False, **k)
    except Exception:  # noqa: BLE001
        raise Skip() from None
    drive(g, None, lambda d: answer(ds, plan, cache=True, cache_dir=d, **k), lambda d: answer(ds, plan, cache=True, cache_dir=d, **k), {"new": want}, cap=8, again=False)


SCENARIOS = [("text", s_text, 60, 1), ("dataset", s_dataset, 70, 2), ("graph", s_graph, 90, 1), ("views", s_views, 60, 1), ("build", s_build, 40, 1), ("step", s_step, 100, 1),
             ("pipeline", s_pipeline, 60, 1)]
