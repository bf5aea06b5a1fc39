"""Run-time contract: stored datasets and artifacts are loaded back unchanged."""
import copy
import json
import os
from pathlib import Path

import numpy as np

from bounded.util import same
from modssc.data_loader.numpy_adapter import to_numpy
from modssc.data_loader.storage.files import FileStorage
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import cache as pcache
from modssc.preprocess.cache import CacheManager
from modssc.preprocess.errors import PreprocessCacheError
from vf.gen import Skip

RULE = "arrays of every element type and shape (empty, scalar, nested, object), lists, sparse matrices, tensors, names; distinct by values and names"
EXPLANATION = "Whatever a store accepts is saved, loaded and compared in value, shape and element type."
STR = ["", "a", "é", "line\nbreak", "tab\t", '"q"', "日本", "nan", "\\", "a" * 50, "\u2028", "0"]


def shape(g):
    return g.pick([(), (0,), (1,), (g.int(2, 6),), (0, 3), (3, 0), (2, 2), (g.int(1, 4), g.int(1, 4)), (2, 3, 2), (1, 1, 1)])


def arr(g, sh=None, obj=True):
    sh = shape(g) if sh is None else sh
    kinds = ["f8", "f4", "f2", "i8", "i4", "u1", "b1", "c16", "U", "S", ">f8", ">i4", "M8"] + (["O_str", "O_mix", "O_list", "O_num", "O_big"] if obj else [])
    k = g.pick(kinds)
    n = int(np.prod(sh))
    g.note(dtype=k, shape=sh)
    if k == "U":
        a = np.array([g.pick(STR[:-3]) for _ in range(n)], dtype=str).reshape(sh)
    elif k == "S":
        a = np.array([g.pick([b"", b"ab", b"x\x01"]) for _ in range(n)], dtype="S3").reshape(sh)
    elif k == "M8":
        a = np.array([g.int(0, 10**6) for _ in range(n)], dtype="M8[s]").reshape(sh)
    elif k == "b1":
        a = (g.rng.random(sh) < 0.5) if sh else np.asarray(g.bool())
    elif k.startswith("O"):
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = {"O_str": lambda: g.pick(STR), "O_mix": lambda: g.pick([1, 2.5, "s", None, True, float("nan"), (1, 2), [1, "x"], {"k": 1}, {1: 2}, b"by", np.float32(0.5), np.int64(3), -0.0]),
                    "O_list": lambda: [g.pick(STR[:4]) for _ in range(2)], "O_num": lambda: g.pick([1, 2.5, -3]),
                    "O_big": lambda: g.pick([2**70, -(2**64), "1"])}[k]()
        if g.bool(0.15) and n:
            a[g.int(0, n - 1)] = np.arange(2)
        a = a.reshape(sh)
    else:
        v = g.rng.normal(size=sh) * 50 if k[-2:] not in ("i8", "i4", "u1") else g.rng.integers(0, 99, size=sh)
        a = np.asarray(v).astype(k)
        if a.dtype.kind in "fc" and a.size and g.bool(0.4):
            a = a.copy()
            a.flat[g.int(0, a.size - 1)] = g.pick([np.nan, np.inf, -np.inf, -0.0])
    if a.ndim > 1 and g.bool(0.2):
        a = np.asfortranarray(a)
    return a


def jsonable(g, depth=0):
    opts = [lambda: g.pick(STR), lambda: g.int(-9, 10**12), lambda: g.real(-1, 1), lambda: g.bool(), lambda: None]
    if depth < 3:
        opts += [lambda: [jsonable(g, depth + 1) for _ in range(g.int(0, 4))], lambda: {g.pick(STR): jsonable(g, depth + 1) for _ in range(g.int(0, 3))}]
    return g.pick(opts)()


def listval(g):
    return g.pick([lambda: ["a", "bb"], lambda: [1, 2, 3], lambda: [[1, 2], [3, 4]], lambda: [1.5, 2], lambda: ["x"] * g.int(0, 4),
                   lambda: [True, False], lambda: (1, 2)])()


def split(g, graph):
    X = arr(g) if g.bool(0.8) else listval(g)
    y = arr(g) if g.bool(0.8) else listval(g)
    e = g.rng.integers(0, 5, size=(2, g.int(0, 6))) if graph else None
    names = ["train", "val", "test", "labeled", "X", "m_x"] if g.bool() else g.rng.permutation(["fold-1", "fold_1", "fold.1", "fold 1", "Fold_1", "fold1", "y", "mask_y", "0", "edges"]).tolist()
    m = {k: g.rng.random(g.int(0, 5)) < 0.5 for k in names[: g.int(0, 6)]} if graph else None
    if m and g.bool(0.3):
        m = {k: v.astype(int) for k, v in m.items()}
    return Split(X=X, y=y, edges=e, masks=m)


def as_arrays(s):
    return Split(X=to_numpy(s.X), y=to_numpy(s.y), edges=None if s.edges is None else to_numpy(s.edges),
                 masks=None if s.masks is None else {k: to_numpy(v, dtype=bool) for k, v in s.masks.items()})


def s_dataset(g):
    graph = g.bool(0.4)
    ds = LoadedDataset(train=split(g, graph), test=split(g, graph) if g.bool() else None, meta={g.pick(STR): jsonable(g) for _ in range(g.int(0, 4))})
    before = copy.deepcopy(ds)
    d = Path(g.tmp) / "p"
    st = FileStorage()
    if g.bool(0.2):
        st.save(d, LoadedDataset(train=split(g, True), test=split(g, True), meta={"old": 1}))
    g.note(X=repr(ds.train.X), y=repr(ds.train.y))
    st.save(d, ds)
    r = same(before, ds)
    g.require(r is None, f"saving modifies the dataset: {r}")
    os.environ["MODSSC_DATA_LOADER_MMAP_THRESHOLD"] = g.pick(["1", str(64 * 1024 * 1024)])
    b = st.load(d)
    for name in ("train", "test"):
        x, y = getattr(ds, name), getattr(b, name)
        g.require((x is None) == (y is None), f"{name} split appears or disappears")
        if x is not None:
            r = same(as_arrays(x), y)
            g.require(r is None, f"{name} split changes in storage: {r}")
    if g.bool(0.3):
        # what a reader does to its arrays reaches no later reader
        for sp in (b.train, b.test):
            for v in (sp.X, sp.y, sp.edges, *(sp.masks or {}).values()) if sp is not None else ():
                try:
                    v[...] = v[::-1].copy()
                    v.fill(v.dtype.type(0))
                    v.flush()
                except (ValueError, TypeError, IndexError, AttributeError):
                    pass
        c = st.load(d)
        r = same(as_arrays(ds.train), c.train) or (same(as_arrays(ds.test), c.test) if ds.test is not None else None)
        g.require(r is None, f"changing a loaded array changes the store: {r}")
    r = same(dict(ds.meta), dict(b.meta))
    g.require(r is None, f"metadata changes in storage: {r}")


def value(g):
    import scipy.sparse as sp
    import torch

    k = g.pick(["arr", "arr", "arr", "json", "sparse", "torch", "list"])
    if k == "arr":
        return arr(g)
    if k == "json":
        return jsonable(g)
    if k == "list":
        return g.pick([["a", "b"], [1, 2.5, None], {"a": [1, 2]}, {"a": {"b": 1}}, {1: 2}, [(1, 2)], {"t": (1,)}, [np.arange(2)], {"x": np.arange(2)}])
    if k == "sparse":
        m = sp.random(g.int(1, 5), g.int(1, 5), 0.4, format=g.pick(["csr", "csc", "coo"]), random_state=g.int(0, 99), dtype=g.pick([np.float64, np.float32]))
        return m
    dt = g.pick([torch.float32, torch.float64, torch.int64, torch.int32, torch.bool, torch.float16, torch.bfloat16, torch.uint8])
    t = (torch.rand(shape(g)) * 9).to(dt)
    g.note(torch=str(dt))
    return t


NAMES = ["features.X", "features__X", "raw.X", "labels.y", "labels__y", "labels.y_onehot", "tokens.input_ids", "a.b", "a/b", "a_b", "a..b", "a__b", "a.b.c", "a__b__c", "a", "A.b", "graph.edge_index"]


def s_artifacts(g):
    cm = CacheManager(root=Path(g.tmp) / "c", dataset_fingerprint="fp")
    model = {}
    pcache.MMAP_THRESHOLD_BYTES = g.pick([1, 64 * 1024 * 1024])
    for _ in range(g.int(1, 3)):
        sp, fp = g.pick(["train", "test"]), g.pick(["step:1", "step:2"])
        ks = [g.pick(NAMES) for _ in range(g.int(0, 5))]
        prod = {k: value(g) for k in ks}
        before = copy.deepcopy(prod)
        g.note(produced={k: repr(v)[:80] for k, v in prod.items()})
        try:
            cm.save_step_outputs(step_fingerprint=fp, split=sp, produced=prod, manifest={"step_id": "s"})
        except NotImplementedError:
            raise Skip() from None
        r = same(before, prod)
        g.require(r is None, f"saving modifies an artifact: {r}")
        model[fp, sp] = before
        for (f, s), want in model.items():
            got = cm.load_step_outputs(step_fingerprint=f, split=s)
            g.require(set(got) <= set(want), f"artifacts appear from nowhere: {sorted(set(got) - set(want))}")
            for k, v in want.items():
                if k not in got:
                    g.require(not isinstance(v, (np.ndarray, str, int, float)), f"array artifact {k} is not stored")
                    continue
                w = v if not isinstance(v, tuple) else list(v)
                r = same(w, got[k])
                g.require(r is None, f"artifact {k} changes in the cache: {r}")
                if isinstance(got[k], np.ndarray) and got[k].size and g.bool(0.3):
                    try:  # what a reader does to its arrays reaches no later reader
                        got[k].fill(got[k].dtype.type(0))
                        got[k].flush()
                    except (ValueError, TypeError, AttributeError):
                        pass
                    r = same(w, cm.load_step_outputs(step_fingerprint=f, split=s)[k])
                    g.require(r is None, f"changing the loaded artifact {k} changes the cache: {r}")


def s_text(g):
    """JSON helpers used by manifests keep values"""
    from modssc.preprocess.fingerprint import fingerprint, stable_json_dumps

    a, b = jsonable(g), jsonable(g)
    g.require(same(json.loads(stable_json_dumps(a)), a) is None, "stable JSON changes a value")
    if same(a, b) is not None:
        g.require(fingerprint(a) != fingerprint(b), "different values have the same fingerprint", a=a, b=b)


SCENARIOS = [("dataset", s_dataset, 2500, 2), ("artifacts", s_artifacts, 2500, 3), ("text", s_text, 1500)]
