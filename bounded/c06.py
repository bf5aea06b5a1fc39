"""Run-time contract: preprocessing with the cache equals preprocessing without it."""
import os
import shutil
from pathlib import Path

from bounded.prep import *
from bounded.util import same
from modssc.preprocess.services.pipeline import preprocess
from modssc.preprocess.store import ArtifactStore
from modssc.preprocess import registry as reg_mod
from vf.gen import Skip

RULE = "histories of preprocessing requests (datasets, plans, seeds, fit rows) sharing one cache directory, with entries removed in between; distinct by history"
EXPLANATION = ("Every request of a history is answered with and without the shared cache and compared; every read of every built-in step is "
               "compared with the inputs its cache identity covers.")


def graph_case(g):
    n, E = g.int(3, 12), g.int(1, 20)
    X = g.rng.normal(size=(n, 3))
    ei = g.rng.integers(0, n, size=(2, E))
    ds = LoadedDataset(train=Split(X=X, y=g.rng.integers(0, 2, n), edges=ei), test=None, meta={"modality": g.pick(["graph", "graph", ""])})
    if not ds.meta["modality"]:
        ds = LoadedDataset(train=ds.train, test=None, meta={})
    if g.bool(0.3):
        ds = LoadedDataset(train=ds.train, test=Split(X=X[::-1].copy(), y=ds.train.y, edges=ei[::-1].copy()), meta=ds.meta)
    steps = []
    for _ in range(g.int(1, 4)):
        steps.append(g.pick([cfg("graph.attach_edge_weight", weight=g.pick([1.0, 2.0, 0.5])),
                             cfg("graph.edge_sparsify", keep_fraction=g.pick([0.3, 0.6, 1.0])),
                             cfg("core.copy_raw"), cfg("core.ensure_2d"), cfg("core.cast_dtype", dtype=g.pick(["float32", "float64"])),
                             cfg("graph.sparse_adjacency")]))
    return "graph", ds, steps


def torch_case(g):
    kind, ds, steps = gen_case(g, g.pick(["text", "clean"]))
    keys = ["features.X", "tokens.input_ids"] if kind == "text" else ["features.X", "raw.X"]
    steps = [s for s in steps if not s.step_id.startswith("labels")] + [cfg("core.to_torch", input_key=g.pick(keys), dtype=g.pick(["float32", "auto", None]))]
    steps.insert(g.int(0, len(steps)), g.pick([cfg("labels.encode"), cfg("labels.to_numpy")]))
    if g.bool() and ds.train.y.dtype.kind in "iu":
        steps.append(cfg("labels.to_torch", dtype=g.pick(["int64", "int32"])))
    return kind, ds, steps


def label_steps(g):
    return [g.pick([cfg("labels.encode"), cfg("labels.to_numpy"), cfg("labels.ensure_onehot", unlabeled_value=g.pick([-1, 0]))]) for _ in range(g.int(1, 2))] + \
        ([cfg("labels.to_torch", dtype=g.pick(["int64", "int32"]))] if g.bool() else [])


def vary(g, steps):
    """another plan of the same kind, often differing in one step only"""
    steps = list(steps)
    for _ in range(g.int(1, 2)):
        if not steps:
            return steps
        i = g.int(0, len(steps) - 1)
        s = steps[i]
        p = dict(s.params)
        how = g.pick(["param", "param", "param", "drop", "swap", "dup", "disable"])
        if how == "param" and p:
            k = g.pick(sorted(p))
            v = p[k]
            alt = {"dtype": ["float32", "float64"], "strategy": ["mean", "median", "constant"], "order": ["NCHW", "NHWC"], "weight": [1.0, 2.0, 5.0],
                   "keep_fraction": [0.2, 0.9, 1.0], "input_key": ["features.X", "raw.X"]}.get(k)
            if alt:
                p[k] = g.pick(alt)
            elif isinstance(v, bool):
                p[k] = not v
            elif isinstance(v, int):
                p[k] = v + 1
            elif isinstance(v, float):
                p[k] = v * 10
            steps[i] = cfg(s.step_id, **p)
        elif how == "drop":
            steps.pop(i)
        elif how == "swap" and len(steps) > 1:
            j = g.int(0, len(steps) - 1)
            steps[i], steps[j] = steps[j], steps[i]
        elif how == "dup":
            steps.insert(i, s)
        elif how == "disable":
            steps[i] = StepConfig(step_id=s.step_id, params=p, enabled=False)
    return steps


def alter(g, ds, kind):
    """a dataset of the same shape with other contents"""
    sp = lambda s: None if s is None else Split(X=spoil(g, s.X, range(len(s.X)), "clean" if kind == "graph" else kind), y=s.y if g.bool() else s.y[::-1].copy(), edges=s.edges, masks=s.masks)  # noqa: E731
    return LoadedDataset(train=sp(ds.train), test=sp(ds.test), meta=dict(ds.meta))


def answer(ds, plan, **k):
    r = preprocess(ds, plan, **k)
    return {"train": r.dataset.train, "test": r.dataset.test, "a": r.train_artifacts.data, "t": None if r.test_artifacts is None else r.test_artifacts.data}


def compare(g, a, b, msg, purge=False):
    for part in ("train", "test"):
        d = same(a[part], b[part])
        g.require(d is None, f"{msg}: {part} {d}")
    if not purge:
        for part in ("a", "t"):
            d = same(a[part], b[part])
            g.require(d is None, f"{msg}: artifacts of {part} {d}")


def s_history(g):
    fam = g.pick(["num", "num", "graph", "torch", "labels", "any"])
    ident = g.bool(0.85)
    g.note(identity=ident)
    base = {"graph": graph_case, "torch": torch_case}.get(fam, lambda g: gen_case(g, "clean" if fam in ("num", "labels") else None))(g)
    kind, ds, steps = base
    if fam == "labels":
        steps = label_steps(g)
    reqs, hist = [], []
    n = len(ds.train.X)
    fits = [gen_fit(g, n), gen_fit(g, n)]
    if g.bool(0.3):  # the same rows in another order, or some of them counted several times
        fits[1] = g.rng.permutation(fits[0]) if g.bool() else np.concatenate([fits[0], g.rng.choice(fits[0], g.int(1, 3 * fits[0].size))])
    pool = [ds, alter(g, ds, kind)]
    for _ in range(g.int(2, 6)):
        d = pool[0] if g.bool(0.7) else pool[1]
        d = fingerprinted(d) if ident else d
        st = steps if g.bool(0.4) else vary(g, steps)
        reqs.append((d, st, g.pick([0, 0, 1, 7]), g.pick(fits), g.pick(["features.X", "features.X", "raw.X", "tokens.input_ids"])))
        if g.bool(0.3):
            reqs.append(g.pick(reqs))
    cd = g.tmp + "/pc"
    done = 0
    for d, st, seed, fit, out in reqs:
        plan = PreprocessPlan(steps=tuple(st), output_key=out)
        hist.append({"steps": [(s.step_id, dict(s.params), s.enabled) for s in st], "seed": seed, "fit": fit.tolist(), "out": out, "ds": str(d.meta.get("dataset_fingerprint"))[:6]})
        g.note(history=hist)
        before = copy.deepcopy(d)
        try:
            a = answer(d, plan, seed=seed, fit_indices=fit, cache=False)
        except Exception:
            continue
        r = same(before, d)
        g.require(r is None, f"preprocessing modifies the dataset: {r}")
        try:
            b = answer(d, plan, seed=seed, fit_indices=fit, cache=True, cache_dir=cd)
        except Exception as e:  # noqa: BLE001
            g.require(False, f"preprocessing fails with the cache only: {type(e).__name__}: {e}")
        compare(g, a, b, "with and without cache differ")
        r = same(before, d)
        g.require(r is None, f"preprocessing with the cache modifies the dataset: {r}")
        if g.bool(0.25):
            c = answer(d, plan, seed=seed, fit_indices=fit, cache=True, cache_dir=cd, purge_unused_artifacts=True) if out in b["a"] or True else None
            compare(g, a, c, "purging unused artifacts changes the result", purge=True)
        done += 1
        if g.bool(0.3):
            # partly filled cache: drop whole entries or the outputs of one split
            dirs = sorted(p for p in Path(cd).glob("*/steps/*") if p.is_dir())
            if dirs:
                p = g.pick(dirs)
                hist.append({"removed": p.name[:12]})
                how = g.pick(["step", "test", "train", "manifest"])
                if how == "step":
                    shutil.rmtree(p)
                elif how == "manifest":
                    (p / "manifest.json").unlink(missing_ok=True)
                else:
                    shutil.rmtree(p / how, ignore_errors=True)
                hist[-1]["how"] = how
    if not done:
        raise Skip()


def s_reads(g):
    """a step's cache identity changes with the provenance of everything the step reads"""
    fam = g.pick(["graph", "torch", "labels", "any", "any"])
    kind, ds, steps = {"graph": graph_case, "torch": torch_case}.get(fam, lambda g: gen_case(g))(g)
    if fam == "labels":
        steps = label_steps(g)
    ds = fingerprinted(ds)
    n = len(ds.train.X)
    fit, seed = gen_fit(g, n), g.int(0, 9)
    i = g.int(0, len(steps) - 1)
    target = steps[i]
    g.note(target=target.step_id)
    # two prefixes that make the target read different values: same length, different parameters
    alt = vary(g, steps[:i]) if i else []
    if len(alt) != i:
        raise Skip()
    cd = g.tmp + "/pc"
    for pre in (steps[:i], alt):
        plan = PreprocessPlan(steps=tuple(list(pre) + [target]), output_key=g.pick(["features.X", "labels.y"]))
        try:
            a = answer(ds, plan, seed=seed, fit_indices=fit, cache=False)
        except Exception:
            continue
        b = answer(ds, plan, seed=seed, fit_indices=fit, cache=True, cache_dir=cd)
        compare(g, a, b, f"{target.step_id} reads an artifact its cache identity does not cover")


def s_partial(g):
    """entries of single splits are missing: what is recomputed matches"""
    kind, ds, steps = graph_case(g) if g.bool(0.7) else gen_case(g)
    if kind == "graph":
        ds = LoadedDataset(train=ds.train, test=Split(X=ds.train.X[::-1].copy(), y=ds.train.y, edges=ds.train.edges[:, ::-1].copy()), meta=ds.meta)
        steps = [cfg("graph.attach_edge_weight", weight=2.0), cfg("graph.edge_sparsify", keep_fraction=g.pick([0.4, 0.7])), *steps[:g.int(0, 2)]]
    if ds.test is None:
        raise Skip()
    ds = fingerprinted(ds)
    k = dict(seed=g.int(0, 9), fit_indices=gen_fit(g, len(ds.train.X)))
    plan, cd = PreprocessPlan(steps=tuple(steps), output_key="features.X"), g.tmp + "/pc"
    try:
        a = answer(ds, plan, cache=False, **k)
    except Exception:
        raise Skip() from None
    compare(g, a, answer(ds, plan, cache=True, cache_dir=cd, **k), "cold cache")
    gone = []
    for p in sorted(Path(cd).glob("*/steps/*")):
        for sp in ("train", "test"):
            if g.bool(0.4):
                shutil.rmtree(p / sp, ignore_errors=True)
                gone.append((p.name[:12], sp))
    g.note(steps=[s.step_id for s in steps], gone=gone, seed=k["seed"])
    compare(g, a, answer(ds, plan, cache=True, cache_dir=cd, **k), "partly filled cache")
    compare(g, a, answer(ds, plan, cache=True, cache_dir=cd, **k), "refilled cache")


SCENARIOS = [("history", s_history, 1500, 4), ("reads", s_reads, 1200, 3), ("partial", s_partial, 300, 2)]
