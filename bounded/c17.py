"""Run-time contract: feature views select the columns they declare."""
import copy

import numpy as np

from bounded.prep import cfg
from bounded.util import same
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess.plan import PreprocessPlan
from modssc.preprocess.services.pipeline import preprocess
from modssc.views import generate_views
from modssc.views.errors import ViewsValidationError
from modssc.views.plan import ColumnSelectSpec, ViewsPlan, ViewSpec, two_view_random_feature_split
from vf.gen import Skip

RULE = "datasets of 1-14 feature columns (arrays, torch tensors, graph dictionaries, 3-D arrays), plans of 2-5 views, seeds; distinct by dataset shape, plan and seed"
EXPLANATION = "Columns and features of every view are compared with their definition computed from the input (or separately preprocessed) features."


def feats(x):
    return np.asarray(x["x"] if isinstance(x, dict) else x)


def dataset(g, d=None):
    n, m, d = g.int(1, 9), g.pick([None, g.int(1, 6)]), d or g.int(1, 14)
    kind = g.pick(["array", "array", "dict", "torch", "3d", "f32", "int"])

    def X(q):
        x = g.rng.normal(size=(q, d) if kind != "3d" else (q, d, g.int(2, 2)))
        if kind == "f32":
            x = x.astype(np.float32)
        if kind == "int":
            x = (x * 9).astype(int)
        if kind == "dict":
            return {"x": x, "edge_index": np.array([[0], [0]]), "extra": "e"}
        if kind == "torch":
            import torch

            return torch.as_tensor(x)
        return x

    y = g.rng.integers(0, 3, n)
    ed = g.rng.integers(0, n, (2, 4)) if g.bool(0.4) else None
    mk = {"train": g.rng.random(n) < 0.5} if g.bool(0.4) else None
    meta = {"name": "d", "nest": {"a": [1]}}
    if g.bool(0.3):
        meta["views"] = {"old": {"columns": [0]}}
        meta["view_meta"] = {"old": {"k": 1}}
    te = None if m is None else Split(X=X(m), y=g.rng.integers(0, 3, m), edges=None, masks=None)
    return LoadedDataset(train=Split(X=X(n), y=y, edges=ed, masks=mk), test=te, meta=meta), kind, d


def plan(g, d, pre_ok):
    views, dims = [], {}
    for i in range(g.int(2, 5)):
        name = g.pick(["view_", "v", "a b", "ü"]) + str(i)
        modes = ["none", "all", "indices", "random", "random"] + (["complement"] * 2 if views else [])
        mode = g.pick(modes)
        spec, pre, w = None, None, d
        if pre_ok and g.bool(0.3):
            w = g.int(1, d)
            pre = PreprocessPlan(steps=(cfg("core.ensure_2d"), cfg("core.pca", n_components=w)) if g.bool() else (cfg("core.ensure_2d"), cfg("tabular.standard_scaler"), cfg("core.random_projection", n_components=w)))
        if mode == "all":
            spec = ColumnSelectSpec()
        elif mode == "indices":
            ix = g.rng.permutation(w)[: g.int(1, w)].tolist()
            spec = ColumnSelectSpec(mode="indices", indices=tuple(ix))
        elif mode == "random":
            spec = ColumnSelectSpec(mode="random", fraction=g.pick([0.5, 1.0, 0.01, 1 / 3, 0.99, g.real(0.01, 1.0)]), seed_offset=g.pick([0, 0, 1, 7]))
        elif mode == "complement":
            spec = ColumnSelectSpec(mode="complement", complement_of=g.pick(list(dims)))
        views.append(ViewSpec(name=name, preprocess=pre, columns=spec, meta=g.pick([None, {"role": "r"}])))
        dims[name] = w
    return ViewsPlan(views=tuple(views))


def s_views(g):
    ds, kind, d = dataset(g)
    n = ds.train.y.shape[0]
    p, seed = plan(g, d, kind in ("array", "f32", "int")), g.pick([0, 1, g.int(0, 2**31)])
    fit = None if g.bool() else np.sort(g.rng.permutation(n)[: g.int(1, n)])
    g.note(kind=kind, d=d, n=n, seed=seed, fit=None if fit is None else fit.tolist(),
           views=[(v.name, v.columns, None if v.preprocess is None else [s.step_id for s in v.preprocess.steps]) for v in p.views])
    before, pb = copy.deepcopy(ds), copy.deepcopy(p)
    np.random.seed(g.int(0, 99))

    # the features every view is cut from
    base, expected_error = {}, None
    for v in p.views:
        e = ds if v.preprocess is None else preprocess(ds, plan=v.preprocess, seed=seed, fit_indices=np.arange(n) if fit is None else fit, cache=False).dataset
        base[v.name] = e
    widths = {k: feats(e.train.X).shape[1] for k, e in base.items()}
    try:
        r = generate_views(ds, plan=p, seed=seed, cache=False, fit_indices=fit)
    except ViewsValidationError as ex:
        # allowed only for explicit indices out of range, an empty complement or a complement of another width
        ok = any(v.columns is not None and v.columns.mode == "complement" for v in p.views) or any(
            v.columns is not None and v.columns.mode == "indices" and max(v.columns.indices) >= widths[v.name] for v in p.views)
        g.require(ok, "views refused although every column exists", error=str(ex))
        g.require(same(before, ds) is None, "the input dataset was modified (refused plan)")
        return
    g.require(list(r.views) == [v.name for v in p.views] and set(r.columns) == set(r.views), "views missing or reordered", got=list(r.views))
    for v in p.views:
        c, w = r.columns[v.name], widths[v.name]
        g.require(c.ndim == 1 and c.dtype.kind == "i" and c.size >= 1 and c.min() >= 0 and c.max() < w, "columns out of range", view=v.name, columns=c.tolist(), width=w)
        g.require(bool(np.all(np.diff(c) > 0)), "columns not sorted and unique", view=v.name, columns=c.tolist())
        s = v.columns
        if s is None or s.mode == "all":
            g.require(c.tolist() == list(range(w)), "a full view misses columns", columns=c.tolist())
        elif s.mode == "indices":
            g.require(c.tolist() == sorted(s.indices), "explicit columns not used exactly", columns=c.tolist())
        elif s.mode == "random":
            k = c.size
            g.require(1 <= k <= w and (abs(k - s.fraction * w) <= 0.5 + 1e-9 or (k == 1 and s.fraction * w <= 0.5)), "random view of another size than the fraction", k=k, wanted=s.fraction * w)
        else:
            o = r.columns[s.complement_of]
            g.require(w == widths[s.complement_of], "complement across different feature spaces accepted", view=v.name)
            g.require(sorted(c.tolist() + o.tolist()) == list(range(w)), "a complement view is not the complement", columns=c.tolist(), of=o.tolist())
        got, src = r.views[v.name], base[v.name]
        for side in ("train", "test"):
            a, b = getattr(got, side), getattr(src, side)
            if b is None:
                g.require(a is None, "a test split appeared")
                continue
            g.require(same(feats(a.X), feats(b.X)[:, c]) is None, "view features are not the declared columns", view=v.name, side=side, why=same(feats(a.X), feats(b.X)[:, c]))
            if isinstance(b.X, dict):
                g.require(set(a.X) == set(b.X) and all(same(a.X[k], b.X[k]) is None for k in b.X if k != "x"), "other entries of a graph dictionary changed")
            for f in ("y", "edges", "masks"):
                g.require(same(getattr(a, f), getattr(getattr(before, side), f)) is None, f"{f} changed in a view", view=v.name, side=side)
        m = got.meta["views"][v.name]
        g.require(m["columns"] == c.tolist(), "recorded columns differ from the columns used")
    g.require(same(before, ds) is None, "the input dataset was modified", why=same(before, ds))
    g.require(p == pb, "the plan was modified")
    # a function of dataset, plan and seed; each random view of seed, name and offset only
    np.random.seed(5)
    r2 = generate_views(ds, plan=p, seed=seed, cache=False, fit_indices=fit)
    g.require(same(r.columns, r2.columns) is None and all(same(feats(r.views[k].train.X), feats(r2.views[k].train.X)) is None for k in r.views), "two runs differ")
    rnd = [v for v in p.views if v.columns is not None and v.columns.mode == "random"]
    if rnd and all(v.columns is None or v.columns.mode != "complement" for v in p.views):
        q = ViewsPlan(views=tuple(reversed(p.views)))
        r3 = generate_views(ds, plan=q, seed=seed, cache=False, fit_indices=fit)
        g.require(same(r.columns, r3.columns) is None, "the order of independent views changed their columns")


def s_two(g):
    ds, kind, d = dataset(g, g.int(2, 14))
    f, seed = g.pick([0.5, 0.3, 0.9]), g.int(0, 999)
    if not 1 <= round(f * d) < d:
        raise Skip()
    g.note(kind=kind, d=d, fraction=f, seed=seed)
    r = generate_views(ds, plan=two_view_random_feature_split(fraction=f), seed=seed, cache=False)
    a, b = r.columns["view_a"], r.columns["view_b"]
    g.require(sorted(a.tolist() + b.tolist()) == list(range(d)), "the two views do not partition the columns", a=a.tolist(), b=b.tolist())


def s_spread(g):
    """seeds and offsets matter: over many of them a half view is not constant"""
    d = g.int(10, 14)
    ds = LoadedDataset(train=Split(X=g.rng.normal(size=(3, d)), y=np.arange(3)), test=None, meta={})
    base = g.int(0, 10**6)
    for what in ("seed", "offset"):
        got = set()
        for i in range(12):
            p = two_view_random_feature_split(seed_offset=i if what == "offset" else 0)
            got.add(tuple(generate_views(ds, plan=p, seed=base + (i if what == "seed" else 0), cache=False).columns["view_a"].tolist()))
        g.require(len(got) > 1, f"the {what} does not influence a random view")


def s_bad(g):
    ds, kind, d = dataset(g)
    V = lambda **k: ViewsPlan(views=(ViewSpec(name="a", columns=ColumnSelectSpec(**k)), ViewSpec(name="b")))  # noqa: E731
    bad = [V(mode="indices", indices=(d,)), V(mode="indices", indices=(0, 0)), V(mode="indices", indices=(-1,)), V(mode="indices"), V(mode="random", fraction=0.0),
           V(mode="random", fraction=1.5), V(mode="complement", complement_of="b"), V(mode="complement", complement_of="a"), V(mode="complement"), V(mode="odd"),
           ViewsPlan(views=(ViewSpec(name="a"),)), ViewsPlan(views=(ViewSpec(name="a"), ViewSpec(name="a"))), ViewsPlan(views=(ViewSpec(name=" "), ViewSpec(name="a"))),
           ViewsPlan(views=(ViewSpec(name="a"), ViewSpec(name="b", columns=ColumnSelectSpec(mode="complement", complement_of="a"))))]
    i = g.int(0, len(bad) - 1)
    g.note(case=i, d=d)
    g.raises(lambda: generate_views(ds, plan=bad[i], cache=False), ViewsValidationError, "an invalid view plan was accepted")


SCENARIOS = [("views", s_views, 700, 2), ("two", s_two, 150, 1), ("spread", s_spread, 6, 1), ("bad", s_bad, 150, 1)]
