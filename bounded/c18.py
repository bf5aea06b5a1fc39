"""Run-time contract: augmentation is a deterministic, non-destructive function of its context."""
import copy
import random
import types
from collections import Counter

import numpy as np

from bounded.util import close, same
from modssc.data_augmentation import AugmentationContext, AugmentationPlan, StepConfig, available_ops, build_pipeline, get_op
from modssc.data_augmentation.api import build_strategy, make_context_rng
from modssc.data_augmentation.types import GraphSample
from vf.gen import Skip

RULE = "every built-in operation, numpy and torch inputs of their modality (images in three layouts, token ids, strings, waveforms, tables, graphs in three containers), parameters, contexts; distinct by operation, parameters and input"
EXPLANATION = "Each output is compared with the documented effect on the input, with a second call under another global random state, and the input with a copy of itself."


def torch():
    import torch as t

    return t


def PRELOAD():
    torch().set_num_threads(1)


def ctx_of(g):
    return AugmentationContext(seed=g.pick([0, 1, g.int(0, 2**31)]), sample_id=g.int(0, 9), epoch=g.int(0, 4))


def shape_in(g, kind):
    if kind == "table":
        return (g.int(1, 6), g.int(1, 6)) if g.bool(0.7) else (g.int(1, 8),)
    if kind == "wave":
        return (g.int(1, 20),) if g.bool() else (g.int(1, 2), g.int(1, 20))
    if kind == "image":
        lay = g.pick(["hw", "hwc", "chw"])
        H, W, C = g.int(6, 12), g.int(6, 12), g.pick([1, 3])
        return {"hw": (H, W), "hwc": (H, W, C), "chw": (C, H, W)}[lay]


def numeric(g, kind, lib):
    x = g.rng.normal(size=shape_in(g, kind)) * g.pick([1, 10])
    if g.bool(0.2):
        x[...] = np.round(x)
    x = x.astype(g.pick([np.float32, np.float64]))
    return torch().as_tensor(x) if lib == "torch" else x


def tokens(g, lib, deep=False):
    x = g.rng.integers(0, g.pick([2, 4, 30]), size=g.pick([(g.int(0, 10),), (g.int(1, 4), g.int(1, 8))] + [(g.int(1, 3), g.int(1, 3), g.int(1, 5))] * deep))
    return torch().as_tensor(x) if lib == "torch" else x


def text(g):
    one = lambda: " ".join(g.pick(["a", "B", "cat", "cat", "Über", "dog."]) for _ in range(g.int(0, 7)))  # noqa: E731
    return one() if g.bool() else [one() for _ in range(g.int(0, 4))]


def graph(g, lib):
    n, E = g.int(1, 6), g.int(0, 12)
    x = g.rng.normal(size=(n, 3))
    ei = g.rng.integers(0, n, size=(2, E))
    if E != 2 and g.bool(0.3):
        ei = np.ascontiguousarray(ei.T)
    w = None if g.bool(0.4) else g.rng.random(E).astype(np.float32)
    if lib == "torch":
        t = torch()
        x, ei, w = t.as_tensor(x), t.as_tensor(ei), None if w is None else t.as_tensor(w)
    kind = g.pick(["sample", "dict", "attr"])
    if kind == "sample":
        return GraphSample(x=x, edge_index=ei, edge_weight=w, meta={"m": 1})
    if kind == "dict":
        d = {"x": x, "edge_index": ei, "other": "o"}
        if w is not None:
            d["edge_weight"] = w
        return d
    o = types.SimpleNamespace(x=x, edge_index=ei, other="o")
    if w is not None:
        o.edge_weight = w
    return o


def arr(x):
    return x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)


def gparts(o):
    d = o if isinstance(o, dict) else vars(o) if isinstance(o, types.SimpleNamespace) else {"x": o.x, "edge_index": o.edge_index, "edge_weight": o.edge_weight}
    ei = arr(d["edge_index"])
    ei = ei if ei.shape[0] == 2 else ei.T
    w = d.get("edge_weight")
    return arr(d["x"]), ei, None if w is None else arr(w).ravel()


def plain(o):
    return vars(o) if isinstance(o, types.SimpleNamespace) else o


def effect(g, op, p, x, out):
    """the documented effect of one operation"""
    R = g.require
    if op.startswith("graph."):
        X, ei, w = gparts(x)
        Y, fi, v = gparts(out)
        R(type(out) is type(x), "another graph container came out")
        if isinstance(x, dict) or isinstance(x, types.SimpleNamespace):
            R(plain(out).get("other") == "o", "another entry of the graph was lost")
        R(same(X.shape, Y.shape) is None and X.dtype == Y.dtype, "node features changed shape")
        R((w is None) == (v is None), "edge weights appeared or disappeared")
        if op == "graph.edge_dropout":
            R(same(X, Y) is None, "edge dropout changed node features")
            a = Counter(zip(ei[0].tolist(), ei[1].tolist(), ([0] * ei.shape[1] if w is None else w.tolist()), strict=True))
            b = Counter(zip(fi[0].tolist(), fi[1].tolist(), ([0] * fi.shape[1] if v is None else v.tolist()), strict=True))
            R(not b - a, "edge dropout produced an edge (with its weight) that is not in the input", extra=list((b - a))[:3])
            R(p["p"] != 0 or a == b, "edge dropout with p=0 dropped edges")
            R(p["p"] != 1 or not b, "edge dropout with p=1 kept edges")
            # the surviving edges keep their order
            it = iter(zip(*ei.tolist(), strict=True))
            R(all(any(e == f for f in it) for e in zip(*fi.tolist(), strict=True)), "surviving edges are reordered")
        else:
            R(same(ei, fi) is None and same(w, v) is None, "feature masking changed the edges")
            R(bool(np.all((Y == X) | (Y == 0))), "feature masking changed an entry to something other than zero")
            R(p["p"] != 1 or not np.any(Y), "feature masking with p=1 kept values")
            R(p["p"] != 0 or same(X, Y) is None, "feature masking with p=0 changed values")
        return
    if op.startswith("text.") and not op.startswith("text.token_"):
        R(type(out) is (str if isinstance(x, str) else list), "text came back in another container")
        A, B = ([x], [out]) if isinstance(x, str) else (list(x), out)
        R(len(A) == len(B), "another number of texts")
        for s, t in zip(A, B, strict=True):
            if op == "text.lowercase":
                R(t == s.lower(), "not the lower-case text")
            elif op == "text.random_swap":
                R(Counter(t.split()) == Counter(s.split()), "swapping changed the words", before=s, after=t)
            else:
                it = iter(s.split())
                R(all(any(w == q for q in it) for w in t.split()), "word dropout is not a subsequence", before=s, after=t)
                R(bool(t.split()) == bool(s.split()), "word dropout removed every word", before=s, after=t)
                R(p["p"] != 0 or t.split() == s.split(), "word dropout with p=0 dropped words")
        return
    A, B = arr(x), arr(out)
    R(A.shape == B.shape, "shape changed", before=A.shape, after=B.shape)
    R(hasattr(x, "detach") == hasattr(out, "detach"), "numpy and torch were swapped")
    R(A.dtype == B.dtype or op == "core.ensure_float32", "element type changed", before=str(A.dtype), after=str(B.dtype))
    if op == "core.identity":
        R(same(A, B) is None, "identity changed the input")
    elif op == "core.ensure_float32":
        R(B.dtype == np.float32 and same(A.astype(np.float32), B) is None, "not the float32 input")
    elif op == "tabular.feature_dropout":
        R(bool(np.all((B == A) | (B == 0))), "dropout changed an entry to something other than zero")
        R(p["p"] != 1 or not np.any(B), "dropout with p=1 kept values")
        R(p["p"] != 0 or same(A, B) is None, "dropout with p=0 changed values")
    elif op == "tabular.swap_noise":
        R(p["p"] != 0 or same(A, B) is None, "swap noise with p=0 changed values")
        R(bool(np.all(np.isfinite(B))), "swap noise is not finite")
    elif op.endswith("noise"):
        R(p["std"] != 0 or same(A, B) is None, "noise of zero deviation changed values")
        R(bool(np.all(np.abs(B.astype(float) - A) <= 12 * p["std"] + 1e-4)), "noise far outside its deviation")
    elif op == "text.token_mask":
        R(bool(np.all((B == A) | (B == p["mask_token_id"]))), "masking wrote another token")
        pad = A == p["pad_token_id"]
        R(bool(np.all(B[pad] == A[pad])), "masking changed padding")
        R(p["p"] != 1 or bool(np.all(B[~pad] == p["mask_token_id"])), "masking with p=1 left tokens")
        R(p["p"] != 0 or same(A, B) is None, "masking with p=0 changed tokens")
    elif op == "text.token_swap":
        for r, s in zip(np.atleast_2d(A), np.atleast_2d(B), strict=True):
            R(Counter(r.tolist()) == Counter(s.tolist()), "swapping changed the tokens", before=r.tolist(), after=s.tolist())
            pad = r == p["pad_token_id"]
            R(bool(np.all(s[pad] == p["pad_token_id"])), "swapping moved padding", before=r.tolist(), after=s.tolist())
    elif op == "audio.time_shift":
        L = A.shape[-1]
        m = int(round(p["max_frac"] * L))
        R(any(same(np.roll(A, s, axis=-1), B) is None for s in range(-m, m + 1)), "not a circular shift within the limit", m=m)
    elif op == "vision.random_horizontal_flip":
        hw = A.ndim == 2 or A.shape[0] not in (1, 3) or A.shape[2] in (1, 3)
        f = np.flip(A, axis=(1 if hw else 2))
        R(same(A, B) is None or same(np.ascontiguousarray(f), np.ascontiguousarray(B)) is None, "neither the image nor its mirror image")
        R(p["p"] != 0 or same(A, B) is None, "flip with p=0")
        R(p["p"] != 1 or same(np.ascontiguousarray(f), np.ascontiguousarray(B)) is None, "no flip with p=1")
    elif op == "vision.cutout":
        ch = A.ndim == 3 and A.shape[0] in (1, 3) and A.shape[2] not in (1, 3)
        R(bool(np.all((B == A) | (B == np.asarray(p["fill"], dtype=A.dtype)))), "cutout wrote something other than the fill value")
        D = (B != A)
        D = D if A.ndim == 2 else D.any(axis=0 if ch else 2)
        H, W = D.shape
        ln = max(1, int(round(p["frac"] * min(H, W)))) if p.get("frac") else (0 if p.get("frac") == 0.0 else p["length"])
        ii, jj = np.nonzero(D)
        if p.get("n_holes", 1) == 1 and ii.size:
            R(ii.max() - ii.min() < ln and jj.max() - jj.min() < ln, "cutout is larger than its length", rows=[int(ii.min()), int(ii.max())], length=ln)
        if 0 < ln and p["fill"] == 777.0:
            R(D.sum() >= min(ln, H) * min(ln, W), "cutout is smaller than its length", cells=int(D.sum()), length=ln)
        R(ln != 0 or not D.any(), "cutout of nothing changed the image")
    elif op == "vision.random_crop_pad":
        q = p["pad"] if p.get("pad") is not None else p["padding"]
        ch = A.ndim == 3 and A.shape[0] in (1, 3) and A.shape[2] not in (1, 3)
        ax = (0, 1) if A.ndim == 2 or not ch else (1, 2)
        P = np.pad(A, [(q, q) if i in ax else (0, 0) for i in range(A.ndim)], mode="reflect")
        H, W = A.shape[ax[0]], A.shape[ax[1]]
        cuts = (np.take(np.take(P, range(i, i + H), ax[0]), range(j, j + W), ax[1]) for i in range(2 * q + 1) for j in range(2 * q + 1))
        R(any(np.array_equal(c, B) for c in cuts), "not a crop of the padded image")
    else:
        raise AssertionError(op)


def gen(g, op):
    lib = g.pick(["numpy", "torch"])
    P = g.pick([0.0, 0.3, 0.5, 1.0])
    if op.startswith("graph."):
        return graph(g, lib), {"p": P}
    if op == "text.lowercase":
        return text(g), {}
    if op == "text.word_dropout":
        return text(g), {"p": P}
    if op == "text.random_swap":
        return text(g), {"n_swaps": g.int(0, 5)}
    if op == "text.token_mask":
        return tokens(g, lib, True), {"p": P, "mask_token_id": g.pick([1, 99]), "pad_token_id": g.pick([0, 1, 3])}
    if op == "text.token_swap":
        return tokens(g, lib), {"n_swaps": g.int(0, 6), "pad_token_id": g.pick([0, 1])}
    if op.startswith("core."):
        return g.pick([lambda: numeric(g, "table", lib), lambda: tokens(g, lib)])(), {}
    if op == "tabular.gaussian_noise":
        return numeric(g, "table", lib), {"std": g.pick([0.0, 0.1, 3.0])}
    if op.startswith("tabular."):
        return numeric(g, "table", lib), {"p": P}
    if op == "audio.add_noise":
        return numeric(g, "wave", lib), {"std": g.pick([0.0, 0.005, 1.0])}
    if op == "audio.time_shift":
        return numeric(g, "wave", lib), {"max_frac": g.pick([0.0, 0.1, 0.5, 1.0])}
    if op == "vision.random_horizontal_flip":
        return numeric(g, "image", lib), {"p": P}
    if op == "vision.gaussian_noise":
        return numeric(g, "image", lib), {"std": g.pick([0.0, 0.05])}
    if op == "vision.cutout":
        p = {"fill": g.pick([0.0, 777.0])}
        if g.bool():
            p["frac"] = g.pick([0.0, 0.2, 0.5, 1.0])
        else:
            p.update(n_holes=g.int(1, 3), length=g.pick([1, 3, 6, 40]))
        return numeric(g, "image", lib), p
    if op == "vision.random_crop_pad":
        return numeric(g, "image", lib), g.pick([{"pad": g.int(0, 4)}, {"padding": g.int(0, 4)}])
    raise AssertionError(op)


def stir(g):
    s = g.int(0, 2**31)
    np.random.seed(s)
    random.seed(s)
    torch().manual_seed(s)


def s_ops(g):
    known = [o for o in available_ops()]
    op = g.pick(known)
    try:
        x, p = gen(g, op)
    except AssertionError:
        raise Skip() from None
    ctx = ctx_of(g)
    g.note(op=op, params=p, ctx=(ctx.seed, ctx.epoch, ctx.sample_id), input=repr(x)[:300])
    before = copy.deepcopy(x)
    pipe = build_pipeline(AugmentationPlan(steps=(StepConfig(op_id=op, params=p),)))
    stir(g)
    out = pipe.apply(x, ctx=ctx)
    g.require(same(plain(before), plain(x)) is None, "the input was modified", why=same(plain(before), plain(x)))
    kept = copy.deepcopy(out)
    effect(g, op, {**vars(get_op(op)), **p}, before, out)
    # same context: same result, whatever happened in between
    for _ in range(g.int(0, 2)):
        pipe.apply(copy.deepcopy(x), ctx=ctx_of(g))
    stir(g)
    st = (np.random.get_state()[1].tolist(), random.getstate(), torch().get_rng_state().tolist())
    again = pipe.apply(x, ctx=ctx)
    fresh = build_pipeline(AugmentationPlan(steps=(StepConfig(op_id=op, params=p),))).apply(copy.deepcopy(before), ctx=ctx)
    g.require((np.random.get_state()[1].tolist(), random.getstate(), torch().get_rng_state().tolist()) == st, "augmentation consumed a global random state")
    g.require(same(plain(kept), plain(again)) is None, "the same context gave another result", why=same(plain(kept), plain(again)))
    g.require(same(plain(kept), plain(fresh)) is None, "a new pipeline gave another result", why=same(plain(kept), plain(fresh)))
    g.require(same(plain(kept), plain(out)) is None, "an earlier output was modified by a later call")


def s_chain(g):
    """pipelines of several steps, weak/strong strategies"""
    mod = g.pick(["table", "image", "tokens", "text", "graph"])
    ops = {"table": ["tabular.gaussian_noise", "tabular.feature_dropout", "tabular.swap_noise", "core.ensure_float32"],
           "image": ["vision.random_horizontal_flip", "vision.cutout", "vision.random_crop_pad", "vision.gaussian_noise", "core.identity"],
           "tokens": ["text.token_mask", "text.token_swap"], "text": ["text.lowercase", "text.word_dropout", "text.random_swap"],
           "graph": ["graph.edge_dropout", "graph.feature_mask"]}[mod]
    lib = g.pick(["numpy", "torch"])
    x = {"table": lambda: numeric(g, "table", lib), "image": lambda: numeric(g, "image", lib), "tokens": lambda: tokens(g, lib), "text": lambda: text(g),
         "graph": lambda: graph(g, lib)}[mod]()

    def mk():
        return AugmentationPlan(steps=tuple(StepConfig(op_id=(o := g.pick(ops)), params=gen(g, o)[1]) for _ in range(g.int(1, 4))))

    a, b = mk(), mk()
    ctx = ctx_of(g)
    g.note(weak=[(s.op_id, s.params) for s in a.steps], strong=[(s.op_id, s.params) for s in b.steps], ctx=(ctx.seed, ctx.epoch, ctx.sample_id))
    before = copy.deepcopy(x)
    st = build_strategy(weak=a, strong=b)
    stir(g)
    w, s = st.apply(x, ctx=ctx)
    g.require(same(plain(before), plain(x)) is None, "the input was modified", why=same(plain(before), plain(x)))
    kept = copy.deepcopy((plain(w), plain(s)))
    stir(g)
    w1, s1 = build_pipeline(a).apply(x, ctx=ctx), build_pipeline(b).apply(x, ctx=ctx)
    g.require(same(kept[0], plain(w1)) is None and same(kept[1], plain(s1)) is None, "weak or strong branch depends on the other or on the global state")
    # step by step with one generator
    rng, y = make_context_rng(ctx), copy.deepcopy(before)
    for sc in a.steps:
        y = get_op(sc.op_id, **sc.params)(y, rng=rng, ctx=ctx)
    g.require(same(kept[0], plain(y)) is None, "a pipeline is not its steps in order")
    # the context matters: over many contexts the outputs of a random pipeline are not all equal
    if mod == "table" and any(q.op_id == "tabular.gaussian_noise" and q.params["std"] > 0 for q in a.steps):
        for f in ("seed", "epoch", "sample_id"):
            outs = {arr(build_pipeline(a).apply(x, ctx=AugmentationContext(**{"seed": 3, "epoch": 0, "sample_id": 0, f: i}))).tobytes() for i in range(6)}
            if arr(x).size > 2 and all(q.op_id == "tabular.gaussian_noise" for q in a.steps):
                g.require(len(outs) > 1, f"the {f} does not influence the augmentation")


def s_cover(g):
    known = set(available_ops())
    mine = {"audio.add_noise", "audio.time_shift", "core.ensure_float32", "core.identity", "graph.edge_dropout", "graph.feature_mask", "tabular.feature_dropout",
            "tabular.gaussian_noise", "tabular.swap_noise", "text.lowercase", "text.random_swap", "text.token_mask", "text.token_swap", "text.word_dropout",
            "vision.cutout", "vision.gaussian_noise", "vision.random_crop_pad", "vision.random_horizontal_flip"}
    g.require(mine <= known, "a built-in operation disappeared", missing=sorted(mine - known))


SCENARIOS = [("ops", s_ops, 4000, 4), ("chain", s_chain, 800, 2), ("cover", s_cover, 1, 1)]
