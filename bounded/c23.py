"""C23: inductive learners - frame condition (data untouched), functional dependence of the predictions on (data, seed),
scores as a distribution per row, refusal of mismatched data before fitting."""
import copy
import dataclasses
from types import SimpleNamespace

import numpy as np

from bounded.util import same
from vf.gen import Skip

RULE = "fit(data, seed) and predict(X): data and X unchanged; predictions a function of (data, seed); rows of scores >= 0 sum 1"
EXPLANATION = ("The run-time contract of every inductive method's fit/predict_proba/predict is checked on generated datasets "
               "(torch and numpy, all registered methods, several base classifiers): deep copies taken before are equal after, "
               "two fits from the same data and seed agree whatever state the process-wide random generators are in, scores are "
               "one distribution per row, and datasets with one injected mismatch are refused.")

CLASSIC = ["supervised", "pseudo_label", "self_training", "setred", "tri_training", "democratic_co_learning", "s4vm", "co_training"]
WS = ["fixmatch", "flexmatch", "adamatch", "free_match", "softmatch", "uda", "comatch", "daso", "adsh", "defixmatch",
      "mixmatch", "pi_model", "mean_teacher", "temporal_ensembling", "vat", "noisy_student", "meta_pseudo_labels",
      "deep_co_training", "simclr_v2", "trinet"]
BUNDLES = {"meta_pseudo_labels": ("teacher_bundle", "student_bundle"),
           "deep_co_training": ("model_bundle_1", "model_bundle_2"), "simclr_v2": ("pretrain_bundle", "finetune_bundle")}
FEATURES = {"comatch", "daso", "simclr_v2"}

NP_CLASSIFIERS = [("knn", "numpy", {"k": 1}), ("knn", "numpy", {"k": 3, "weights": "distance"}), ("knn", "numpy", {"metric": "cosine"}),
                  ("logreg", "sklearn", {}), ("knn", "sklearn", {"k": 2}), ("linear_svm", "sklearn", {}), ("ridge", "sklearn", {}),
                  ("svm_rbf", "sklearn", {}), ("gaussian_nb", "sklearn", {}), ("random_forest", "sklearn", {"n_estimators": 4}),
                  ("extra_trees", "sklearn", {"n_estimators": 4})]
T_CLASSIFIERS = [("knn", "torch", {"k": 2}), ("logreg", "torch", {"max_epochs": 3}), ("mlp", "torch", {"max_epochs": 3, "hidden_sizes": (4,)})]


def PRELOAD():
    import torch

    torch.set_num_threads(1)
    import modssc.inductive.registry as r
    import modssc.supervised.registry  # noqa: F401

    for m in CLASSIC + WS:
        r.get_method_class(m)


def base(g, C=None, d=None):
    C = C or g.int(2, 3)
    d = d or g.int(1, 4)
    nl = C + g.int(0, 5)
    nu = g.pick([1, 2, 5, 9])
    y = g.rng.permutation(np.concatenate([np.arange(C), g.rng.integers(0, C, nl - C)])).astype(np.int64)
    mu = g.rng.normal(size=(C, d)) * g.pick([0.3, 2.0])
    dt = g.pick([np.float32, np.float64])
    X_l = (mu[y] + g.rng.normal(size=(nl, d))).astype(dt)
    X_u = (mu[g.rng.integers(0, C, nu)] + g.rng.normal(size=(nu, d))).astype(dt)
    if g.bool(0.2):
        X_u[g.int(0, nu - 1)] = X_l[0]
    return C, d, nl, nu, y, X_l, X_u


def noise(k):
    import random

    import torch

    torch.manual_seed(k)
    np.random.seed(k % 2**32)
    random.seed(k)


def npy(a):
    return a.detach().cpu().numpy() if hasattr(a, "detach") else np.asarray(a)


def frozen(data):
    return copy.deepcopy(vars(data) if isinstance(data, SimpleNamespace) else data)


def check(g, mid, make, data, Xt, seed, device, cid=None):
    before, xb = frozen(data), frozen(Xt)
    outs = []
    for k in (1, 987):
        noise(k)
        try:
            m = make()
            noise(k + 5)
            m.fit(data, device=device, seed=seed)
        except Exception as e:  # noqa: BLE001
            d = same(before, frozen(data))
            g.require(d is None, f"{mid}.fit refused the data but had modified it: {d}")
            outs.append(repr(e)[:200])
            continue
        d = same(before, frozen(data))
        g.require(d is None, f"{mid}.fit modified its input data: {d}")
        noise(k + 3)
        try:
            P = m.predict_proba(Xt)
        except Exception as e:  # noqa: BLE001
            outs.append(repr(e)[:200])
            continue
        d = same(before, frozen(data))
        g.require(d is None, f"{mid}.predict_proba modified the training data: {d}")
        d = same(xb, frozen(Xt))
        g.require(d is None, f"{mid}.predict_proba modified the data to predict: {d}")
        P2 = m.predict_proba(Xt)
        g.require(np.array_equal(npy(P), npy(P2), equal_nan=True), f"{mid}.predict_proba is not repeatable on the same fitted model")
        try:
            yhat = m.predict(Xt)
        except Exception as e:  # noqa: BLE001
            g.require(False, f"{mid}.predict fails on data that predict_proba scores: {e!r}")
        g.require(same(xb, frozen(Xt)) is None and same(before, frozen(data)) is None, f"{mid}.predict modified data")
        outs.append((npy(P).copy(), npy(yhat).copy()))
    a, b = outs
    if isinstance(a, str) or isinstance(b, str):
        g.require(isinstance(a, str) and isinstance(b, str),
                  f"{mid}: the same data and seed were fitted once and refused once: {a if isinstance(a, str) else b}")
        raise Skip(a)
    g.require(a[0].shape == b[0].shape and np.array_equal(a[0], b[0], equal_nan=True),
              f"{mid}: two fits with the same data and seed {seed} give different scores:\n{a[0]}\n{b[0]}")
    g.require(np.array_equal(a[1], b[1]), f"{mid}: two fits with the same data and seed {seed} give different predictions: {a[1]} vs {b[1]}")
    n = rows(Xt)
    P = a[0].astype(np.float64)
    g.require(P.ndim == 2 and P.shape[0] == n, f"{mid}: scores of shape {P.shape} for {n} samples")
    g.require(a[1].shape == (n,), f"{mid}: predictions of shape {a[1].shape} for {n} samples")
    known = set(npy(data.y_l).tolist())
    g.require(set(a[1].tolist()) <= known, f"{mid}: predicted labels {sorted(set(a[1].tolist()))} are not among the labels {sorted(known)} of the labelled data")
    if n:
        if not np.isfinite(P).all() and np.isnan(P).all(axis=1).any() and mid in WS:
            raise Skip("training diverged")
        if np.isnan(P).any() and cid == "gaussian_nb":
            raise Skip("the base classifier itself returns NaN")
        g.require(np.isfinite(P).all() and (P >= 0).all(), f"{mid}: scores not finite and non-negative:\n{P}")
        g.require(np.allclose(P.sum(axis=1), 1, atol=1e-4), f"{mid}: score rows do not sum to one:\n{P}\n{P.sum(axis=1)}")


def rows(Xt):
    if isinstance(Xt, SimpleNamespace):
        v = next(iter(Xt.views.values()))
        return (v["X"] if isinstance(v, dict) else v).shape[0]
    return Xt.shape[0]


def ns(**kw):
    d = dict(X_l=None, y_l=None, X_u=None, X_u_w=None, X_u_s=None, views=None, meta=None)
    d.update(kw)
    return SimpleNamespace(**d)


def classic_case(g, backend, mid=None):
    from modssc.inductive.registry import get_method_class
    from modssc.inductive.types import DeviceSpec

    mid = mid or g.pick(CLASSIC)
    C, d, nl, nu, y, X_l, X_u = base(g, C=2 if mid == "s4vm" else None)
    if backend == "numpy":
        labels = g.pick([np.arange(C), np.arange(C) * 3 + 2])
        y = labels[y]
    cid, cb, cp = g.pick(NP_CLASSIFIERS if backend == "numpy" else T_CLASSIFIERS)
    cls = get_method_class(mid)
    spec = cls().spec
    kw = dict(classifier_id=cid, classifier_backend=cb, classifier_params=dict(cp))
    opts = {"max_iter": g.int(1, 4), "confidence_threshold": g.pick([0.3, 0.5, 0.9]), "max_new_labels": g.pick([None, 1, 3]),
            "k_per_class": g.int(1, 2), "bootstrap_ratio": g.pick([0.5, 1.0]), "pool_size": g.pick([None, 2]), "theta": g.pick([0.05, 0.5]),
            "k_candidates": 2, "flip_rate": g.pick([0.05, 0.4]), "knn_k": 2, "graph_type": g.pick(["rng", "knn"])}
    fields = {f.name for f in dataclasses.fields(spec)}
    kw.update({k: v for k, v in opts.items() if k in fields})
    meta = views = None
    if mid == "co_training":
        X2l, X2u = (g.rng.normal(size=(nl, 2)) + y[:, None]).astype(X_l.dtype), g.rng.normal(size=(nu, 2)).astype(X_l.dtype)
        views = {"a": {"X_l": X_l, "X_u": X_u}, "b": {"X_l": X2l, "X_u": X2u} if g.bool(0.7) else (X2l, X2u)}
    Xt = np.concatenate([X_l[:2], g.rng.normal(size=(g.int(1, 4), d)).astype(X_l.dtype)])
    g.note(method=mid, spec=kw, y=y.tolist(), nl=nl, nu=nu, d=d, X_l=X_l, X_u=X_u, Xt=Xt)
    if mid == "self_training" and g.bool(0.4):
        meta = {"group_u": g.rng.integers(0, 3, nu), "group_l": g.rng.integers(0, 3, nl)}
        kw["use_group_propagation"] = True
        kw["group_key"] = None
    data = ns(X_l=X_l, y_l=y, X_u=X_u if mid != "supervised" or g.bool() else None, views=views, meta=meta)
    if backend == "torch":
        import torch

        def t(v):
            if isinstance(v, np.ndarray):
                return torch.from_numpy(v.copy())
            if isinstance(v, dict):
                return {k: t(x) for k, x in v.items()}
            if isinstance(v, tuple):
                return tuple(t(x) for x in v)
            return v
        data = SimpleNamespace(**{k: t(v) for k, v in vars(data).items()})
        Xt = t(Xt)
    if mid == "co_training":
        v2 = np.asarray(g.rng.normal(size=(rows(Xt), 2))).astype(X_l.dtype)
        if backend == "torch":
            import torch

            v2 = torch.from_numpy(v2)
        Xt = ns(X_l=Xt, views={"a": {"X": Xt}, "b": {"X": v2}})
    return mid, (lambda: cls(dataclasses.replace(spec, **kw))), data, Xt, DeviceSpec(device="cpu")


def classic_numpy(g):
    mid, make, data, Xt, dev = classic_case(g, "numpy")
    check(g, mid, make, data, Xt, g.int(0, 3), dev, g.info["spec"]["classifier_id"])


def classic_torch(g):
    mid, make, data, Xt, dev = classic_case(g, "torch")
    check(g, mid, make, data, Xt, g.int(0, 3), dev)


def deep_case(g, mid=None):
    import torch

    from modssc.inductive.deep import build_torch_bundle_from_classifier
    from modssc.inductive.registry import get_method_class
    from modssc.inductive.types import DeviceSpec

    mid = mid or g.pick(WS)
    C, d, nl, nu, y, X_l, X_u = base(g, d=g.int(2, 4))
    X_l, X_u = X_l.astype(np.float32), X_u.astype(np.float32)
    T = torch.from_numpy
    X_l, X_u, y_t = T(X_l), T(X_u), T(y)
    w = X_u + 0.01 * T(g.rng.normal(size=tuple(X_u.shape)).astype(np.float32))
    s = X_u + 0.3 * T(g.rng.normal(size=tuple(X_u.shape)).astype(np.float32))
    s1 = X_u + 0.3 * T(g.rng.normal(size=tuple(X_u.shape)).astype(np.float32))
    share = g.bool(0.15)
    if share:
        w, s = X_u, X_u
    meta = {"idx_u": torch.arange(nu)} if g.bool(0.6) or mid == "flexmatch" else None
    if meta and g.bool(0.4):
        meta = {"idx_u": T(g.rng.permutation(nu + 2)[:nu].astype(np.int64)), "ulb_size": nu + 2}
    views = {"X_u_s_1": s1} if mid == "comatch" or g.bool(0.2) else None
    cls = get_method_class(mid)
    spec = cls().spec
    fields = {f.name for f in dataclasses.fields(spec)}
    opts = {"batch_size": g.pick([2, 3, 8]), "max_epochs": g.int(1, 2), "p_cutoff": g.pick([0.0 if mid != "adsh" else 0.1, 0.4, 0.95]), "use_cat": g.bool(),
            "hard_label": g.bool(), "pretrain_steps": 1, "dist_update_period": 2, "queue_size": g.pick([4, 16]), "da_len": 4,
            "pool_base": 2, "max_rounds": 2, "fine_tune_interval": 2, "init_epochs": 1, "train_epochs": 1, "des_passes": 2,
            "teacher_epochs": 1, "temperature": g.pick([0.5, 1.0]), "lambda_u": g.pick([0.5, 1.0]), "unsup_warm_up": g.pick([0.0, 0.4]),
            "score_warmup_epochs": 1, "sigma0": g.pick([0.4, 0.95])}
    kw = {k: v for k, v in opts.items() if k in fields}
    cid = g.pick(["logreg", "mlp"])
    cp = {"lr": g.pick([0.01, 0.1]), "dropout": g.pick([0.0, 0.0, 0.4])}
    if cid == "mlp":
        cp["hidden_sizes"] = (5,)
    if mid in FEATURES or mid == "trinet":
        cp["return_features"] = True
    if mid == "mixmatch":
        kw["mixup_alpha"] = g.pick([0.5, 0.0, 2.0])
    bs = g.int(0, 3)

    def bundle(off, sample=None, nc=C, p=cp, c=cid, ema=True):
        return build_torch_bundle_from_classifier(classifier_id=c, classifier_backend="torch", classifier_params=dict(p),
                                                  sample=X_l if sample is None else sample, num_classes=nc, seed=bs + off, ema=ema)

    def make():
        if mid in BUNDLES:
            b = {k: bundle(i) for i, k in enumerate(BUNDLES[mid])}
        elif mid == "trinet":
            sh = bundle(0)
            out = sh.model(X_l[:1])
            f = (out["feat"] if isinstance(out, dict) else out).detach()
            hp = {k: v for k, v in cp.items() if k != "return_features"}
            b = {"shared_bundle": sh, "head_bundles": tuple(bundle(i + 1, f, p=hp, c="logreg", ema=False) for i in range(3))}
        else:
            b = {"model_bundle": bundle(0)}
        return cls(dataclasses.replace(spec, **kw, **b))

    Xt = T(g.rng.normal(size=(g.int(1, 5), d)).astype(np.float32))
    g.note(method=mid, spec=kw, classifier=(cid, cp), bundle_seed=bs, y=y.tolist(), X_l=X_l, X_u=X_u, meta=meta, share=share, views=views is not None)
    data = ns(X_l=X_l, y_l=y_t, X_u=X_u, X_u_w=w, X_u_s=s, views=views, meta=meta)
    return mid, make, data, Xt, DeviceSpec(device="cpu")


def deep(g):
    mid, make, data, Xt, dev = deep_case(g)
    check(g, mid, make, data, Xt, g.int(0, 3), dev)


def mismatch(g, data, mid, torchy):
    """one injected mismatch -> (name, data) or None"""
    cat = (lambda a, b: __import__("torch").cat([a, b])) if torchy else (lambda a, b: np.concatenate([a, b]))
    hst = (lambda a: __import__("torch").cat([a, a[:, :1]], dim=1)) if torchy else (lambda a: np.concatenate([a, a[:, :1]], axis=1))
    d = copy.copy(vars(data))
    kinds = ["y+", "y-"]
    if d["X_u"] is not None:
        kinds += ["Xu_feat"]
    if d["X_u_w"] is not None:
        kinds += ["w_feat", "s_feat", "w_rows", "s_rows"]
    if mid == "co_training":
        kinds = ["view_l", "view_u", "view_missing", "view_key", "y+"]
    elif d["views"]:
        kinds.append("view_key")
    k = g.pick(kinds)
    if k == "y+":
        d["y_l"] = cat(d["y_l"], d["y_l"][:1])
    elif k == "y-":
        d["y_l"] = d["y_l"][:-1]
    elif k == "Xu_feat":
        d["X_u"] = hst(d["X_u"])
    elif k == "w_feat":
        d["X_u_w"] = hst(d["X_u_w"])
    elif k == "s_feat":
        d["X_u_s"] = hst(d["X_u_s"])
    elif k == "w_rows":
        d["X_u_w"] = cat(d["X_u_w"], d["X_u_w"][:1])
    elif k == "s_rows":
        d["X_u_s"] = cat(d["X_u_s"], d["X_u_s"][:1])
    elif k == "view_key":
        d["views"] = dict(d["views"])
        d["views"][7] = next(iter(d["views"].values()))
    else:
        v = dict(d["views"])
        b = v["b"]
        bl, bu = (b["X_l"], b["X_u"]) if isinstance(b, dict) else b
        if k == "view_l":
            v["b"] = {"X_l": cat(bl, bl[:1]) if g.bool() else bl[:-1], "X_u": bu}
        elif k == "view_u":
            v["b"] = {"X_l": bl, "X_u": cat(bu, bu[:1])}
        else:
            del v["b"]
        d["views"] = v
    return k, SimpleNamespace(**d)


def refused(g, mid, make, data, dev, torchy):
    k, bad = mismatch(g, data, mid, torchy)
    if mid == "supervised" and k == "view_key":
        raise Skip("views unused")
    g.note(mismatch=k)
    before = frozen(bad)
    m = make()
    try:
        m.fit(bad, device=dev, seed=0)
    except Exception:  # noqa: BLE001
        d = same(before, frozen(bad))
        g.require(d is None, f"{mid}.fit refused a mismatched dataset after modifying it: {d}")
        return
    g.require(False, f"{mid}.fit accepted a dataset with a mismatch ({k})")


def refuse_classic(g):
    torchy = g.bool()
    mid, make, data, _, dev = classic_case(g, "torch" if torchy else "numpy")
    refused(g, mid, make, data, dev, torchy)


def refuse_deep(g):
    mid, make, data, _, dev = deep_case(g)
    refused(g, mid, make, data, dev, True)


SCENARIOS = [("classic methods on arrays", classic_numpy, 400, 6), ("classic methods on tensors", classic_torch, 300, 6),
             ("deep methods", deep, 500, 12), ("mismatched data, classic", refuse_classic, 200, 2), ("mismatched data, deep", refuse_deep, 200, 3)]
