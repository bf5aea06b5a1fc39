"""The benchmark harness: which rows each stage sees, and what a seed sweep changes.

Rows are compared position by position: for arrays of any length, row i of what a stage receives is row idx[i] of the
split's own base (and label i is label idx[i])."""
import copy

from contracts.lib import *

EV = "bench.orchestrators.evaluation"
PP = "bench.orchestrators.preprocess"
SL = "bench.orchestrators.slicing"
MT = "bench.orchestrators.method_transductive"
KEYS = ("train", "val", "test", "train_labeled", "train_unlabeled")
MK = ("train", "val", "test", "labeled", "unlabeled")
TRUSTED = ["torch tensors and graph mappings take the bounded route (numpy arrays and lists are proved)"]
STUBS = {"modssc.data_augmentation.utils:is_torch_tensor": lambda x: False}
W = World(stubs=STUBS)


def bench_err(W_=W):
    return W_.fn("bench.errors", "BenchRuntimeError")


def sampling(indices=None, refs=None, masks=None):
    return ns(indices=indices or {}, refs=refs or {}, masks=masks or {}, is_graph=lambda: bool(masks), stats={}, plan={},
              schema_version=1, created_at="t", dataset_fingerprint="d", split_fingerprint="s")


def same_rows(c, name, got, base, idx):
    """got[i] == base[idx[i]] for every i, and as many rows as indices"""
    i, j = c.int("i"), c.int("j")
    A.add_probe(i)
    c.oblige(f"{name}: as many rows as indices", A.dz(got._shape[0]) == idx.sz)
    c.assume(And(i >= 0, i < idx.sz))
    if base.ndim == 2:
        c.oblige(f"{name}: same width", A.dz(got._shape[1]) == A.dz(base._shape[1]))
        c.assume(And(j >= 0, j < A.dz(base._shape[1])))
        c.oblige(f"{name}: row i is the split's i-th own row", got.at(i, j) == base.at(idx.at(i), j))
    else:
        c.oblige(f"{name}: entry i is the split's i-th own entry", got.at(i) == base.at(idx.at(i)))


def base_arrays(c, nm):
    n, d = c.int("n_" + nm), c.int("d")
    c.assume(And(n >= 0, d >= 1))
    return A.fresh_array("X_" + nm, (n, d), "f"), A.fresh_array("y_" + nm, (n,), "i"), n


class Store:
    def __init__(self, d):
        self.d = d

    def has(self, k):
        return k in self.d

    def get(self, k, default=None):
        return self.d.get(k, default)


def t_split(c):
    f = W.fn(EV, "_split_data")
    split = KEYS[c.choose(5, "split")]
    ref = ("train", "test", None)[c.choose(3, "ref")]
    has_test = c.choose(2, "test present")
    arts = c.choose(3, "label artifact")
    bases = {k: base_arrays(c, k) for k in ("train", "test")}
    lab = {k: A.fresh_array("enc_" + k, (bases[k][2],), "i") for k in bases}
    own = ref or "train"
    idx = A.fresh_index_array("idx", lo=0, hi=bases[own][2])
    ix = {k: (idx if k == split else A.fresh_index_array(k, lo=0, hi=bases["train"][2])) for k in KEYS}
    refs = {k: "train" for k in KEYS}
    refs[split] = ref
    if ref is None:
        refs.pop(split)
    stores = {k: None if arts == 2 else Store({"labels.y": lab[k]} if arts == 1 else {"other": 1}) for k in bases}
    D = {k: ns(X=bases[k][0], y=bases[k][1]) for k in bases}
    pre = ns(dataset=ns(train=D["train"], test=D["test"] if has_test else None), train_artifacts=stores["train"], test_artifacts=stores["test"])
    try:
        X, y = f(pre, sampling(ix, refs), split=split)
    except bench_err():
        c.oblige("only a missing test set is refused", own == "test" and not has_test)
        c.cover("refused")
        return
    c.cover("returns")
    c.oblige("a missing test set is refused", not (own == "test" and not has_test))
    same_rows(c, "features", X, bases[own][0], idx)
    same_rows(c, "labels", y, lab[own] if arts == 1 else bases[own][1], idx)


def t_split_graph(c):
    f = W.fn(EV, "_split_data")
    try:
        f(ns(), sampling(masks={"train": 1}), split="val")
    except bench_err():
        c.cover("refused")
        c.oblige("refused", True)
        return
    c.oblige("graph sampling is refused by inductive evaluation", False)


def t_rows(c):
    f = W.fn(SL, "select_rows")
    two = c.choose(2, "2-d")
    X, y, n = base_arrays(c, "b")
    src = X if two else y
    idx = A.fresh_index_array("idx")
    before = src.version
    try:
        got = f(src, idx, context="t")
    except bench_err():
        c.cover("refused")
        c.oblige("refused only when an index is negative", Not(allnonneg(c, idx)))
        return
    except IndexError:
        return
    c.cover("returns")
    x = skolem()
    c.oblige("no negative index is accepted", Implies(idx.cnt(x) >= 1, x >= 0))
    c.oblige("the source is not written", src.version == before)
    same_rows(c, "rows", got, src, idx)


def allnonneg(c, idx):
    """the formula 'no index is negative' (as a Boolean whose truth gives the fact at the elements looked at)"""
    b = c.bool("nonneg")
    A.forall(lambda x: Implies(And(b, idx.cntf(x) >= 1), x >= 0))
    return b


def t_rows_none(c):
    f = W.fn(SL, "select_rows")
    r = f(None, A.fresh_index_array("idx", lo=0), context="t")
    c.cover("returns")
    c.oblige("nothing selected from nothing", r is None)


def t_fit(c):
    f = World(stubs=STUBS, inert=("modssc.preprocess",)).fn(PP, "resolve_fit_indices")
    which = {"train": "train", "train_labeled": "labeled", "train_unlabeled": "unlabeled", "val": "val"}
    names = list(which) + ["test", "all", None]
    on = names[c.choose(len(names), "fit_on")]
    graph = c.choose(2, "graph")
    n = I("n")
    c.assume(n.t >= 0)
    if graph:
        m = {k: A.fresh_array("m_" + k, (n.t,), "b") for k in MK}
        s = sampling(masks=m)
    else:
        ix = {k: A.fresh_index_array(k, lo=0, hi=n.t) for k in KEYS}
        s = sampling(indices=ix, refs={k: "train" for k in KEYS})
    x = skolem()
    try:
        r = f(dataset=ns(), sampling=s, fit_on=on)
    except ValueError:
        c.cover("refused")
        c.oblige("a documented fit_on is accepted", on in ("test", "all"))
        return
    c.cover("returns")
    c.oblige("other values of fit_on are refused", on in which or on is None)
    if on is None:
        c.oblige("no restriction when fit_on is not given", r is None)
        return
    if on not in which:
        return
    if graph:
        c.oblige("the fit rows are exactly the nodes of the named mask",
                 r.cnt(x) == If(And(x >= 0, x < n.t, m[which[on]].at(x)), 1, 0))
    else:
        c.oblige("the fit rows are exactly the named rows", r.cnt(x) == ix[on].cnt(x))


def t_masks(c):
    f = W.fn(MT, "_build_masks_from_indices")
    n, nt = c.int("n_train"), c.int("n_test")
    off, given, named = ((0, 0, 1), (0, 1, 1), (0, 0, 0), (1, 1, 1), (1, 1, 0))[c.choose(5, "case")]
    c.assume(And(n >= 0, nt >= 0))
    refs = {k: "train" for k in KEYS}
    if off:
        refs["test"] = "test"
    ix = {k: A.fresh_index_array(k, lo=0, hi=nt if refs[k] == "test" else n) for k in KEYS}
    x = skolem()
    if not named:
        refs = {k: v for k, v in refs.items() if v == "test"}
    r = f(n_train=SymInt(n), n_test=SymInt(nt) if given else None, indices=ix, refs=refs)
    c.cover("returns")
    tot = n + nt if given else n
    c.oblige("exactly the five masks", set(r) == {k + "_mask" for k in MK})
    for k, kk in zip(KEYS, ("train", "val", "test", "labeled", "unlabeled")):
        m = r[kk + "_mask"]
        c.oblige(f"{kk}: one entry per node", A.dz(m._shape[0]) == tot)
        v = x - n if k == "test" and off else x
        c.oblige(f"{kk}: true exactly at the split's own nodes", Implies(And(x >= 0, x < tot), m.at(x) == (ix[k].cnt(v) >= 1)))


def t_eval_ind(c):
    """the metric of a split is computed from the scores of its own rows and its own labels"""
    log = []

    def split_data(pre, samp, *, split):
        return ("X", split), ("y", split)

    Wi = World(stubs={**STUBS, EV + ":_split_data": split_data, EV + ":to_numpy": lambda s: ("np", s), EV + ":labels_1d": lambda y: ("lab", y),
                      EV + ":predict_labels": lambda s: ("pred", s), EV + ":_log_split_metrics": lambda **k: None,
                      EV + ":compute_metrics": lambda t, p, m: log.append((t, p, m)) or ("metric", t, p, m),
                      EV + ":_views_for_split": lambda v, **k: ("views", k["split"])})
    f = Wi.fn(EV, "evaluate_inductive")
    Wi.mods[EV].__dict__["InductiveDataset"] = lambda **k: ("ds", k["X_l"], k["y_l"], k["views"])
    n = 1 + c.choose(3, "splits")
    splits = [("val", "test", "train_labeled")[(i + c.choose(3, "order")) % 3] for i in range(n)]
    co = c.choose(2, "co-training")
    r = f(method=ns(predict_proba=lambda X: ("scores", X)), pre=ns(), sampling=ns(), report_splits=splits, metrics=["m"],
          method_id="co_training" if co else "pseudo_label", views=ns() if co else None)
    c.cover("returns")
    c.oblige("exactly the requested splits are reported", set(r) == set(splits))
    for s in set(splits):
        data = ("ds", ("X", s), ("y", s), ("views", s)) if co else ("X", s)
        c.oblige(f"split {s} is evaluated on its own rows", r[s] == ("metric", ("lab", ("y", s)), ("pred", ("np", ("scores", data))), ["m"]))


def t_views(c):
    f = W.fn(EV, "_views_for_split")
    ref = ("train", "test", None)[c.choose(3, "ref")]
    has_test = c.choose(2, "test present")
    vs, arr = {}, {}
    own = ref or "train"
    n = {k: c.int("n_" + k) for k in ("train", "test")}
    idx = A.fresh_index_array("idx", lo=0, hi=n[own])
    for v in ("a", "b"):
        arr[v] = {k: A.fresh_array(f"{v}_{k}", (n[k], c.int("d")), "f") for k in n}
        vs[v] = ns(train=ns(X=arr[v]["train"]), test=ns(X=arr[v]["test"]) if has_test else None)
    try:
        r = f(ns(views=vs), split="val", sampling=sampling({"val": idx}, {"val": ref} if ref else {}), backend_ref=None, strict=False)
    except bench_err():
        c.cover("refused")
        c.oblige("only a missing test set is refused", own == "test" and not has_test)
        return
    c.cover("returns")
    c.oblige("a missing test set is refused", not (own == "test" and not has_test))
    c.oblige("exactly the declared views", set(r) == {"a", "b"})
    for v in r:
        same_rows(c, f"view {v}", r[v]["X"], arr[v][own], idx)


def t_eval_trans(c):
    """metrics of a split use the entries of the nodes in its mask, and no others"""
    got = []
    Wi = World(stubs={**STUBS, EV + ":to_numpy": lambda s: s, EV + ":labels_1d": lambda y: y, EV + ":predict_labels": lambda s: s,
                      EV + ":_log_split_metrics": lambda **k: None, EV + ":compute_metrics": lambda t, p, m: got.append((t, p)) or {}})
    f = Wi.fn(EV, "evaluate_transductive")
    n, ln = c.int("n"), c.int("len")
    c.assume(And(n >= 0, ln >= 0))
    yt, yo, pr = (A.fresh_array(k, (n,), "i") for k in ("y_true", "y_obs", "pred"))
    meta = c.choose(3, "meta")
    mask = A.fresh_array("mask", (ln,), "b")
    data = ns(y=yo, meta=({"y_true": yt}, {}, None)[meta])
    known = c.choose(2, "mask present")
    try:
        f(method=ns(predict_proba=lambda d: pr), data=data, report_splits=["val"], metrics=["accuracy"], masks={("val" if known else "other") + "_mask": mask})
    except bench_err(Wi):
        c.cover("refused")
        c.oblige("only a missing mask or one of another length is refused", Or(not known, ln != n))
        return
    c.cover("returns")
    c.oblige("a mask is needed", bool(known))
    c.oblige("a mask of another length is refused", ln == n)
    if not known:
        return
    truth = yt if meta == 0 else yo
    t, p = got[0]
    i = c.int("i")
    want_t, want_p = A.getmask(truth, mask), A.getmask(pr, mask)
    c.oblige("as many entries as nodes in the mask", And(t.sz == want_t.sz, p.sz == want_p.sz))
    c.assume(And(i >= 0, i < want_t.sz))
    c.oblige("labels are those of the mask's nodes", t.at(i) == want_t.at(i))
    c.oblige("predictions are those of the mask's nodes", p.at(i) == want_p.at(i))


SECTIONS = ("sampling", "preprocess", "views", "graph", "augmentation", "search")


def t_seed(c):
    f = W.fn("bench.seed_sweep", "apply_global_seed")
    seed = I("seed")
    raw = {}
    one = c.choose(len(SECTIONS), "section")  # one section at a time differs from the rest
    rest = c.choose(4, "the rest")
    for s in SECTIONS:
        k = c.choose(4, s) if s == SECTIONS[one] else rest
        if k == 1:
            raw[s] = None
        elif k == 2:
            raw[s] = {"plan": {"seed": I(s + "_inner"), "x": [I("v")]}, "seed": I(s)}
        elif k == 3:
            raw[s] = {"other": I(s)}
    rk = c.choose(3, "run")
    if rk == 1:
        raw["run"] = {"name": "n", "seed": I("old"), "seeds": [1, 2], "output_dir": "o"}
    elif rk == 2:
        raw["run"] = {"name": "n"}
    raw["method"] = {"params": {"seed": I("ms")}, "seed": I("mseed")}
    raw["dataset"] = {"seed": I("ds")}
    raw["evaluation"] = I("ev")
    name = "given" if c.choose(2, "name") else None
    keep = plain(raw)
    r = f(raw, seed=seed, run_name=name)
    c.cover("returns")
    want = plain(raw)
    c.oblige("the base configuration is not written", keep == want)
    run = want.setdefault("run", {})
    run.pop("seeds", None)
    run["seed"] = leaf(seed)
    if name:
        run["name"] = name
    for s in SECTIONS:
        if isinstance(want.get(s), dict):
            want[s]["seed"] = leaf(seed)
    got = plain(r)
    for k in set(want) | set(got):
        c.oblige(f"section {k} is the base section under the seed", want.get(k, "absent") == got.get(k, "absent"))


def leaf(v):
    return ("term", str(v.t)) if isinstance(v, Sym) else v


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return leaf(v)


def t_seed_for(c):
    Wi = World(stubs={"bench.context:derive_seed": lambda s, label: ("derived", str(unwrap(s)), label), "bench.context:dump_yaml": None, "bench.context:write_json": None})
    R_ = Wi.fn("bench.context", "RunContext")
    from pathlib import Path
    Wi.mods["bench.context"].__dict__["int"] = lambda v: v
    seed, o = I("seed"), I("override")
    ctx_ = R_(name="n", seed=seed, run_id="r", output_dir=Path("o"), run_dir=Path("o"), started_at="t")
    r = ctx_.seed_for("sampling", o)
    c.oblige("a configured seed is used as it is", leaf(r) == leaf(o))
    r = ctx_.seed_for("sampling", None)
    c.oblige("otherwise the stage seed is derived from the run seed and the stage name", r == ("derived", str(seed.t), "sampling"))
    r = ctx_.seed_for("sampling", SymInt(z3.IntVal(0)))
    c.cover("returns")
    c.oblige("seed zero counts as configured", leaf(r) == ("term", "0"))


TASKS = [
    Task("evaluation._split_data", t_split, ["evaluation._split_data", "evaluation._labels_for_split", "slicing.select_rows", "slicing._as_idx"]),
    Task("evaluation._split_data [graph sampling]", t_split_graph, ["evaluation._split_data"]),
    Task("evaluation._views_for_split", t_views, ["evaluation._views_for_split", "slicing.select_rows"]),
    Task("evaluation.evaluate_inductive", t_eval_ind, ["evaluation.evaluate_inductive"],
         ["evaluation._split_data", "evaluation.compute_metrics", "evaluation.predict_labels", "evaluation._views_for_split"]),
    Task("evaluation.evaluate_transductive", t_eval_trans, ["evaluation.evaluate_transductive"], ["evaluation.compute_metrics", "evaluation.predict_labels"]),
    Task("slicing.select_rows [arrays]", t_rows, ["slicing.select_rows", "slicing._as_idx"]),
    Task("slicing.select_rows [nothing]", t_rows_none, ["slicing.select_rows"]),
    Task("preprocess.resolve_fit_indices", t_fit, ["preprocess.resolve_fit_indices"]),
    Task("method_transductive._build_masks_from_indices", t_masks, ["method_transductive._build_masks_from_indices", "method_transductive._mask_from_indices"]),
    Task("seed_sweep.apply_global_seed", t_seed, ["seed_sweep.apply_global_seed"]),
    Task("context.RunContext.seed_for", t_seed_for, ["context.RunContext.seed_for"]),
]
