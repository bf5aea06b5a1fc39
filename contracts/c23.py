"""Inductive learners: what is refused before fitting, adapters, score rows, confident selections, the pseudo-label loop."""
from contracts.lib import *

P = "modssc.inductive"
V, AD, BR = f"{P}.validation", f"{P}.adapters", f"{P}.methods.helpers.classifier_bridge"
TRUSTED = ["torch back ends and the deep methods take the bounded route",
           "exp is positive and increasing"]
W = World()


class Tensor(A.SArr):
    """a torch tensor as far as the adapters look at one"""
    device = "cpu"


TORCH = ns(Tensor=Tensor, int64="int64")
WT = World(stubs={f"{AD}.torch:_torch": lambda: TORCH, f"{P}.backends.torch_backend:resolve_device": lambda spec: spec.device})


def Err():
    return W.fn(f"{P}.errors", "InductiveValidationError")


def any_array(c, name, ranks, kind="f", cls=None):
    r = ranks[c.choose(len(ranks), "rank " + name)]
    if r is None:
        return None
    shp = []
    for q in range(r):
        d = c.int(f"{name}_d{q}")
        c.assume(d >= 0)
        shp.append(d)
    a = A.fresh_array(name, tuple(shp), kind)
    a.frozen = True
    if cls:
        a.__class__ = cls
    return a


def d(a, q):
    return A.dz(a._shape[q])


def good_data(data):
    """the dataset may be fitted: matching rows and feature counts"""
    out = [data.X_l.ndim >= 2, data.y_l.ndim in (1, 2)]
    if all(out):
        out.append(d(data.X_l, 0) == d(data.y_l, 0))
    for a in (data.X_u, data.X_u_w, data.X_u_s):
        if a is not None:
            out.append(a.ndim >= 2)
            if a.ndim >= 2 and data.X_l.ndim >= 2:
                out.append(d(a, 1) == d(data.X_l, 1))
    w, s = data.X_u_w, data.X_u_s
    if w is not None and s is not None and w.ndim and s.ndim:
        out.append(d(w, 0) == d(s, 0))
    return And(*[z3.BoolVal(q) if isinstance(q, bool) else q for q in out])


def decide(c, call, good, world=None):
    try:
        r = call()
    except (world or W).fn(f"{P}.errors", "InductiveValidationError"):
        c.cover("refused")
        c.oblige("only an unusable dataset is refused", Not(good))
        return None
    c.cover("accepted")
    c.oblige("an unusable dataset is refused", good)
    return r


def dataset(c, which, cls=None):
    if which == 0:
        r = dict(X_l=(1, 2, 3), y_l=(1, 2, 3), X_u=(None, 1, 2, 3), X_u_w=(None,), X_u_s=(None,))
    else:
        r = dict(X_l=(2, 3), y_l=(1,), X_u=(None,), X_u_w=(None, 1, 2), X_u_s=(None, 1, 2, 3))
    return ns(**{k: any_array(c, k, v, "i" if k == "y_l" else "f", cls) for k, v in r.items()}, views=None, meta=None)


def t_validate(which):
    def run(c):
        data = dataset(c, which)
        decide(c, lambda: (W.fn(V, "validate_inductive_dataset")(data), 1), good_data(data))
    return run


BAD_VIEWS = [None, {}, {"a": 1, "b": 2}, {"a": 1, 3: 2}, [("a", 1)], 5]


def t_mappings(c):
    data = ns(X_l=any_array(c, "X_l", (2,)), y_l=any_array(c, "y_l", (1,), "i"), X_u=None, X_u_w=None, X_u_s=None,
              views=BAD_VIEWS[c.choose(6, "views")], meta=[None, {}, {"k": 1}, [1], "m"][c.choose(5, "meta")])
    ok = (data.views is None or (isinstance(data.views, dict) and all(isinstance(k, str) for k in data.views))) and (data.meta is None or isinstance(data.meta, dict))
    decide(c, lambda: (W.fn(V, "validate_inductive_dataset")(data), 1), And(good_data(data), z3.BoolVal(ok)))
    if c.choose(2, "no data"):
        try:
            W.fn(V, "validate_inductive_dataset")(None)
            c.oblige("missing data is refused", False)
        except Err():
            pass


class Foreign:
    """array-like of another library"""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


def t_numpy_dataset(c):
    names = ("X_l", "y_l", "X_u", "X_u_w", "X_u_s")
    arrs = {k: any_array(c, k, (1,) if k == "y_l" else (2,) if k == "X_l" else (None, 2), "i" if k == "y_l" else "f") for k in names}
    bad = c.choose(7, "foreign")  # one of the entries is not a numpy array
    vals = dict(arrs)
    v = any_array(c, "v", (2,))
    views = (None, {"a": v}, {"a": Foreign(v)})[c.choose(3, "views") if bad == 0 else 0]
    if 1 <= bad <= 5 and arrs[names[bad - 1]] is not None:
        vals[names[bad - 1]] = Foreign(arrs[names[bad - 1]])
    meta = {"k": 1}
    data = ns(**vals, views=views, meta=meta)
    numpy_only = not any(isinstance(q, Foreign) for q in vals.values()) and not (views and isinstance(views["a"], Foreign))
    o = decide(c, lambda: W.fn(f"{AD}.numpy", "to_numpy_dataset")(data), And(good_data(ns(**arrs)), z3.BoolVal(numpy_only)))
    if o is not None:
        c.oblige("the very arrays are handed on", all(getattr(o, k) is vals[k] for k in names) and o.meta is meta
                 and (o.views is None if views is None else list(o.views) == ["a"] and o.views["a"] is v))


def t_torch_dataset(which):
    def run(c):
        data = dataset(c, which, Tensor)
        names = ("X_l", "y_l", "X_u", "X_u_w", "X_u_s")
        odd = c.choose(4, "other kind or device")
        ok = True
        if odd:
            last = [k for k in names if getattr(data, k) is not None][-1]
            if odd == 1:
                getattr(data, last).__class__ = A.SArr
                ok = False
            elif odd == 2:
                getattr(data, last).device = "cuda"
                ok = False
            else:
                for k in names:
                    if getattr(data, k) is not None:
                        getattr(data, k).device = "cuda"
        spec = ns(device=("cpu", "auto")[c.choose(2, "wanted")])
        if odd == 3 and spec.device == "cpu":
            ok = False
        o = decide(c, lambda: WT.fn(f"{AD}.torch", "to_torch_dataset")(data, device=spec), And(good_data(data), z3.BoolVal(ok)), WT)
        if o is not None:
            c.oblige("the very tensors are handed on", all(getattr(o, k) is getattr(data, k) for k in names) and o.views is None and o.meta is None)
    return run


def t_normalize(c):
    n, m = c.int("n"), c.int("m")
    c.assume(And(n >= 0, m >= 1))
    S = A.fresh_array("scores", (n, m), "f")
    S.frozen = True
    model = (None, ns(supports_proba=True), ns(supports_proba=False))[c.choose(3, "classifier")]
    i, j, j2 = skolem("i"), skolem("col"), skolem("col2")
    c.ghost.setdefault("colprobes", []).extend([j, j2])
    c.assume(And(i >= 0, i < n, j >= 0, j < m, j2 >= 0, j2 < m))
    o = W.fn(BR, "normalize_scores")(S, backend="numpy", model=model)
    c.cover("returns")
    c.oblige("one row per sample, one column per class", And(o.ndim == 2, d(o, 0) == n, d(o, 1) == m))
    c.oblige("no negative score", o.at(i, j) >= 0)
    tot = A.rowsum_fn(o)(i)
    c.oblige("a row sums to one unless it has no score at all", Or(tot == 1, And(tot == 0, S.at(i, j) == 0)))
    c.oblige("the order of the classes is kept", Implies(S.at(i, j) >= S.at(i, j2), o.at(i, j) >= o.at(i, j2)))


def confident(c, nu, m):
    """an arbitrary score matrix and the positions select_confident picks, by its contract"""
    S = A.fresh_array("scores", (nu, m), "f")
    S.frozen = True
    return S


def t_select(c):
    nu, m = c.int("nu"), c.int("m")
    c.assume(And(nu >= 0, m >= 1))
    S = confident(c, nu, m)
    thr = (None, R("thr"))[c.choose(2, "threshold")]
    cap = (None, I("cap"))[c.choose(2, "limit")]
    if cap is not None:
        c.assume(cap.t >= 0)
    x, q = skolem("x"), skolem("col")
    c.ghost.setdefault("colprobes", []).append(q)
    c.assume(And(q >= 0, q < m))
    idx = W.fn(BR, "select_confident")(S, threshold=thr, max_new=cap)
    c.cover("selects")
    k = idx.cnt(x)
    conf = S.max(axis=1)
    c.oblige("positions of samples, each at most once", And(k >= 0, k <= 1, Implies(k >= 1, And(x >= 0, x < nu))))
    if thr is not None:
        c.oblige("only confident samples", Implies(k >= 1, conf.at(x) >= thr.t))
    if cap is not None:
        c.oblige("no more than the limit", idx.sz <= cap.t)
    else:
        ok = z3.BoolVal(True) if thr is None else conf.at(x) >= thr.t
        c.oblige("every confident sample", Implies(And(x >= 0, x < nu, ok), k == 1))


def t_labels(c):
    y = any_array(c, "y", (0, 1, 2), ("i", "f", "U")[c.choose(3, "type")])
    good = And(z3.BoolVal(y.ndim == 1 and y.kind == "i"), y.sz > 0 if y.ndim == 1 else z3.BoolVal(False))
    r = decide(c, lambda: W.fn(BR, "ensure_1d_labels")(y), good)
    if r is not None:
        c.oblige("the labels come back", r is y)


class Clf:
    """a classifier by its contract: it learns from what fit is given and predicts labels among the last fit's"""

    def __init__(self, c, spec, seed, world):
        self.c, self.w, self.seed, self.fits = c, world, seed, 0

    def fit(self, X, y):
        c, w = self.c, self.w
        self.fits += 1
        i, j = skolem("fi"), skolem("fj")
        c.oblige("the classifier is given one label per row", A.dz(X._shape[0]) == A.dz(y._shape[0]))
        c.assume(And(i >= 0, i < A.dz(X._shape[0]), j >= 0, j < w.d))
        c.oblige("the classifier is given rows of the data", w.isrow(X.at(i, j), j))
        c.oblige("the classifier is given labels of the labelled data", w.islab(y.at(i)))

    def predict(self, X):
        if not self.fits:
            raise RuntimeError("not fitted")
        p = A.fresh_array("predicted", (X._shape[0],), "i")
        f = p._fn

        def at(i):
            t = f(i)
            self.c.assume(self.w.islab(t))
            return t
        p._fn = at
        return p


def fit_setting(c, module, cls, spec):
    n, nu, dd = c.int("n"), c.int("nu"), c.int("d")
    c.assume(And(n >= 1, nu >= 0, dd >= 1))
    X_l, X_u = A.fresh_array("X_l", (n, dd), "f"), A.fresh_array("X_u", (nu, dd), "f")
    y_l = A.fresh_array("y_l", (n,), "i")
    X_l.frozen = X_u.frozen = y_l.frozen = True
    w = ns(d=dd, isrow=z3.Function("isrow", z3.RealSort(), z3.IntSort(), z3.BoolSort()), islab=z3.Function("islab", z3.IntSort(), z3.BoolSort()))
    for a, kind in ((X_l, 2), (X_u, 2), (y_l, 1)):
        f, n0 = a._fn, A.dz(a._shape[0])
        if kind == 2:
            a._fn = lambda i, j, f=f, n0=n0: (c.assume(Implies(And(i >= 0, i < n0, j >= 0, j < dd), w.isrow(f(i, j), j))), f(i, j))[1]
        else:
            a._fn = lambda i, f=f, n0=n0: (c.assume(Implies(And(i >= 0, i < n0), w.islab(f(i)))), f(i))[1]
    c.ghost["elem preds"] = [("f", 2, lambda ix, t: w.isrow(t, ix[1])), ("i", 1, lambda ix, t: w.islab(t))]
    made = []

    def build(spec, *, seed):
        made.append((Clf(c, spec, seed, w), seed))
        return made[-1][0]

    def scores(model, X, *, backend):
        m = c.int("m")
        c.assume(m >= 1)
        c.oblige("only a fitted classifier scores", bool(model.fits))
        return A.fresh_array("scores", (X._shape[0], m), "f")

    def select(S, *, threshold=None, max_new=None):
        c.oblige("the threshold of the settings decides", threshold is not None)
        return A.fresh_index_array("sel", lo=0, hi=A.dz(S._shape[0]), distinct=True)

    M = f"{P}.methods"
    names = {"build_classifier": build, "predict_scores": scores, "select_confident": select, "detect_backend": lambda x: "numpy",
             "ensure_numpy_data": lambda data: data, "ensure_classifier_backend": lambda *a, **k: None, "ensure_cpu_device": lambda d: None}
    Wf = World(stubs={f"{q}:{k}": v for k, v in names.items() for q in (f"{M}.{module}", BR)}, inert=(f"{P}.deep",))
    data = ns(X_l=X_l, y_l=y_l, X_u=(X_u, None)[c.choose(2, "unlabelled data")], meta=None)
    mod = f"{M}.{module}"
    method = Wf.fn(mod, cls)(Wf.fn(mod, spec[0])(**spec[1]))
    seed = I("seed")
    r = method.fit(data, device=ns(device="cpu"), seed=seed)
    c.cover("fitted")
    c.oblige("the fitted method is returned", r is method)
    c.oblige("one classifier, made with the given seed", len(made) >= 1 and And(*[ti(s) == seed.t for _, s in made]))
    c.oblige("the model in use was fitted", method._clf is made[0][0] and method._clf.fits >= 1)


def t_pseudo_label(c):
    fit_setting(c, "pseudo_label", "PseudoLabelMethod", ("PseudoLabelSpec", dict(max_iter=I("iters"), confidence_threshold=R("thr"), min_new_labels=I("least"))))


TASKS = [
    Task("classifier_bridge.select_confident", t_select, [f"{BR}:select_confident"]),
    Task("classifier_bridge.ensure_1d_labels", t_labels, [f"{BR}:ensure_1d_labels"]),
    Task("pseudo_label.fit", t_pseudo_label, [f"{P}.methods.pseudo_label:PseudoLabelMethod.fit"],
         assumes=["select_confident, ensure_numpy_data: proved above", "a classifier predicts labels among those of its last fit (C19)"]),
    Task("validation [rows, features]", t_validate(0), [f"{V}:validate_inductive_dataset", f"{V}:_require_2d", f"{V}:_require_y"]),
    Task("validation [augmented]", t_validate(1), [f"{V}:validate_inductive_dataset"]),
    Task("validation [views, meta]", t_mappings, [f"{V}:_validate_views", f"{V}:_validate_meta"]),
    Task("adapters.numpy", t_numpy_dataset, [f"{AD}.numpy:to_numpy_dataset", f"{AD}.numpy:_require_numpy", f"{AD}.numpy:_require_numpy_views"]),
    Task("adapters.torch [rows, features]", t_torch_dataset(0), [f"{AD}.torch:to_torch_dataset"]),
    Task("adapters.torch [augmented]", t_torch_dataset(1), [f"{AD}.torch:to_torch_dataset"]),
    Task("classifier_bridge.normalize_scores", t_normalize, [f"{BR}:normalize_scores"]),
]
