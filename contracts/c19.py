"""Classifiers: label encoding, the nearest-neighbour vote, prediction by the largest score, refusals."""
from contracts.lib import *

P = "modssc.supervised"
TRUSTED = ["np.unique returns the sorted distinct values; np.searchsorted finds a value of a sorted list",
           "np.argpartition(s, k-1)[:, :k] selects the k smallest of each row",
           "torch and scikit-learn back ends take the bounded route"]
W = World(stubs={f"{P}.optional:has_module": lambda *a, **k: True})
KINDS = ("i", "U")


def training(c, kind=None, extra=0):
    y = labels("y", kind or KINDS[c.choose(len(KINDS), "labels")])
    y.frozen = True
    return y


def code_at(c, enc, j):
    t = enc.at(j)
    A.add_probe(t)
    return t


def t_encode(c):
    y = training(c)
    shape = c.choose(2, "column")
    x = A.reshape(y, (-1, 1)) if shape else y
    enc, classes = W.fn(f"{P}.utils", "encode_labels")(x)
    c.cover("encodes")
    c.oblige("one code per label", And(enc.ndim == 1, enc.sz == y.sz))
    c.oblige("codes are integers", enc.kind == "i")
    j, k = skolem("j"), skolem("k")
    c.assume(And(j >= 0, j < y.sz))
    t = code_at(c, enc, j)
    c.oblige("a code names a class", And(t >= 0, t < classes.sz))
    c.oblige("a label decodes to itself", classes.at(t) == y.at(j))
    b = c.bool("unused")
    c.assume(And(k >= 0, k < classes.sz))
    v = classes.at(k)
    A.probe_witnesses(k)
    A.forall(lambda i: Implies(And(b, i >= 0, i < y.sz), y.at(i) != v))
    c.oblige("every class is the label of some training sample", Not(b))


def t_onehot(c):
    n = c.int("n")
    m = I("m")
    c.assume(And(n >= 0, m.t >= 0))
    e = A.fresh_array("codes", (n,), "i")
    A.forall(lambda i: Implies(And(i >= 0, i < n), And(e.at(i) >= 0, e.at(i) < m.t)))
    o = W.fn(f"{P}.utils", "onehot")(e, m)
    i, j = skolem("i"), skolem("col")
    c.assume(And(i >= 0, i < n, j >= 0, j < m.t))
    c.cover("encodes")
    c.oblige("one row per code, one column per class", And(o.ndim == 2, A.dz(o._shape[0]) == n, A.dz(o._shape[1]) == m.t))
    c.oblige("one exactly in the column of the code", o.at(i, j) == If(j == e.at(i), z3.RealVal(1), z3.RealVal(0)))


def t_ensure2d(c):
    r = 1 + c.choose(2, "rank")
    shp = []
    for q in range(r):
        d = c.int(f"d{q}")
        c.assume(d >= 0)
        shp.append(d)
    x = A.fresh_array("x", tuple(shp), "f")
    x.frozen = True
    o = W.fn(f"{P}.utils", "ensure_2d")(x)
    c.cover("returns")
    i, j = skolem("i"), skolem("col")
    c.assume(And(i >= 0, i < shp[0]))
    c.oblige("a matrix comes back", o.ndim == 2)
    if r == 1:
        c.oblige("one column", And(A.dz(o._shape[0]) == shp[0], A.dz(o._shape[1]) == 1))
        c.oblige("rows keep their order", o.at(i, z3.IntVal(0)) == x.at(i))
    else:
        c.oblige("the same matrix", And(A.dz(o._shape[0]) == shp[0], A.dz(o._shape[1]) == shp[1], o.at(i, j) == x.at(i, j)))


def knn(c, **kw):
    return W.fn(f"{P}.backends.numpy.knn", "NumpyKNNClassifier")(**kw)


def t_fit(c):
    n, d = c.int("n"), c.int("d")
    c.assume(And(n >= 0, d >= 0))
    X = A.fresh_array("X", (n, d), "f")
    X.frozen = True
    y = training(c)
    k = I("k")
    metric = ("euclidean", "cosine", "l1")[c.choose(3, "metric")]
    weights = ("uniform", "distance", "rank")[c.choose(3, "weights")]
    clf = knn(c, k=k, metric=metric, weights=weights)
    Err = W.fn(f"{P}.errors", "SupervisedValidationError")
    good = And(n > 0, d > 0, y.sz == n, k.t > 0, z3.BoolVal(metric != "l1"), z3.BoolVal(weights != "rank"))
    try:
        r = clf.fit(X, y)
    except Err:
        c.cover("refused")
        c.oblige("only an unusable training set or setting is refused", Not(good))
        return
    c.cover("fitted")
    c.oblige("an unusable training set or setting is refused", good)
    c.oblige("the sizes are reported", And(ti(r.n_samples) == n, ti(r.n_features) == d, ti(r.n_classes) == clf.classes_.sz))
    i, j = skolem("i"), skolem("col")
    c.assume(And(i >= 0, i < n, j >= 0, j < d))
    c.oblige("the stored rows are the training rows", And(A.dz(clf._X_train._shape[0]) == n, clf._X_train.at(i, j) == X.at(i, j)))
    t = code_at(c, clf._y_train_enc, i)
    c.oblige("each stored code decodes to the row's label", And(clf._y_train_enc.sz == n, t >= 0, t < clf.classes_.sz, clf.classes_.at(t) == y.at(i)))


def fitted(c, clf, kind):
    """an arbitrary state fit may leave: its postcondition"""
    n, d, m = c.int("n"), c.int("d"), c.int("m")
    c.assume(And(n >= 1, d >= 1, m >= 1, m <= n))
    y = A.fresh_array("y", (n,), kind)
    classes = A.fresh_array("classes", (m,), kind)
    X = A.fresh_array("X", (n, d), "f")
    e = A.fresh_array("codes", (n,), "i")
    rep = c.func("member", z3.IntSort(), z3.IntSort())
    A.forall(lambda i: Implies(And(i >= 0, i < n), And(e.at(i) >= 0, e.at(i) < m, classes.at(e.at(i)) == y.at(i))))
    A.forall(lambda q: Implies(And(q >= 0, q < m), And(rep(q) >= 0, rep(q) < n, y.at(rep(q)) == classes.at(q), e.at(rep(q)) == q)))
    X.frozen = e.frozen = classes.frozen = True
    clf._X_train, clf._y_train_enc, clf.classes_ = X, e, classes
    return n, d, m, y, rep


def seen(c, y, v, rep, q):
    """v is the label of a training sample: the representative of its class is one"""
    return And(rep(q) >= 0, rep(q) < y.sz, y.at(rep(q)) == v)


def t_predict(c):
    kind = KINDS[c.choose(2, "labels")]
    clf = knn(c)
    n, d, m, y, rep = fitted(c, clf, kind)
    nq = c.int("nq")
    c.assume(nq >= 0)
    S = A.fresh_array("scores", (nq, m), "f")
    S.frozen = True
    X = A.fresh_array("Q", (nq, d), "f")
    asked = []
    type(clf).predict_proba = lambda self, x: (asked.append(x), S)[1]
    p = clf.predict(X)
    c.cover("predicts")
    i, q = skolem("i"), skolem("col")
    c.ghost.setdefault("colprobes", []).append(q)
    c.assume(And(i >= 0, i < nq, q >= 0, q < m))
    c.oblige("the scores of the very queries decide", len(asked) == 1 and asked[0] is X)
    c.oblige("one label per query", And(p.ndim == 1, p.sz == nq))
    b = c.bool("unseen")
    v = p.at(i)
    A.forall(lambda j: Implies(And(b, j >= 0, j < n), y.at(j) != v))
    w = S.argmax(axis=1).at(i)
    A.add_probe(w)
    A.add_probe(rep(w))
    c.oblige("only labels seen in training are predicted", Not(b))
    b2 = c.bool("beaten")
    A.forall(lambda u: Implies(And(b2, u >= 0, u < m, classes_at(clf, u) == v), S.at(i, q) > S.at(i, u)))
    c.oblige("no class scores higher than the predicted one", Not(b2))


def classes_at(clf, u):
    return clf.classes_.at(u)


def t_default_scores(c):
    """predict_scores of a classifier without probabilities: one in the column of the predicted label"""
    y = training(c)
    c.assume(y.sz >= 1)
    clf = W.fn(f"{P}.base", "BaseSupervisedClassifier")()
    clf._set_classes_from_y(y)
    m, nq = clf.classes_.sz, c.int("nq")
    c.assume(nq >= 0)
    e = A.fresh_array("pred", (nq,), "i")
    A.forall(lambda i: Implies(And(i >= 0, i < nq), And(e.at(i) >= 0, e.at(i) < m)))
    i, q = skolem("i"), skolem("col")
    c.assume(And(i >= 0, i < nq, q >= 0, q < m))
    A.add_probe(e.at(i))
    type(clf).predict = lambda self, X: clf.classes_[e]
    o = clf.predict_scores(("queries",))
    c.cover("scores")
    c.oblige("one row per query, one column per class", And(o.ndim == 2, A.dz(o._shape[0]) == nq, A.dz(o._shape[1]) == m))
    c.oblige("one in the column of the predicted label, zero elsewhere", o.at(i, q) == If(q == e.at(i), z3.RealVal(1), z3.RealVal(0)))
    p = clf._decode(e)
    c.oblige("codes decode by the class list", And(p.sz == nq, p.at(i) == clf.classes_.at(e.at(i))))


class Model:
    """a fitted estimator on codes: its scores are arbitrary, its prediction is the largest score (trusted: scikit-learn)"""

    def __init__(self, c, nq, m, binary):
        self.asked, self.binary = [], binary
        self.S = A.fresh_array("margin", (nq,) if binary else (nq, m), "f")
        self.S.frozen = True
        self.e = A.fresh_array("code", (nq,), "i")

    def decision_function(self, X):
        self.asked.append(X)
        return self.S

    predict_proba = decision_function

    def predict(self, X):
        self.asked.append(X)
        return self.e


def t_sklearn(c):
    kind = KINDS[c.choose(2, "labels")]
    proba, binary = ((True, False), (False, False), (False, True))[c.choose(3, "model")]
    clf = W.fn(f"{P}.backends.sklearn.common", "SklearnProbaClassifier" if proba else "SklearnDecisionFunctionClassifier")()
    n, m, nq, d = c.int("n"), (2 if binary else c.int("m")), c.int("nq"), c.int("d")
    c.assume(And(n >= 1, A.dz(m) >= 1, nq >= 0, d >= 1))
    classes = A.fresh_array("classes", (m,), kind)
    y = A.fresh_array("y", (n,), kind)
    rep = c.func("member", z3.IntSort(), z3.IntSort())
    M = A.dz(m)
    A.forall(lambda q: Implies(And(q >= 0, q < M), And(rep(q) >= 0, rep(q) < n, y.at(rep(q)) == classes.at(q))))
    clf.classes_ = classes
    mo = clf._model = Model(c, nq, m, binary)
    S = mo.S
    A.forall(lambda i: Implies(And(i >= 0, i < nq), And(mo.e.at(i) >= 0, mo.e.at(i) < M)))
    i, q = skolem("i"), skolem("col")
    c.assume(And(i >= 0, i < nq, q >= 0, q < M))
    e = mo.e.at(i)
    if binary:
        c.assume(e == If(S.at(i) > 0, z3.IntVal(1), z3.IntVal(0)))
    else:
        c.assume(S.at(i, e) >= S.at(i, q))
    A.add_probe(e)
    A.add_probe(rep(e))
    X = A.fresh_array("Q", (nq, d), "f")
    X.frozen = True
    o, p = clf.predict_scores(X), clf.predict(X)
    c.cover("predicts")
    c.oblige("the model sees the queries", all(z is X for z in mo.asked) and len(mo.asked) == 2)
    c.oblige("one row per query, one column per class", And(o.ndim == 2, A.dz(o._shape[0]) == nq, A.dz(o._shape[1]) == M))
    c.oblige("one label per query", And(p.ndim == 1, p.sz == nq))
    c.oblige("the predicted label is the class of the model's code", p.at(i) == classes.at(e))
    b = c.bool("unseen")
    A.forall(lambda j: Implies(And(b, j >= 0, j < n), y.at(j) != p.at(i)))
    c.oblige("only labels seen in training are predicted", Not(b))
    c.oblige("the predicted class has the largest score", o.at(i, e) >= o.at(i, q))


TASKS = [
    Task("base.predict_scores", t_default_scores, under=[f"{P}.base:BaseSupervisedClassifier.predict_scores", f"{P}.base:BaseSupervisedClassifier._decode", f"{P}.utils:onehot", f"{P}.utils:encode_labels"]),
    Task("sklearn.common", t_sklearn, under=[f"{P}.backends.sklearn.common:{q}" for q in ("predict_proba_float32", "decision_scores_float32", "predict_decoded_labels", "SklearnProbaClassifier.predict_scores", "SklearnDecisionFunctionClassifier.predict_scores")],
         assumes=["scikit-learn estimators on codes 0..m-1 predict a code of largest score (two classes: 1 iff the margin is positive)"], central=True),
    Task("utils.encode_labels", t_encode, under=[f"{P}.utils:encode_labels"], central=True),
    Task("utils.onehot", t_onehot, under=[f"{P}.utils:onehot"]),
    Task("utils.ensure_2d", t_ensure2d, under=[f"{P}.utils:ensure_2d"]),
    Task("NumpyKNNClassifier.fit", t_fit, under=[f"{P}.backends.numpy.knn:NumpyKNNClassifier.fit", f"{P}.base:BaseSupervisedClassifier._set_classes_from_y"], central=True),
    Task("NumpyKNNClassifier.predict", t_predict, under=[f"{P}.backends.numpy.knn:NumpyKNNClassifier.predict", f"{P}.base:BaseSupervisedClassifier._decode"], central=True),
]
