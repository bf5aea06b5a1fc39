"""Evaluation metrics equal their definitions, for label vectors of any length and any set of classes.

Counting is specified by predicates over positions: tp(k), the number of samples whose true and predicted label are both
class k, n(k) the number whose true label is k, and so on. Two counts are compared by the lemma that a count over the same
positions grows with its predicate; averages by the sum of the array that is averaged."""
from contracts.lib import *

EM = "modssc.evaluation.metrics"
TRUSTED = ["float arithmetic is exact (reals)", "labels of one vector are of one comparable type (numpy orders them)",
           "numeric labels are free of NaN"]
W = World()


def vectors(c, same=True, min_n=1):
    kind = ("i", "U")[c.choose(2, "label type")]
    n = c.int("n")
    c.assume(n >= min_n)
    m = n if same else c.int("m")
    if not same:
        c.assume(And(m >= 0, m != n))
    return A.fresh_array("y_true", (n,), kind), A.fresh_array("y_pred", (m,), kind), n


def ratio(a, b):
    from pyvc.values import ndiv

    return If(b > 0, ndiv(z3.ToReal(a), z3.ToReal(b)), z3.RealVal(0))


def spec_counts(c, t, p, n, k):
    """(both k, truth k, prediction k) as counts of positions"""
    tf, pf = t.snapshot(), p.snapshot()
    return (A.predcount(n, lambda i: And(tf(i) == k, pf(i) == k)), A.predcount(n, lambda i: tf(i) == k),
            A.predcount(n, lambda i: pf(i) == k))


def link(c, specs, k):
    """tie every count the code made for class k to the counts of the specification"""
    made = [q for q in c.ghost.get("predcounts", {}).values() if getattr(q, "key", None) is not None and q.key.eq(k)]
    for q in made:
        for s in specs:
            A.count_lemma(q, s)


def averaged(c, got, m):
    """the array whose mean was returned"""
    for a, s in reversed(c.ghost.get("sums", [])):
        from pyvc.values import ndiv

        if a.ndim == 1 and c.entails(a.sz == m):
            return a, s
    raise Unsupported("no average over the classes was taken")


def mean_between(c, a, s, lo, hi):
    """lemma: a sum of n terms lies between n times its smallest and n times its largest bound"""
    n = z3.ToReal(a.sz)
    c.assume(And(s >= lo * n, s <= hi * n))


def t_accuracy(c):
    f = W.fn(EM, "accuracy")
    t, p, n = vectors(c)
    got = unwrap(f(t, p))
    c.cover("returns")
    tf, pf = t.snapshot(), p.snapshot()
    hit = A.predcount(n, lambda i: tf(i) == pf(i))
    link_masks(c, hit)
    from pyvc.values import ndiv

    c.oblige("accuracy is the fraction of equal entries", got == ndiv(z3.ToReal(hit.t), z3.ToReal(n)))
    c.oblige("accuracy lies in [0, 1]", And(got >= 0, got <= 1))
    same = A.predcount(n, lambda i: z3.BoolVal(True))
    c.assume(same.t == n)
    A.count_lemma(hit, same)
    i = skolem("i")
    c.oblige("a perfect prediction has accuracy one", Implies(alleq(c, t, p, n), got == 1))
    c.oblige("a wrong entry keeps the accuracy below one", Implies(And(i >= 0, i < n, t.at(i) != p.at(i)), got < 1))


def alleq(c, t, p, n):
    b = c.bool("alleq")
    tf, pf = t.snapshot(), p.snapshot()
    A.forall(lambda x: Implies(And(b, x >= 0, x < n), tf(x) == pf(x)))
    return b


def link_masks(c, *specs):
    for m in c.ghost.get("masks_counted", []):
        for s in specs:
            A.count_lemma(m, s)


def index_contract(y, classes):
    """_pred_indices_for_classes: the position of each label in the class list, -1 when it is not there"""
    pos, cf, yf, m = classes.class_pos, classes.snapshot(), y.snapshot(), classes.sz

    def at(i):
        k = pos(yf(i))
        return If(And(k >= 0, k < m, cf(k) == yf(i)), k, -1)

    return A.SArr(y._shape, "i", at)


W_IDX = World(stubs={f"{EM}:_pred_indices_for_classes": index_contract})


def t_indices(c):
    f = W.fn(EM, "_pred_indices_for_classes")
    kind = ("i", "U")[c.choose(2, "label type")]
    n = c.int("n")
    c.assume(n >= 0)
    t, p = A.fresh_array("y_true", (c.int("nt"),), kind), A.fresh_array("y_pred", (n,), kind)
    classes = np_shim.unique(t)
    r = f(p, classes)
    c.cover("returns")
    i, k = skolem("i"), skolem("k")
    c.assume(And(i >= 0, i < n))
    v = r.at(i)
    c.oblige("one position per label", A.dz(r._shape[0]) == n)
    c.oblige("a label of the class list gets its position there", Implies(v >= 0, And(v < classes.sz, classes.at(v) == p.at(i))))
    if kind == "i":
        classes.cnt(classes.at(k))
    c.oblige("a label outside the class list gets -1", Implies(v < 0, And(v == -1, Implies(And(k >= 0, k < classes.sz), classes.at(k) != p.at(i)))))


def per_class(name):
    def run(c):
        f = W_IDX.fn(EM, name)
        c.ghost["plain sums"] = True
        t, p, n = vectors(c)
        got = unwrap(f(t, p))
        c.cover("returns")
        U_ = np_shim.unique(t, return_counts=True)
        classes = U_[0]
        m = classes.sz
        a, s = averaged(c, got, m)
        from pyvc.values import ndiv

        c.oblige("the result is the unweighted mean over the classes present in the truth", got == ndiv(s, z3.ToReal(m)))
        k = skolem("k")
        c.assume(And(k >= 0, k < m))
        cls = classes.at(k)
        i = skolem("i")
        np_shim.unique(t, return_inverse=True)[1].at(i)
        c.oblige("every label of the truth is one of the classes", Implies(And(i >= 0, i < n), haspos(c, classes, t, i)))
        v = a.at(k)
        both, nt, npred = spec_counts(c, t, p, n, cls)
        link(c, (both, nt, npred), k)
        A.count_lemma(both, nt)
        A.count_lemma(both, npred)
        rep = c.int("rep")
        A.add_probe(rep)
        c.assume(And(rep >= 0, rep < n, t.at(rep) == cls))  # np.unique returns values that occur
        A.count_fact(nt, rep)
        rec = ratio(both.t, nt.t)
        if name == "balanced_accuracy":
            spec = rec
            c.oblige("each class contributes its recall", v == spec)
        else:
            prec = ratio(both.t, npred.t)
            from pyvc.values import nmul

            spec = If(prec + rec > 0, ndiv(nmul(2 * prec, rec), prec + rec), z3.RealVal(0))
            c.oblige("each class contributes its F1 score", v == spec)
        c.oblige("the class score lies in [0, 1]", And(v >= 0, v <= 1))
        A.count_lemma(both, npred)
        b = alleq(c, t, p, n)
        ws = [c.int("w") for _ in range(2)]
        for q, w in ((nt, ws[0]), (npred, ws[1])):
            A.count_lemma(both, q)
        c.oblige("a class predicted perfectly scores one", Implies(b, v == 1))
        # k was arbitrary: the same holds of every class, so of their mean
        mean_between(c, a, s, z3.RealVal(0), z3.RealVal(1))
        c.assume(Implies(b, s == z3.ToReal(m)))
        c.oblige("the metric lies in [0, 1]", And(got >= 0, got <= 1))
        c.oblige("a perfect prediction scores one", Implies(b, got == 1))
    return run


def haspos(c, classes, t, i):
    return And(classes.class_pos(t.at(i)) >= 0, classes.class_pos(t.at(i)) < classes.sz, classes.at(classes.class_pos(t.at(i))) == t.at(i))


def t_shapes(c):
    name = ("accuracy", "balanced_accuracy", "macro_f1")[c.choose(3, "metric")]
    f = W.fn(EM, name)
    t, p, _ = vectors(c, same=False, min_n=0)
    try:
        f(t, p)
    except ValueError:
        c.cover("refused")
        c.oblige("refused", True)
        return
    c.oblige("vectors of different lengths are refused", False)


def t_predict(c):
    f = W.fn(EM, ("predict_labels", "labels_1d")[c.choose(2, "function")])
    n, m = c.int("n"), c.int("m")
    c.assume(And(n >= 0, m >= 1))
    X = A.fresh_array("scores", (n, m), "f")
    r = f(X)
    c.cover("returns")
    i, q = skolem("i"), c.int("q")
    c.ghost["colprobes"] = [q]
    c.assume(And(i >= 0, i < n, q >= 0, q < m))
    v = r.at(i)
    c.oblige("one label per row", And(A.dz(r._shape[0]) == n, r.ndim == 1))
    c.oblige("the predicted class is a column", And(v >= 0, v < m))
    c.oblige("the predicted class has the largest score of its row", X.at(i, v) >= X.at(i, q))
    c.oblige("a tie goes to the first class", Implies(X.at(i, q) == X.at(i, v), v <= q))


def t_labels(c):
    n = c.int("n")
    c.assume(n >= 0)
    y = A.fresh_array("y", (n,), "i")
    r = W.fn(EM, ("predict_labels", "labels_1d")[c.choose(2, "function")])(y)
    c.cover("returns")
    i = skolem("i")
    c.oblige("integer labels are returned as they are", And(A.dz(r._shape[0]) == n, Implies(And(i >= 0, i < n), r.at(i) == y.at(i))))


def t_evaluate(c):
    Wm = World()
    f = Wm.fn(EM, "evaluate")
    d = Wm.mods[EM].__dict__
    t, n, m = None, c.int("n"), c.int("m")
    c.assume(And(n >= 1, m >= 1))
    y, X = A.fresh_array("y", (n,), "i"), A.fresh_array("scores", (n, m), "f")
    calls = []

    def metric(name):
        def g(a, b):
            calls.append((name, a, b))
            return ("value of", name)
        return g

    names = sorted(d["METRICS"])
    d["METRICS"] = {k: metric(k) for k in names}
    pick = [("accuracy",), ("macro_f1", "accuracy"), ("balanced_accuracy", "macro_f1", "accuracy"), ("nope", "accuracy"), ("accuracy", "nope"), ()][c.choose(6, "metrics")]
    try:
        r = f(y, X, list(pick))
    except ValueError:
        c.oblige("only an unknown metric is refused", "nope" in pick)
        c.cover("refused")
        return
    c.cover("returns")
    c.oblige("an unknown metric is refused", "nope" not in pick)
    c.oblige("each requested metric, and no other, is returned under its own name",
             list(r) == list(pick) and all(r[k] == ("value of", k) for k in r) and [k for k, _, _ in calls] == list(pick))
    i, q = skolem("i"), c.int("q")
    c.ghost["colprobes"] = [q]
    c.assume(And(i >= 0, i < n, q >= 0, q < m))
    for _, a, b in calls:
        c.oblige("the truth is passed as it is", a.at(i) == y.at(i))
        v = b.at(i)
        c.oblige("the prediction is the column with the largest score", And(v >= 0, v < m, X.at(i, v) >= X.at(i, q)))


def t_names(c):
    f = W.fn(EM, "compute_metrics")
    d = W.mods[EM].__dict__
    c.oblige("the metrics are registered under their own names", all(getattr(v, "__name__", None) == k for k, v in d["METRICS"].items())
             and set(d["METRICS"]) == {"accuracy", "balanced_accuracy", "macro_f1"} and f is not None)
    c.cover("checked")


TASKS = [
    Task("metrics.accuracy", t_accuracy, [f"{EM}.accuracy", f"{EM}._require_same_shape"]),
    Task("metrics.class positions", t_indices, [f"{EM}._pred_indices_for_classes"], central=False),
    Task("metrics.balanced_accuracy", per_class("balanced_accuracy"), [f"{EM}.balanced_accuracy"], [f"{EM}._pred_indices_for_classes"]),
    Task("metrics.macro_f1", per_class("macro_f1"), [f"{EM}.macro_f1"], [f"{EM}._pred_indices_for_classes"]),
    Task("metrics.shapes", t_shapes, [f"{EM}._require_same_shape"]),
    Task("metrics.predict_labels", t_predict, [f"{EM}.predict_labels", f"{EM}.labels_1d"]),
    Task("metrics.labels", t_labels, [f"{EM}.predict_labels", f"{EM}.labels_1d"]),
    Task("metrics.evaluate", t_evaluate, [f"{EM}.evaluate", f"{EM}.compute_metrics", f"{EM}.list_metrics"]),
    Task("metrics.registry", t_names, [f"{EM}.METRICS"]),
]
NOT_DISCHARGED = []
