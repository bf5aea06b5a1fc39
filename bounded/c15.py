"""Run-time contract: evaluation metrics equal their definitions."""
from fractions import Fraction

import numpy as np

from modssc.evaluation import compute_metrics, evaluate, labels_1d, list_metrics, predict_labels
from modssc.evaluation.metrics import accuracy, balanced_accuracy, macro_f1

RULE = ("label vectors of 0 to 300 entries over 1 to 6 classes (integers with gaps and negatives, floats, strings, objects, booleans), "
        "predictions with classes absent from the truth and the reverse; distinct by input")
EXPLANATION = "Metrics are recomputed from their definitions with exact rational arithmetic."


def labels(g, n, kind, k):
    pool = {"int": g.rng.permutation(np.arange(-5, 20))[:k], "float": np.array([0.5, 1.0, -2.0, 3.25, 7.0, 9.5])[:k],
            "str": np.array(["a", "bb", "c", "", "Z", "zz"])[:k], "bool": np.array([False, True])[:max(1, min(k, 2))],
            "u8": np.array([0, 3, 255, 7, 9, 11], np.uint8)[:k], "obj": np.array(["a", "bb", "c", "d", "e", "f"], dtype=object)[:k]}[kind]
    return pool[g.rng.integers(0, len(pool), n)] if n else pool[:0], pool


def oracle(t, p):
    n = len(t)
    acc = Fraction(sum(a == b for a, b in zip(t, p, strict=True)), n)
    cls = sorted(set(t), key=str)
    rec, f1 = [], []
    for c in cls:
        tp = sum(a == c and b == c for a, b in zip(t, p, strict=True))
        nt, npred = sum(a == c for a in t), sum(b == c for b in p)
        rec.append(Fraction(tp, nt))
        f1.append(Fraction(2 * tp, nt + npred))
    return float(acc), float(sum(rec) / len(cls)), float(sum(f1) / len(cls))


def near(a, b):
    return abs(a - b) <= 1e-12


def s_metrics(g):
    kind = g.pick(["int", "int", "float", "str", "bool", "u8", "obj"])
    n, k = g.pick([1, 2, 3, 5, 8, 20, 100, 300]), g.int(1, 6)
    t, pool = labels(g, n, kind, k)
    mode = g.pick(["random", "near", "const", "other", "same"])
    p = {"random": lambda: pool[g.rng.integers(0, len(pool), n)], "same": lambda: t.copy(),
         "const": lambda: np.full(n, pool[g.int(0, len(pool) - 1)], dtype=pool.dtype),
         "other": lambda: pool[g.rng.integers(0, len(pool), n)],
         "near": lambda: np.where(g.rng.random(n) < 0.8, t, pool[g.rng.integers(0, len(pool), n)])}[mode]()
    if mode == "other":
        keep = pool[: max(1, len(pool) // 2)]
        t = keep[g.rng.integers(0, len(keep), n)]
    g.note(kind=kind, n=n, mode=mode, y_true=t[:12].tolist(), y_pred=p[:12].tolist())
    t0, p0 = t.copy(), p.copy()
    tl, pl = t.tolist(), p.tolist()
    a, b, f = oracle(tl, pl)
    got = accuracy(t, p), balanced_accuracy(t, p), macro_f1(t, p)
    for name, x, y in zip(("accuracy", "balanced accuracy", "macro F1"), got, (a, b, f), strict=True):
        g.require(isinstance(x, float) and near(x, y), f"{name} is {x}, by definition {y}")
        g.require(0.0 <= x <= 1.0 + 1e-12, f"{name} {x} outside [0, 1]")
        if tl == pl:
            g.require(x == 1.0, f"{name} of a perfect prediction is {x}")
    g.require(np.array_equal(t, t0) and np.array_equal(p, p0), "a metric modifies its input")
    perm = g.rng.permutation(n)
    g.require(all(near(x, y) for x, y in zip((accuracy(t[perm], p[perm]), balanced_accuracy(t[perm], p[perm]), macro_f1(t[perm], p[perm])), got, strict=True)),
              "permuting the samples changes a metric")
    ren = {c: v for c, v in zip(pool.tolist(), g.rng.permutation(1000)[: len(pool)].tolist(), strict=True)}
    t2, p2 = np.array([ren[c] for c in tl]), np.array([ren[c] for c in pl])
    g.require(all(near(x, y) for x, y in zip((accuracy(t2, p2), balanced_accuracy(t2, p2), macro_f1(t2, p2)), got, strict=True)),
              "renaming the classes changes a metric")
    names = [g.pick(list_metrics()) for _ in range(g.int(0, 3))]
    d = compute_metrics(t, p, names)
    val = dict(accuracy=got[0], balanced_accuracy=got[1], macro_f1=got[2])
    g.require(d == {m: val[m] for m in names}, f"compute_metrics({names}) gives {d}")
    g.raises(lambda: compute_metrics(t, p, ["nope"]), ValueError, "an unknown metric is accepted")
    if kind in ("int", "u8"):
        g.require(evaluate(g.pick([t, t.tolist()]), g.pick([p, p.tolist()]), list_metrics()) == val, "evaluate differs from the metrics on label vectors")


def s_mismatch(g):
    n, m = g.pick([0, 1, 2, 5]), g.pick([0, 1, 2, 3, 5, 6])
    if n == m:
        m += 1
    t, p = g.rng.integers(0, 3, n), g.rng.integers(0, 3, m)
    g.note(n=n, m=m)
    for fn in (accuracy, balanced_accuracy, macro_f1):
        g.raises(lambda fn=fn: fn(t, p), ValueError, f"{fn.__name__} accepts {n} labels and {m} predictions")
    g.raises(lambda: evaluate(t, p, ["accuracy"]), ValueError, "evaluate accepts mismatched lengths")
    if n:
        g.raises(lambda: accuracy(t, t.reshape(-1, 1)), ValueError, "accuracy accepts a column of predictions")


def s_scores(g):
    n, C = g.int(1, 30), g.int(1, 6)
    S = g.pick([lambda: g.rng.random((n, C)), lambda: g.rng.normal(size=(n, C)), lambda: g.rng.integers(-3, 4, (n, C)), lambda: g.rng.random((n, C)).astype(np.float32),
                lambda: 0.5 + 1e-13 * g.rng.integers(-3, 4, (n, C)), lambda: 2**40 + g.rng.integers(-3, 4, (n, C))])()
    y = g.rng.integers(0, C, n)
    if g.bool(0.2):
        import torch

        St = torch.as_tensor(S)
    else:
        St = g.pick([S, S.tolist()])
    g.note(S=np.round(S[:5], 3).tolist(), y=y[:10].tolist())
    p = predict_labels(St)
    g.require(p.shape == (n,) and all(0 <= p[i] < C and S[i, p[i]] == max(S[i]) for i in range(n)), "a prediction is not the largest score of its row")
    onehot = np.eye(C)[y]
    g.require(np.array_equal(labels_1d(onehot), y) and np.array_equal(labels_1d(y), y), "one-hot labels are not decoded to their classes")
    a, b, f = oracle(y.tolist(), p.tolist())
    for truth in (y, onehot):
        d = evaluate(truth, St, list_metrics())
        g.require(near(d["accuracy"], a) and near(d["balanced_accuracy"], b) and near(d["macro_f1"], f), "evaluate on scores differs from the definition")


SCENARIOS = [("metrics", s_metrics, 3000, 3), ("mismatch", s_mismatch, 200, 1), ("scores", s_scores, 600, 1)]
