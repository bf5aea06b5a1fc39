"""Run-time contract: labels outside the training mask never influence a transductive method (two-run contract)."""
import copy

import numpy as np

from bounded.tx import BINARY, CLASSIC, GNN, dataset, method, scores, snapshot
from bounded.util import same

RULE = ("random node datasets in which every class has a training node, every built-in method, labels of the other nodes replaced "
        "by other classes or by -1; distinct by input; a case counts when at least one label was changed")
EXPLANATION = "Two fits that differ only in labels of nodes outside the training (and, for early-stopping methods, validation) mask."


def _run(g, mid):
    data, C = dataset(g, binary=mid in BINARY, connected=g.bool(0.7))
    over = {}
    if mid == "dynamic_label_propagation":
        over = {"k_neighbors": g.int(1, 4), "max_iter": g.int(0, 5)}
    elif mid in ("label_propagation", "label_spreading"):
        over = {"max_iter": g.pick([0, 1, 3, 200]), "norm": g.pick(["rw", "sym"]), "normalize_rows": g.bool()}
    elif mid == "poisson_mbo":
        over = {"T": 5, "Ninner": 3, "Nouter": 3, "n_volume_iters": 5, "b_strategy": g.pick(["uniform", "labeled"])}
    elif mid == "poisson_learning":
        over = {"backend": g.pick(["numpy", "torch"]), "center_sources": g.bool(), "max_iter": 50}
    elif mid == "p_laplace_learning":
        over = {"p": g.pick([2.0, 3.0]), "max_iter": 5, "cg_max_iter": 50}
    make = method(g, mid, **over)
    free = ~data.masks["train_mask"]
    if mid in GNN and "val_mask" in data.masks:
        free &= ~data.masks["val_mask"]
    idx = np.flatnonzero(free)
    if idx.size == 0:
        g.require(True, "")
        return
    device = g.pick([None, "cpu"])
    seed = g.int(0, 99)
    before = snapshot(data)
    F1, e1 = scores(make, data, seed, device)
    g.require(same(list(snapshot(data)), list(before)) is None, f"{mid}: fitting modifies the dataset")
    other = copy.deepcopy(data)
    how = g.pick(["shift", "random", "unknown"]) if mid not in GNN else g.pick(["shift", "random"])
    k = g.int(1, idx.size)
    ch = g.rng.choice(idx, size=k, replace=False)
    other.y[ch] = {"shift": (other.y[ch] + 1) % C, "random": g.rng.integers(0, C, k), "unknown": np.full(k, -1)}[how]
    if np.array_equal(other.y, data.y):
        g.require(True, "")
        return
    g.note(relabelled=ch.tolist(), how=how, device=device)
    F2, e2 = scores(make, other, seed, device, 1 + g.int(0, 1000))
    g.require((e1 is None) == (e2 is None), f"{mid}: refuses one labelling of the other nodes and not the other: {e1!r} / {e2!r}")
    if e1 is not None:
        return
    g.require(F1.shape == F2.shape, f"{mid}: score shapes {F1.shape} and {F2.shape}")
    g.require(bool(np.allclose(F1, F2, rtol=1e-4, atol=1e-6, equal_nan=True)),
              f"{mid}: labels outside the training mask change the scores by up to {np.nanmax(np.abs(F1 - F2)):.3g}")


SCENARIOS = [(m, lambda g, m=m: _run(g, m), 60, 1) for m in CLASSIC] + [(m, lambda g, m=m: _run(g, m), 12, 1) for m in GNN]


def PRELOAD():
    import torch

    torch.set_num_threads(1)
    from modssc.transductive.registry import get_method_class

    for m in CLASSIC + GNN:
        get_method_class(m)
