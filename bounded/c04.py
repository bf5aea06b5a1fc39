"""Run-time contract of SamplingResult.validate and masks_from_indices: accepted exactly when valid."""
from bounded.samp import *
from modssc.sampling.result import SamplingResult

RULE = "valid splits and splits with 0-2 injected faults of 15 kinds; distinct by the generated arrays"
EXPLANATION = "validate() is verified in both directions for every split; the same contract is checked at run time on generated splits."


def mk(indices=None, refs=None, masks=None):
    return SamplingResult(schema_version=1, created_at="t", dataset_fingerprint="d", split_fingerprint="s", plan={},
                          indices=indices or {}, refs=refs or {}, masks=masks or {}, stats={})


def valid_inductive(ix, refs, n_train, n_test):
    for k in ("train", "val", "test", "train_labeled", "train_unlabeled"):
        if k not in ix:
            return False
    if refs.get("train", "train") != "train" or refs.get("val", "train") != "train":
        return False
    for k, a in ix.items():
        if a.dtype.kind not in "iu":
            return False
        lim = n_train if refs.get(k, "train") == "train" else n_test
        v = a.tolist()
        if v and lim is None:
            return False
        if len(set(v)) != len(v) or any(i < 0 or i >= lim for i in v):
            return False
    s = {k: set(v.tolist()) for k, v in ix.items()}
    if s["train"] & s["val"]:
        return False
    if refs.get("test", "train") == "train" and (s["test"] & (s["train"] | s["val"])):
        return False
    return not (s["train_labeled"] & s["train_unlabeled"]) and s["train_labeled"] | s["train_unlabeled"] == s["train"]


def s_inductive(g):
    n = g.int(0, 14)
    nt = g.pick([None, None, g.int(0, 6)])
    perm = g.rng.permutation(n)
    a, b = sorted((g.int(0, n), g.int(0, n)))
    off = nt is not None and g.bool(0.7)
    ix = {"train": perm[:a], "val": perm[a:b], "test": np.arange(nt) if off else perm[b:]}
    m = g.int(0, a)
    tr = g.rng.permutation(ix["train"])
    ix["train_labeled"], ix["train_unlabeled"] = np.sort(tr[:m]), np.sort(tr[m:])
    refs = {"train": "train", "val": "train", "test": "test" if off else "train", "train_labeled": "train", "train_unlabeled": "train"}
    if g.bool(0.2):
        refs = {"test": refs["test"]}
    dt = g.pick([np.int64, np.int64, np.int32, np.uint8])
    ix = {k: v.astype(dt) for k, v in ix.items()}
    for _ in range(g.pick([0, 1, 1, 1, 2])):
        k = g.pick(list(ix))
        v = ix[k].tolist()
        f = g.pick(["dup", "move", "drop", "neg", "big", "float", "missing", "swapref", "cross", "limit", "emptyfloat", "testref"])
        if f == "dup" and v:
            v.insert(g.int(0, len(v)), g.pick(v))
        elif f == "move" and v:
            k2 = g.pick(list(ix))
            ix[k2] = np.append(ix[k2], v.pop()).astype(ix[k2].dtype)
        elif f == "drop" and v:
            v.pop(g.int(0, len(v) - 1))
        elif f == "neg":
            v.append(-g.int(1, 3))
        elif f == "big":
            v.append(n + g.int(0, 2))
        elif f == "limit":
            v.append((nt or 0) + g.int(0, 1))
        elif f == "float":
            ix[k] = ix[k].astype(float)
            continue
        elif f == "emptyfloat":
            ix[k] = np.array([])
            continue
        elif f == "missing":
            ix.pop(k)
            if not ix:
                return
            continue
        elif f == "swapref":
            refs[k] = "test" if refs.get(k, "train") == "train" else "train"
            continue
        elif f == "testref":
            refs["test"] = "train"
            continue
        elif f == "cross":
            o = ix[g.pick(list(ix))].tolist()
            if o:
                v.append(g.pick(o))
        ix[k] = np.asarray(v, dtype=np.int64 if (min(v, default=0) < 0 or ix[k].dtype.kind == "f") else ix[k].dtype)
    g.note(indices={k: (v.tolist(), str(v.dtype)) for k, v in ix.items()}, refs=refs, n_train=n, n_test=nt)
    ok = valid_inductive(ix, refs, n, nt)
    try:
        mk(ix, refs).validate(n_train=n, n_test=nt, n_nodes=None)
        acc = True
    except SamplingValidationError:
        acc = False
    g.require(acc == ok, "an invalid split is accepted" if acc else "a valid split is refused")


def valid_graph(m, n):
    if n is None or set(m) != {"train", "val", "test", "labeled", "unlabeled"}:
        return False
    if any(v.dtype != bool or v.shape != (n,) for v in m.values()):
        return False
    for i in range(n):
        if sum(bool(m[k][i]) for k in ("train", "val", "test")) > 1:
            return False
        if m["labeled"][i] and not m["train"][i]:
            return False
        if bool(m["unlabeled"][i]) != bool(m["train"][i] and not m["labeled"][i]):
            return False
    return True


def s_graph(g):
    n = g.int(0, 9)
    p = g.rng.integers(0, g.pick([3, 4]), n)
    m = {"train": p == 0, "val": p == 1, "test": p == 2}
    m["labeled"] = m["train"] & (g.rng.random(n) < 0.5)
    m["unlabeled"] = m["train"] & ~m["labeled"]
    nn = n
    for _ in range(g.pick([0, 1, 1, 2])):
        k = g.pick(list(m))
        f = g.pick(["flip", "flip", "flip", "int", "len", "missing", "extra", "2d", "none", "n"])
        if f == "flip" and m[k].size and m[k].ndim == 1:
            m[k] = m[k].copy()
            i = g.int(0, len(m[k]) - 1)
            m[k][i] = not m[k][i]
        elif f == "int":
            m[k] = m[k].astype(np.int64)
        elif f == "len":
            m[k] = np.append(m[k], False).astype(m[k].dtype)
        elif f == "missing":
            m.pop(k)
            if not m:
                return
        elif f == "extra":
            m["other"] = np.zeros(n, dtype=bool)
        elif f == "2d":
            m[k] = m[k].reshape(-1, 1)
        elif f == "none":
            nn = None
        elif f == "n":
            nn = n + g.pick([-1, 1])
    g.note(masks={k: (v.tolist(), str(v.dtype)) for k, v in m.items()}, n_nodes=nn)
    ok = valid_graph(m, nn)
    try:
        mk(masks=m).validate(n_train=0, n_test=None, n_nodes=nn)
        acc = True
    except SamplingValidationError:
        acc = False
    g.require(acc == ok, "invalid graph masks are accepted" if acc else "valid graph masks are refused")


def s_masks(g):
    from modssc.graph.masks import masks_from_indices

    n = g.int(1, 12)

    def idx(bad):
        v = [int(i) for i in g.rng.permutation(n)[: g.int(0, n)]]
        if bad:
            v.insert(g.int(0, len(v)), g.pick([-1, n, n + 3, -n - 1]))
        return np.asarray(v, dtype=g.pick([np.int64, np.int32]))
    bad = g.pick([None, None, None, "train", "val", "test", "labeled"])
    a = {k: idx(k == bad) for k in ("train", "val", "test")}
    if bad == "labeled":
        lab = np.append(a["train"], g.pick([-1, n]))
    else:
        lab = None if g.bool(0.3) else a["train"][: g.int(0, len(a["train"]))]
    g.note(n=n, **{k: v.tolist() for k, v in a.items()}, labeled=None if lab is None else lab.tolist())
    call = lambda: masks_from_indices(n=n, train_idx=a["train"], val_idx=a["val"], test_idx=a["test"], labeled_idx=lab)  # noqa: E731
    if bad:
        g.raises(call, Exception, "an out-of-range node index is accepted")
        return
    m = call().as_dict()
    for k in ("train", "val", "test"):
        want = np.zeros(n, dtype=bool)
        want[a[k]] = True
        got = np.asarray(m[k])
        g.require(got.dtype == bool and np.array_equal(got, want), f"{k} mask is not true exactly at the listed nodes", got=got.tolist())
    if lab is not None:
        want = np.zeros(n, dtype=bool)
        want[lab] = True
        g.require(np.array_equal(np.asarray(m["unlabeled"]), np.asarray(m["train"]) & ~want), "unlabelled mask is not the rest of train")


SCENARIOS = [("inductive", s_inductive, 12000, 2), ("graph", s_graph, 8000, 2), ("masks", s_masks, 4000)]
