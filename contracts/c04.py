"""SamplingResult.validate accepts exactly the valid splits, for index arrays and masks of any length.

Soundness: when validate returns, an arbitrary index (skolem constant) satisfies every clause.
Completeness: on every split that satisfies all clauses, validate does not raise."""
from contracts.lib import *

RES = "modssc.sampling.result"
W = World()
KEYS = ("train", "val", "test", "train_labeled", "train_unlabeled")


def mk(c, indices=None, refs=None, masks=None):
    R_ = W.fn(RES, "SamplingResult")
    return R_(schema_version=1, created_at="t", dataset_fingerprint="d", split_fingerprint="s", plan={},
              indices=indices or {}, refs=refs or {}, masks=masks or {}, stats={})


def err(c):
    return W.fn("modssc.sampling.errors", "SamplingValidationError")


def setting(c, valid):
    n, nt = I("n_train"), I("n_test")
    c.assume(And(n.t >= 0, nt.t >= 0))
    off = c.choose(2, "test base")
    refs = {"train": "train", "val": "train", "test": "test" if off else "train", "train_labeled": "train", "train_unlabeled": "train"}
    lim = {k: (nt.t if refs[k] == "test" else n.t) for k in KEYS}
    ix = {}
    for k in KEYS:
        if valid:
            ix[k] = A.fresh_index_array(k, lo=0, hi=lim[k], distinct=True)
        else:
            ix[k] = A.fresh_index_array(k)
        ix[k].cnt(z3.IntVal(0))
    return n, nt, off, refs, lim, ix


def t_sound(c):
    n, nt, off, refs, lim, ix = setting(c, False)
    x = skolem()
    r = mk(c, ix, refs)
    try:
        r.validate(n_train=n, n_test=nt, n_nodes=None)
    except err(c):
        return
    c.cover("accepted")
    ct = {k: a.cnt(x) for k, a in ix.items()}
    for k in KEYS:
        c.oblige(f"{k}: in range and no duplicate", And(ct[k] <= 1, Implies(ct[k] >= 1, And(x >= 0, x < lim[k]))))
    c.oblige("train and val share no sample", ct["train"] + ct["val"] <= 1)
    if not off:
        c.oblige("train, val and test share no sample", ct["train"] + ct["val"] + ct["test"] <= 1)
    c.oblige("labelled and unlabelled split train", ct["train_labeled"] + ct["train_unlabeled"] == ct["train"])


def t_complete(c):
    n, nt, off, refs, lim, ix = setting(c, True)
    f = {k: a.cntf for k, a in ix.items()}
    A.forall(lambda x: f["train"](x) + f["val"](x) <= 1)
    if not off:
        A.forall(lambda x: f["train"](x) + f["val"](x) + f["test"](x) <= 1)
    A.forall(lambda x: f["train_labeled"](x) + f["train_unlabeled"](x) == f["train"](x))
    c.assume(ix["train_labeled"].sz + ix["train_unlabeled"].sz == ix["train"].sz)
    r = mk(c, ix, refs)
    try:
        r.validate(n_train=n, n_test=nt, n_nodes=None)
    except err(c) as e:
        c.oblige(f"a valid split is accepted ({e})", z3.BoolVal(False))
        return
    c.cover("accepted")
    c.oblige("a valid split is accepted", True)


def t_kinds(c):
    """non-integer or missing arrays, wrong bases"""
    n = I("n_train")
    c.assume(n.t >= 1)
    which = KEYS[c.choose(5, "array")]
    fault = c.choose(3, "fault")
    refs = {"test": "train"}
    ix = {k: A.fresh_index_array(k, lo=0, hi=n.t, distinct=True) for k in KEYS}
    if fault == 0:
        ix[which] = A.fresh_array("f_" + which, (c.int("m"),), "f")
        c.assume(ix[which].sz >= 0)
    elif fault == 1:
        ix.pop(which)
    else:
        if which not in ("train", "val"):
            return
        refs[which] = "test"
    r = mk(c, ix, refs)
    try:
        r.validate(n_train=n, n_test=n, n_nodes=None)
    except err(c):
        c.cover("refused")
        c.oblige("refused", True)
        return
    c.oblige(("non-integer indices are refused", "a missing set is refused", "train and val must refer to the training data")[fault], False)


MK = ("train", "val", "test", "labeled", "unlabeled")


def t_graph_sound(c):
    n = I("n_nodes")
    c.assume(n.t >= 0)
    m = {}
    bad_kind = c.choose(6, "integer mask")
    bad_len = c.choose(6, "mask of another length")
    for q, k in enumerate(MK):
        ln = n.t
        if bad_len == q:
            ln = c.int("len")
            c.assume(And(ln >= 0))
        m[k] = A.fresh_array("m_" + k, (ln,), "i" if bad_kind == q else "b")
    x = c.int("x")
    A.add_probe(x)
    c.assume(And(x >= 0, x < n.t))
    r = mk(c, masks=m)
    try:
        r.validate(n_train=0, n_test=None, n_nodes=n)
    except err(c):
        return
    c.cover("accepted")
    c.oblige("masks are boolean", bad_kind == 5)
    c.oblige("masks have the right length", And(*[A.dz(m[k]._shape[0]) == n.t for k in MK]))
    if bad_kind != 5:
        return
    t, v, s, l, u = (m[k].elem(x) for k in MK)
    c.oblige("train, val and test are disjoint", And(Not(And(t, v)), Not(And(t, s)), Not(And(v, s))))
    c.oblige("labelled inside train", Implies(l, t))
    c.oblige("unlabelled is the rest of train", u == And(t, Not(l)))


def t_graph_complete(c):
    n = I("n_nodes")
    c.assume(n.t >= 0)
    m = {k: A.fresh_array("m_" + k, (n.t,), "b") for k in MK}
    fs = [m[k].at for k in MK]

    def fact(x):
        t, v, s, l, u = (f(x) for f in fs)
        return Implies(And(x >= 0, x < n.t), And(Not(And(t, v)), Not(And(t, s)), Not(And(v, s)), Implies(l, t), u == And(t, Not(l))))

    A.forall(fact)
    r = mk(c, masks=m)
    try:
        r.validate(n_train=0, n_test=None, n_nodes=n)
    except err(c) as e:
        c.oblige(f"valid masks are accepted ({str(e)[:40]})", z3.BoolVal(False))
        return
    c.cover("accepted")
    c.oblige("valid masks are accepted", True)


def t_graph_keys(c):
    n = I("n_nodes")
    c.assume(n.t >= 1)
    m = {k: A.fresh_array("m_" + k, (n.t,), "b") for k in MK}
    w = c.choose(7, "fault")
    if w < 5:
        m.pop(MK[w])
    elif w == 5:
        m["other"] = m["train"]
    try:
        mk(c, masks=m).validate(n_train=0, n_test=None, n_nodes=None if w == 6 else n)
    except err(c):
        c.cover("refused")
        c.oblige("refused", True)
        return
    c.oblige("missing or extra masks, or an unknown number of nodes, are refused", False)


def t_masks(c):
    f = W.fn("modssc.graph.masks", "masks_from_indices")
    E = W.fn("modssc.graph.errors", "GraphValidationError")
    n = I("n")
    names = ("train", "val", "test", "labeled")
    ix = {k: A.fresh_index_array(k) for k in names}
    with_lab = c.choose(2, "labelled given")
    x = c.int("x")
    A.add_probe(x)
    try:
        r = f(n=n, train_idx=ix["train"], val_idx=ix["val"], test_idx=ix["test"], labeled_idx=ix["labeled"] if with_lab else None)
    except E:
        return
    c.cover("returns")
    used = names if with_lab else names[:3]
    for k in used:
        c.oblige(f"{k}: only nodes of the graph are accepted", Implies(ix[k].cnt(x) >= 1, And(x >= 0, x < n.t)))
    c.assume(And(x >= 0, x < n.t))
    for k in ("train", "val", "test"):
        c.oblige(f"{k} mask is true exactly at the listed nodes", getattr(r, k).elem(x) == (ix[k].cnt(x) >= 1))
    if with_lab:
        c.oblige("unlabelled mask is train without the labelled nodes",
                 r.unlabeled.elem(x) == And(ix["train"].cnt(x) >= 1, ix["labeled"].cnt(x) == 0))


def t_masks_complete(c):
    f = W.fn("modssc.graph.masks", "masks_from_indices")
    E = W.fn("modssc.graph.errors", "GraphValidationError")
    n = I("n")
    c.assume(n.t >= 1)
    ix = {k: A.fresh_index_array(k, lo=0, hi=n.t) for k in ("train", "val", "test", "labeled")}
    try:
        f(n=n, train_idx=ix["train"], val_idx=ix["val"], test_idx=ix["test"], labeled_idx=ix["labeled"])
    except E:
        c.oblige("valid node lists are accepted", z3.BoolVal(False))
        return
    c.cover("returns")
    c.oblige("valid node lists are accepted", True)


V = ["result.SamplingResult.validate", "result.SamplingResult._validate_inductive"]
VG = ["result.SamplingResult.validate", "result.SamplingResult._validate_graph"]
TASKS = [
    Task("SamplingResult._validate_inductive [only valid]", t_sound, V),
    Task("SamplingResult._validate_inductive [every valid]", t_complete, V),
    Task("SamplingResult._validate_inductive [kinds, missing, bases]", t_kinds, V),
    Task("SamplingResult._validate_graph [only valid]", t_graph_sound, VG),
    Task("SamplingResult._validate_graph [every valid]", t_graph_complete, VG),
    Task("SamplingResult._validate_graph [keys]", t_graph_keys, VG),
    Task("graph.masks.masks_from_indices", t_masks, ["graph.masks.masks_from_indices"]),
    Task("graph.masks.masks_from_indices [every valid]", t_masks_complete, ["graph.masks.masks_from_indices"]),
]
