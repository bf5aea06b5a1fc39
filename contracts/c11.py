"""Graph post-processing: self loops, masks, normalisation, artifact validation."""
from contracts.lib import *
from pyvc.values import ndiv, ssqrt

OPS = "modssc.graph.construction.ops"
AR, VA, MK = "modssc.graph.artifacts", "modssc.graph.validation", "modssc.graph.masks"
TRUSTED = []
W = World(inert=("modssc.graph.optional",))


def err():
    return W.fn("modssc.graph.errors", "GraphValidationError")


def graph(c, weighted=None, name=""):
    """n nodes and an arbitrary edge list over them, duplicates and loops included"""
    c.ghost["selection order"] = True
    n, E = c.int("n" + name), c.int("edges" + name)
    c.assume(And(n >= 0, E >= 0))
    f = c.func("endpoint" + name, z3.IntSort(), z3.IntSort(), z3.IntSort())
    ei = A.SArr((2, E), "i", lambda r, e: f(r, e))
    A.forall(lambda e: Implies(And(e >= 0, e < E), And(f(0, e) >= 0, f(0, e) < n, f(1, e) >= 0, f(1, e) < n)))
    ei.frozen = True
    w = None
    if (c.choose(2, "weighted" + name) if weighted is None else weighted):
        w = A.fresh_array("w" + name, (E,), "f")
        w.frozen = True
    return n, E, ei, w


def t_loops(c):
    f = W.fn(f"{OPS}.self_loops", "add_self_loops")
    n, E, ei, w = graph(c)
    wt = R("loopweight")
    oe, ow = f(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, weight=wt)
    c.cover("returns")
    M = A.dz(oe._shape[1])
    c.oblige("edges stay a two-row array", And(A.dz(oe._shape[0]) == 2, M >= E))
    c.oblige("weights neither appear nor disappear", (ow is None) == (w is None))
    if w is not None:
        c.oblige("edges and weights stay aligned", A.dz(ow._shape[0]) == M)
    e, p, q, x = skolem("e"), skolem("p"), skolem("q"), skolem("x")
    z0, z1 = z3.IntVal(0), z3.IntVal(1)
    c.assume(And(e >= 0, e < E, p >= E, p < M, q >= E, q < M, x >= 0, x < n))
    c.oblige("existing edges are left alone", And(oe.at(z0, e) == ei.at(z0, e), oe.at(z1, e) == ei.at(z1, e)))
    v = oe.at(z0, p)
    A.add_probe(v)
    if w is not None:
        c.oblige("existing weights are left alone", ow.at(e) == w.at(e))
        c.oblige("a new loop carries the requested weight", ow.at(p) == wt.t)
    c.oblige("an added edge is a loop of a node", And(v == oe.at(z1, p), v >= 0, v < n))
    c.oblige("no node with a loop gets another", Not(And(ei.at(z0, e) == v, ei.at(z1, e) == v)))
    c.oblige("no node gets two loops", Implies(p != q, v != oe.at(z0, q)))
    # x has no loop, and none was added to it
    b = c.bool("forgotten")
    A.forall(lambda k: Implies(And(b, k >= 0, k < E), Not(And(ei.at(z0, k) == x, ei.at(z1, k) == x))))
    A.forall(lambda k: Implies(And(b, k >= E, k < M), oe.at(z0, k) != x))
    A.probe_witnesses(x, v)
    for g in list(c.ghost.get("witnesses", ())):
        A.add_probe(E + g(x))
    c.oblige("every node without a loop gets one", Not(b))


def t_normalize(c):
    f = W.fn(f"{OPS}.normalize", "normalize_edge_weights")
    n, E, ei, w = graph(c)
    mode = ("none", "rw", "sym", "other")[c.choose(4, "mode")]
    eps = R("eps")
    c.assume(eps.t > 0)
    try:
        o = f(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, mode=mode, eps=eps)
    except ValueError:
        c.cover("refused")
        c.oblige("only an unknown mode is refused", mode == "other")
        return
    c.cover("returns")
    if w is None or mode == "none":
        c.oblige("nothing to normalise", (o is None) == (w is None))
        if w is not None:
            e = skolem("e")
            c.assume(And(e >= 0, e < E))
            c.oblige("mode none keeps every weight", And(A.dz(o._shape[0]) == E, o.at(e) == w.at(e)))
        return
    c.oblige("an unknown mode is refused", mode != "other")
    c.oblige("one weight per edge", A.dz(o._shape[0]) == E)
    e = skolem("e")
    c.assume(And(e >= 0, e < E))
    src = A.SArr((E,), "i", lambda k: ei.at(z3.IntVal(0), k))
    deg = A.edgesum(src, w)
    u, v = ei.at(z3.IntVal(0), e), ei.at(z3.IntVal(1), e)
    A.add_probe(u), A.add_probe(v)

    def clipped(x):
        d = deg(x)
        return If(d > eps.t, d, eps.t)

    got = o.at(e)
    if mode == "rw":
        c.oblige("each weight is divided by its source's degree", got == ndiv(w.at(e), clipped(u)))
    else:
        su, sv = unwrap(ssqrt(wrap(clipped(u)))), unwrap(ssqrt(wrap(clipped(v))))
        c.oblige("each weight is divided by the square roots of both endpoints' degrees", got == ndiv(ndiv(w.at(e), su), sv))


def in_range_part(c, name, n):
    a = A.fresh_index_array(name)
    a.frozen = True
    return a


def t_masks(c):
    f = W.fn(MK, "masks_from_indices")
    n = c.int("n")
    tr, va, te = (in_range_part(c, q, n) for q in ("train", "val", "test"))
    la = in_range_part(c, "labeled", n) if c.choose(2, "labeled") else None
    try:
        m = f(n=SymInt(n), train_idx=tr, val_idx=va, test_idx=te, labeled_idx=la)
    except err():
        c.cover("refused")
        ok = c.bool("acceptable")
        for a in (tr, va, te) + ((la,) if la is not None else ()):
            A.forall(lambda x, a=a: Implies(And(ok, x >= 0, x < a.sz), And(a.at(x) >= 0, a.at(x) < n)))
            A.forall(lambda x, a=a: Implies(And(ok, a.cntf(x) >= 1), And(x >= 0, x < n)))
        c.assume(Implies(ok, n >= 1))
        c.oblige("acceptable indices are not refused", Not(ok))
        return
    c.cover("returns")
    x, p = skolem("x"), skolem("p")
    for nm, a, mk in (("train", tr, m.train), ("val", va, m.val), ("test", te, m.test)):
        c.oblige(f"the {nm} mask has one entry per node", A.dz(mk._shape[0]) == n)
        c.oblige(f"a {nm} index is in range", Implies(And(p >= 0, p < a.sz), And(a.elem(p) >= 0, a.elem(p) < n)))
        c.oblige(f"the {nm} mask marks exactly the listed nodes", Implies(And(x >= 0, x < n), mk.at(x) == (a.cnt(x) >= 1)))
    c.oblige("the unlabelled mask has one entry per node", A.dz(m.unlabeled._shape[0]) == n)
    t = tr.cnt(x) >= 1
    want = Not(t) if la is None else And(t, Not(la.cnt(x) >= 1))
    c.oblige("the unlabelled mask marks the training nodes without a known label (all others when none are listed)",
             Implies(And(x >= 0, x < n), m.unlabeled.at(x) == want))


def any_array(c, name, rank, kind):
    shp = []
    for q in range(rank):
        d = c.int(f"{name}dim{q}")
        c.assume(d >= 0)
        shp.append(d)
    a = A.fresh_array(name, tuple(shp), kind)
    return a


def refusal(c, call, good, inst=()):
    """call() is refused exactly when not good (a term, or a function assuming that b implies the requirement)"""
    try:
        r = call()
    except err():
        c.cover("refused")
        b = c.bool("acceptable")
        good(b)
        c.oblige("what is acceptable is not refused", Not(b))
        return None
    c.cover("accepted")
    return r


def nodes_ok(ei, n, b):
    """b implies that every endpoint is a node"""
    A.forall(lambda e: Implies(And(b, e >= 0, e < A.dz(ei._shape[1])), And(ei.at(z3.IntVal(0), e) >= 0, ei.at(z3.IntVal(0), e) < n, ei.at(z3.IntVal(1), e) >= 0, ei.at(z3.IntVal(1), e) < n)))


def t_artifact(c):
    G = W.fn(AR, "GraphArtifact")
    n = c.int("n")
    rank = 1 + c.choose(3, "edge rank")
    ei = any_array(c, "ei", rank, "i")
    w = any_array(c, "w", 1 + c.choose(2, "weight rank"), "f") if c.choose(2, "weighted") else None

    def good(b):
        if rank != 2 or (w is not None and w.ndim != 1):
            c.assume(Not(b))
            return
        c.assume(Implies(b, A.dz(ei._shape[0]) == 2))
        if w is not None:
            c.assume(Implies(b, A.dz(w._shape[0]) == A.dz(ei._shape[1])))
        nodes_ok(ei, n, b)

    g = refusal(c, lambda: G(n_nodes=SymInt(n), edge_index=ei, edge_weight=w), good)
    if g is None:
        return
    c.oblige("two rows of endpoints", rank == 2 and A.dz(ei._shape[0]) == 2)
    e = skolem("e")
    c.assume(And(e >= 0, e < A.dz(ei._shape[1])))
    for r in (0, 1):
        t = ei.at(z3.IntVal(r), e)
        c.oblige("every endpoint is a node", And(t >= 0, t < n))
        c.oblige("the edges are stored as given", g.edge_index.at(z3.IntVal(r), e) == t)
    c.oblige("edge count kept", And(A.dz(g.edge_index._shape[1]) == A.dz(ei._shape[1])))
    if w is None:
        c.oblige("no weights appear", g.edge_weight is None)
    else:
        c.oblige("one weight per edge", w.ndim == 1 and A.dz(w._shape[0]) == A.dz(ei._shape[1]))
        c.oblige("the weights are stored as given", g.edge_weight.at(e) == w.at(e))


def t_edge_index(c):
    f = W.fn(VA, "validate_edge_index")
    n = c.int("n")
    rank = 1 + c.choose(3, "edge rank")
    kind = ("i", "f")[c.choose(2, "type")]
    ei = any_array(c, "ei", rank, kind)

    def good(b):
        if rank != 2:
            c.assume(Not(b))
            return
        c.assume(Implies(b, A.dz(ei._shape[0]) == 2))
        if kind != "i":
            c.assume(Implies(b, A.dz(ei._shape[1]) == 0))
        else:
            nodes_ok(ei, n, b)

    if refusal(c, lambda: (f(ei, n_nodes=SymInt(n)), True), good) is None:
        return
    c.oblige("two rows of endpoints", rank == 2 and A.dz(ei._shape[0]) == 2)
    e = skolem("e")
    c.assume(And(e >= 0, e < A.dz(ei._shape[1])))
    c.oblige("only integers name nodes", kind == "i")
    for r in (0, 1):
        t = ei.at(z3.IntVal(r), e)
        c.oblige("every endpoint is a node", And(t >= 0, t < n))


def t_nodes(c):
    D = W.fn(AR, "NodeDataset")
    n = c.int("n")
    c.assume(n >= 0)
    X = any_array(c, "X", 2, "f")
    yr = 1 + c.choose(3, "label rank")
    y = any_array(c, "y", yr, "i")
    masks = {}
    for q in range(c.choose(3, "masks")):
        masks[("train", "val")[q]] = any_array(c, f"m{q}", 1 + c.choose(2, f"mask rank {q}"), "b")

    def good(b):
        if yr > 2 or any(m.ndim != 1 for m in masks.values()):
            c.assume(Not(b))
            return
        c.assume(Implies(b, And(A.dz(X._shape[0]) == n, A.dz(y._shape[0]) == n, *[A.dz(m._shape[0]) == n for m in masks.values()])))

    d = refusal(c, lambda: D(X=X, y=y, graph=ns(n_nodes=SymInt(n)), masks=masks), good)
    if d is None:
        return
    c.oblige("one feature row and one label per node", yr <= 2 and And(A.dz(X._shape[0]) == n, A.dz(y._shape[0]) == n))
    c.oblige("every mask is kept", set(d.masks) == set(masks))
    x = skolem("x")
    for k, m in masks.items():
        c.oblige("a mask has one entry per node", m.ndim == 1 and A.dz(m._shape[0]) == n)
        c.oblige("a mask is stored as given", Implies(And(x >= 0, x < n), d.masks[k].at(x) == m.at(x)))


def t_views(c):
    D = W.fn(AR, "DatasetViews")
    q = c.choose(3, "views")
    V = {f"v{k}": any_array(c, f"V{k}", (2, 1, 3)[c.choose(3, f"view rank {k}")], "f") for k in range(q)}
    y = any_array(c, "y", 1, "i")
    masks = {"train": any_array(c, "m", 1 + c.choose(2, "mask rank"), "b")} if c.choose(2, "masks") else {}
    n = A.dz(y._shape[0])

    def good(b):
        if not q or any(v.ndim != 2 for v in V.values()) or any(m.ndim != 1 for m in masks.values()):
            c.assume(Not(b))
            return
        c.assume(Implies(b, And(*[A.dz(v._shape[0]) == n for v in (*V.values(), *masks.values())])))

    d = refusal(c, lambda: D(views=V, y=y, masks=masks), good)
    if d is None:
        return
    c.oblige("there is a view", q >= 1)
    for v in V.values():
        c.oblige("every view is a matrix with one row per sample", v.ndim == 2 and A.dz(v._shape[0]) == n)
    for m in masks.values():
        c.oblige("a mask has one entry per sample", m.ndim == 1 and A.dz(m._shape[0]) == n)
    c.oblige("every view and mask is kept", all(d.views[k] is V[k] for k in V) and set(d.masks) == set(masks))


TASKS = [
    Task("self_loops.add_self_loops", t_loops, [f"{OPS}.self_loops.add_self_loops"]),
    Task("normalize.normalize_edge_weights", t_normalize, [f"{OPS}.normalize.normalize_edge_weights"]),
    Task("masks.masks_from_indices", t_masks, [f"{MK}.masks_from_indices"], central=False),
    Task("artifacts.GraphArtifact", t_artifact, [f"{AR}.GraphArtifact.__post_init__"]),
    Task("validation.validate_edge_index", t_edge_index, [f"{VA}.validate_edge_index"]),
    Task("artifacts.NodeDataset", t_nodes, [f"{AR}.NodeDataset.__post_init__"], central=False),
    Task("artifacts.DatasetViews", t_views, [f"{AR}.DatasetViews.__post_init__"], central=False),
]
