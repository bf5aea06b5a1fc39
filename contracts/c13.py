"""Classical transductive scores are distributions that respect known labels."""
from contracts.lib import *
from contracts.c21 import Tok, graph, th_shim, weight
from pyvc.values import ndiv, nmul

P = "modssc.transductive"
CL, MU, CC = f"{P}.operators.clamp", f"{P}.methods.utils", f"{P}.methods.classic"
LP, LS = f"{CC}.label_propagation", f"{CC}.label_spreading"
TRUSTED = ["Laplace, p-Laplace, dynamic propagation, TSVM, min-cut, lazy random walk and Poisson MBO take the bounded route",
           "that the score row of a node is zero only when no label reaches it takes the bounded route",
           "real arithmetic stands in for floating point (finiteness of float results takes the bounded route)"]
W = World(shims={"torch": th_shim}, stubs={f"{MU}:_to_numpy": lambda x: x, "modssc.utils.numpy:to_numpy": lambda x: x})
z0 = z3.IntVal(0)


def valid_id(y, k, i):
    return And(y.at(i) >= 0, y.at(i) < k)


def t_onehot(mod, kind):
    def run(c):
        c.ghost["selection order"] = True
        n, k = c.int("n"), c.int("n_classes")
        c.assume(n >= 0)
        y = A.fresh_array("y", (n,), kind)
        y.frozen = "the labels"
        if mod == MU:  # class ids
            A.forall(lambda x: Implies(And(x >= 0, x < n), y.at(x) >= 0))
        f = W.fn(mod, "labels_to_onehot")
        try:
            o = f(y, n_classes=SymInt(k))
        except (ValueError, IndexError):
            c.cover("refused")
            ok = c.bool("acceptable")
            c.assume(Implies(ok, k >= 1))
            lo = -1 if mod == CL else 0
            up = lambda x: And(y.at(x) >= lo, y.at(x) < k, *([z3.IsInt(y.at(x))] if kind == "f" else []))  # noqa: E731
            A.forall(lambda x: Implies(And(ok, x >= 0, x < n), up(x)))
            A.probe_witnesses(z0)
            c.oblige("integer ids below the number of classes are not refused", Not(ok))
            return
        c.cover("returns")
        c.oblige("one row per label, one column per class", And(o.ndim == 2, A.dz(o._shape[0]) == n, A.dz(o._shape[1]) == k))
        i, j = skolem("i"), skolem("j")
        c.assume(And(i >= 0, i < n, j >= 0, j < k))
        got = o.at(i, j)
        jj = z3.ToReal(j) if kind == "f" else j
        c.oblige("a row has a one in its class and zeros elsewhere", got == If(y.at(i) == jj, z3.RealVal(1), z3.RealVal(0)))
    return run


def t_clamp(c):
    n, k = c.int("n"), c.int("classes")
    F, Y, m = A.fresh_array("F", (n, k), "f"), A.fresh_array("Y", (n, k), "f"), A.fresh_array("mask", (n,), "b")
    F.frozen, Y.frozen, m.frozen = "the scores", "the labels", "the mask"
    o = W.fn(CL, "hard_clamp")(F, Y, m)
    c.cover("returns")
    i, j = skolem("i"), skolem("j")
    c.assume(And(i >= 0, i < n, j >= 0, j < k))
    got = o.at(i, j)
    c.oblige("the shape stays", And(o.ndim == 2, A.dz(o._shape[0]) == n, A.dz(o._shape[1]) == k))
    c.oblige("exactly the marked rows take their label, all others stay", got == If(m.at(i), Y.at(i, j), F.at(i, j)))


def t_rownorm(c):
    n, k, eps = c.int("n"), c.int("classes"), R("eps")
    c.assume(eps.t > 0)
    F = A.fresh_array("F", (n, k), "f")
    F.frozen = "the scores"
    o = W.fn(CL, "row_normalize")(F, eps)
    c.cover("returns")
    i, j = skolem("i"), skolem("j")
    c.assume(And(i >= 0, i < n, j >= 0, j < k))
    s = A.rowsum_fn(F)(i)
    got = o.at(i, j)
    c.oblige("each entry is divided by its row's sum", got == ndiv(F.at(i, j), If(s >= eps.t, s, eps.t)))
    c.oblige("a row of positive sum becomes a distribution", Implies(s >= eps.t, A.rowsum_fn(o)(i) == 1))


def onehot(y, n, k):
    """the contract of labels_to_onehot"""
    o = A.SArr((n, k), "f", lambda i, j: If(y.at(i) == j, z3.RealVal(1), z3.RealVal(0)))
    o.org = ("onehot", lambda i: And(y.at(i) >= 0, y.at(i) < k), z3.RealVal(1))
    return o


def t_diffusion(mod, fn, th, spreading):
    def run(c):
        c.ghost["selection order"] = True
        c.ghost["cheap loops"] = c.ghost["linear"] = True
        c.ghost["elem preds"] = [("f", 2, lambda ix, t: t >= 0)]
        n, E, ei, w = graph(c, th)
        if w is not None:
            A.forall(lambda e: Implies(And(e >= 0, e < E), w.at(e) > 0))
        y = A.fresh_array("y", (n,), "i")
        mask = A.fresh_array("train", (n,), "b")
        y.frozen, mask.frozen = "the labels", "the training mask"
        nclass = []
        Ys = []

        def l2o(yy, n_classes):
            k = tn(n_classes)
            c.oblige("there is at least one class", k >= 1)
            c.oblige("the labels are encoded", yy.uid == y.uid)
            bad = c.int("bad")
            A.add_probe(bad)
            if c.branch(c.bool("id_out_of_range")):
                c.assume(And(bad >= 0, bad < n, y.at(bad) >= k))
                raise ValueError("y contains class ids outside [0, n_classes)")
            A.forall(lambda x: Implies(And(x >= 0, x < n), y.at(x) < k))
            nclass.append(k)
            Ys.append(onehot(yy, n, k))
            return Ys[-1]

        nw = A.fresh_array("normalised", (E,), "f")
        A.forall(lambda e: Implies(And(e >= 0, e < E), nw.at(e) >= 0))
        M = W.module(mod)
        M.__dict__["labels_to_onehot"] = l2o
        M.__dict__["_validate_graph_inputs"] = lambda n_nodes, edge_index, edge_weight: (edge_index, weight(edge_weight, E))
        for q in ("numpy", "torch"):
            M.__dict__[f"normalize_edge_weight_{q}"] = lambda n_nodes, edge_index, edge_weight, mode: nw

        def spmm(n_nodes, edge_index, edge_weight, X):
            src = A.SArr((E,), "i", lambda e: ei.at(z0, e))
            g = A.edgesum(A.SArr((E,), "i", lambda e: ei.at(z3.IntVal(1), e)),
                          A.SArr((E, X._shape[1]), "f", lambda e, j: nmul(edge_weight.at(e), X.at(src.at(e), j))))
            return A.SArr((n, X._shape[1]), "f", lambda i, j: g(i, j))

        M.__dict__["spmm_numpy"] = M.__dict__["spmm_torch"] = spmm

        def templates(loop, env):
            out = []
            for q, v, _ in loop.slots:
                if isinstance(v, A.SArr) and v.ndim == 2 and v.kind == "f" and nclass:
                    out.append((f"dist:{q}", 1, lambda e, t, i, q=q: Implies(And(i >= 0, i < n), Or(A.rowsum_fn(e[q])(i) == 0, A.rowsum_fn(e[q])(i) == 1))))
                    out.append((f"clamped:{q}", 1, lambda e, t, i, q=q: Implies(And(i >= 0, i < n, mask.at(i)), e[q].at(i, jj) == onehot(y, n, nclass[-1]).at(i, jj))))
            return out

        jj = skolem("j")
        c.ghost["loop templates"] = [templates]
        c.ghost.setdefault("colprobes", []).append(jj)
        spec = ns(norm="sym" if spreading else "rw", max_iter=I("max_iter"), tol=R("tol"), normalize_rows=True, alpha=R("alpha"))
        try:
            r = getattr(M, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=spec)
        except ValueError:
            c.cover("refused")
            return
        c.cover("returns")
        F = r[0] if isinstance(r, tuple) else r.F
        k = nclass[-1]
        i = skolem("i")
        c.assume(And(i >= 0, i < n, jj >= 0, jj < k))
        c.oblige("one row per node, one column per class", And(F.ndim == 2, A.dz(F._shape[0]) == n, A.dz(F._shape[1]) == k))
        got = F.at(i, jj)
        s = A.rowsum_fn(F)(i)
        c.oblige("no score is negative", got >= 0)
        c.oblige("a score row sums to one or is all zero", Or(s == 1, And(s == 0, got == 0)))
        if not spreading:
            c.oblige("a training node keeps its own label with score one", Implies(And(mask.at(i), y.at(i) >= 0), got == If(y.at(i) == jj, z3.RealVal(1), z3.RealVal(0))))
    return run


TASKS = [
    Task("operators.labels_to_onehot [integers]", t_onehot(CL, "i"), [f"{CL}:labels_to_onehot"]),
    Task("operators.labels_to_onehot [floats]", t_onehot(CL, "f"), [f"{CL}:labels_to_onehot"]),
    Task("methods.labels_to_onehot", t_onehot(MU, "i"), [f"{MU}:labels_to_onehot"]),
    Task("operators.hard_clamp", t_clamp, [f"{CL}:hard_clamp"]),
    Task("operators.row_normalize", t_rownorm, [f"{CL}:row_normalize"]),
    Task("label propagation numpy", t_diffusion(LP, "label_propagation_numpy", False, False), [f"{LP}:label_propagation_numpy"],
         ["labels_to_onehot (proved)", "spmm_numpy (proved, C21)", "normalize_edge_weight_numpy: non-negative (C21)", "_validate_graph_inputs"], wall=500),
    Task("label propagation torch", t_diffusion(LP, "label_propagation_torch", True, False), [f"{LP}:label_propagation_torch"],
         ["labels_to_onehot (proved)", "spmm_torch (proved, C21)", "normalize_edge_weight_torch: non-negative (C21)"], wall=500),
    Task("label spreading numpy", t_diffusion(LS, "label_spreading_numpy", False, True), [f"{LS}:label_spreading_numpy"],
         ["labels_to_onehot (proved)", "spmm_numpy (proved, C21)", "normalize_edge_weight_numpy: non-negative (C21)", "_validate_graph_inputs"], wall=500),
    Task("label spreading torch", t_diffusion(LS, "label_spreading_torch", True, True), [f"{LS}:label_spreading_torch"],
         ["labels_to_onehot (proved)", "spmm_torch (proved, C21)", "normalize_edge_weight_torch: non-negative (C21)"], wall=500),
]
