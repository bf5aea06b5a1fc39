"""Labels outside the training mask never influence a transductive method (two runs in lock-step)."""
import dataclasses
import types

from contracts.lib import *
from pyvc import flow
from pyvc.flow import Fl, FlowWorld, Lib, low

MT = "modssc.transductive.methods"
TRUSTED = [
    "library functions are deterministic functions of their arguments, of the given generators and of the global torch generator (numpy, torch)",
    "the two datasets differ only in labels of nodes outside the training mask (and outside the validation mask, for methods that stop early); the set of classes that occur is the same",
    "whether a run is refused with an error is not part of what is compared (both labellings are valid datasets)",
    "two runs are related value by value: floating-point results of equal computations are equal",
]
GNN = {"appnp": "APPNP", "chebnet": "ChebNet", "gat": "GAT", "gcn": "GCN", "gcnii": "GCNII", "grafn": "GraFN", "grand": "GRAND", "graphhop": "GraphHop",
       "graphsage": "GraphSAGE", "h_gcn": "HGCN", "n_gcn": "NGCN", "planetoid": "Planetoid", "sgc": "SGC"}


def onehot(y, *, n_classes):
    """contract of labels_to_onehot: row i is a function of y[i]"""
    flow.may_raise()
    r = Fl(low((y, n_classes)), "labels_to_onehot", rows=y.rows if isinstance(y, Fl) and not y.low else None)
    return r


def cg(matvec, b, x0=None, tol=1e-6, max_iter=1000, **k):
    """contract of the solvers: for a released system the solution is a function of the system"""
    ctx().oblige("requires: the linear system does not depend on a secret", low((matvec, b, x0, tol, max_iter, k)))
    flow.may_raise()
    return {q: Fl(True, "cg " + q) for q in ("x", "n_iter", "residual_norm", "converged")}


def cg_numpy(*, matvec, b, x0=None, tol=1e-6, max_iter=1000):
    return types.SimpleNamespace(**cg(matvec, b, x0, tol, max_iter))


def cg_torch(*, matvec, b, device, x0=None, tol=1e-6, max_iter=1000):
    r = cg(matvec, b, x0, tol, max_iter, device=device)
    return r.pop("x"), r


def world(solver=True):
    torch = Lib("torch")
    W = FlowWorld(libs=("torch", "torch_geometric", "sklearn", "scipy"), stubs={
        "modssc.transductive.validation:validate_node_dataset": lambda data: None,
        "modssc.transductive.operators.clamp:labels_to_onehot": onehot,
        "modssc.transductive.methods.utils:labels_to_onehot": onehot,
        "modssc.runtime.device:resolve_device_name": lambda device, **k: device,
        "modssc.utils.numpy:to_numpy": lambda x: W.shims["numpy"].asarray(x),
        "modssc.transductive.optional:optional_import": lambda name, **k: W.shims["torch"] if name == "torch" else Lib(name),
    })
    W.shims["torch"] = torch
    if solver:
        W.stubs.update({"modssc.transductive.solvers.cg:cg_solve_numpy": cg_numpy, "modssc.transductive.solvers.cg:cg_solve_torch": cg_torch})
    return W


def solver(name):
    get = flow.shared(lambda: world(False))

    def run(c):
        W = get()
        A = Fl(True, "system")
        args = dict(matvec=lambda v: A @ v, b=Fl(True, "b"), x0=Fl(True, "x0", none=True), tol=Fl(True, "tol"), max_iter=Fl(True, "max_iter"))
        if name.endswith("torch"):
            args["device"] = Fl(True, "device")
        try:
            r = flow.run(W.fn("modssc.transductive.solvers.cg", name), **args)
        except Exception:
            c.cover("refused")
            return
        c.cover("solved")
        c.oblige("the solution is a function of the system", low(r))
        if name.endswith("torch"):
            c.oblige("the solver reports its iterations and residual", isinstance(r, tuple) and len(r) == 2)
        else:
            c.oblige("the solver reports its iterations and residual", set(vars(r)) == {"x", "n_iter", "residual_norm", "converged"})
    return run


def dataset(c, names):
    X, ei, ew = Fl(True, "X"), Fl(True, "edge_index"), Fl(True, "edge_weight", none=True)
    y = Fl(False, "labels", rows=frozenset(names))
    y.__dict__["classes"] = "labels"
    # ensured by validate_node_dataset
    X.__dict__.update(ndim=2)
    y.__dict__.update(ndim=1)
    ei.__dict__.update(ndim=2, dims={0: 2})
    tr = Fl(True, "train_mask", sel=("train", "mask"))
    masks = {"train_mask": tr}
    if c.choose(2, "val_mask present"):
        masks["val_mask"] = Fl(True, "val_mask", sel=("val", "mask"))
    masks["test_mask"] = Fl(True, "test_mask")
    for v in (X, ei, ew, y, *masks.values()):
        v.__dict__["frozen"] = "the dataset (" + v.what + ")"
    g = types.SimpleNamespace(edge_index=ei, edge_weight=ew)
    return types.SimpleNamespace(X=X, y=y, graph=g, masks=masks, meta={})


def method(module, cls, forget=False):
    gnn = module.startswith("gnn.")
    get = flow.shared(world)

    def run(c):
        W = get()
        flow.state().update(limit=2, forget=forget, points=True)
        data = dataset(c, ("train", "val") if gnn else ("train",))
        was = {k: v for k, v in vars(data).items()}, dict(data.masks), dict(vars(data.graph))
        m = getattr(W.module(f"{MT}.{module}"), cls)()
        for k, v in list(vars(m.spec).items()):  # any configuration
            if isinstance(v, (bool, int, float, str)):
                q = Fl(True, "parameter " + k)
                q.__dict__["scalar"] = True
                object.__setattr__(m.spec, k, q)
        if hasattr(m.spec, "b_strategy"):  # "true" asks for the class proportions of all labels by its name
            object.__setattr__(m.spec, "b_strategy", ("uniform", "labeled")[c.choose(2, "b_strategy")])
        dev = "cpu" if gnn else (None, "cpu")[c.choose(2, "device given")]
        try:
            flow.run(m.fit, data, device=dev, seed=Fl(True, "seed"))
            c.cover("fitted")
            flow.merge(m, data)
            p = flow.run(m.predict_proba, data)
        except Exception as e:
            if DEBUG:
                import traceback
                print(traceback.format_exc()[-900:])
            c.cover("refused")
        else:
            c.cover("scores")
            c.oblige("the scores do not depend on labels outside the training mask", low(p))
        c.oblige("the dataset is not modified", all(v is was[0][k] for k, v in vars(data).items()) and data.masks == was[1] and vars(data.graph) == was[2])
    return run


DEBUG = False
METHODS = [("classic.label_propagation", "LabelPropagationMethod"), ("classic.label_spreading", "LabelSpreadingMethod"), ("classic.laplace_learning", "LaplaceLearningMethod"),
           ("classic.lazy_random_walk", "LazyRandomWalkMethod"), ("classic.dynamic_label_propagation", "DynamicLabelPropagationMethod"), ("classic.graph_mincuts", "GraphMincutsMethod"),
           ("classic.tsvm", "TSVMMethod"), ("pde.p_laplace_learning", "PLaplaceLearningMethod"), ("pde.poisson_learning", "PoissonLearningMethod"), ("pde.poisson_mbo", "PoissonMBOMethod")]
METHODS += [(f"gnn.{k}", f"{v}Method") for k, v in GNN.items()]
TASKS = [Task(f"solvers.{n}", solver(n), [f"modssc.transductive.solvers.cg.{n}"], ["numpy and torch functions (deterministic)"], must=("solved",)) for n in ("cg_solve_numpy", "cg_solve_torch")]
TASKS += [Task(f"{m}.{k}", method(m, k), [f"{m}.{k}.fit", f"{m}.{k}.predict_proba"], ["numpy and torch functions (deterministic)", "validate_node_dataset", "labels_to_onehot"],
              wall=420, max_paths=40000, must=("scores",)) for m, k in METHODS]
