"""Identity and reproducibility of sampling.

* from_dict(as_dict(p)) == p for every plan: as_dict is injective, so distinct plans have distinct dictionaries.
* the payload whose digest is the split identity contains exactly the dataset identity, plan dictionary, seed and
  schema version (the digest itself, canonical JSON + SHA-256, is assumed injective).
* the only sources of randomness are generators seeded by derive_seed(seed, label): any other use of numpy's
  random module is outside the verified subset and would leave the task undecided."""
from contracts import c01
from contracts.lib import *

TRUSTED = ["canonical JSON text followed by SHA-256 is injective on identity payloads"]
PL = "modssc.sampling.plan"
W = World()
SVC = c01.SVC


def eqv(a, b):
    """equality of two plan field values (symbolic or not) as a goal"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        ta, tb_ = unwrap(a), unwrap(b)
        if ta.sort() != tb_.sort():
            if z3.is_bool(ta) or z3.is_bool(tb_):
                return z3.BoolVal(False)
            ta, tb_ = (z3.ToReal(t) if z3.is_int(t) else t for t in (ta, tb_))
        return ta == tb_
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And(len(a) == len(b), *[eqv(p, q) for p, q in zip(a, b)])
    return z3.BoolVal(type(a) is type(b) and a == b)


def fields_equal(c, p, q, name):
    c.oblige(f"{name}: same kind of object", type(p) is type(q))
    for f in p.__dataclass_fields__:
        a, b = getattr(p, f), getattr(q, f)
        if hasattr(a, "__dataclass_fields__"):
            fields_equal(c, a, b, f"{name}.{f}")
        else:
            c.oblige(f"{name}.{f} survives the dictionary form", eqv(a, b))


def sym_plan(c, M):
    if c.choose(2, "split kind"):
        split = M.KFoldSplitSpec(k=I("k"), fold=I("fold"), stratify=B("st"), shuffle=B("sh"), val_fraction=R("vf"))
    else:
        split = M.HoldoutSplitSpec(test_fraction=R("tf"), val_fraction=R("vf"), stratify=B("st"), shuffle=B("sh"))
    mode = ("fraction", "count", "per_class")[c.choose(3, "mode")]
    nf = c.choose(4, "fixed indices")
    lab = M.LabelingSpec(mode=mode, value=R("v") if mode == "fraction" else I("v"), per_class=B("pc"), min_per_class=I("mpc"),
                         strategy=("proportional", "balanced")[c.choose(2, "strategy")],
                         fixed_indices=None if nf == 3 else [I("f") for _ in range(nf)])
    return M, split, lab


def sym_rest(c, M):
    imb = M.ImbalanceSpec(kind=("none", "subsample_max_per_class", "long_tail")[c.choose(3, "imb")],
                          apply_to=("train", "labeled")[c.choose(2, "apply")],
                          max_per_class=I("cap") if c.choose(2, "cap") else None, alpha=R("alpha") if c.choose(2, "alpha") else None,
                          min_per_class=I("impc"))
    pol = M.SamplingPolicy(respect_official_test=B("p1"), use_official_graph_masks=B("p2"), allow_override_official=B("p3"))
    return imb, pol


def t_roundtrip_a(c):
    M = W.module(PL)
    M, split, lab = sym_plan(c, M)
    p = M.SamplingPlan(split=split, labeling=lab)
    q = M.SamplingPlan.from_dict(p.as_dict())
    c.cover("returns")
    fields_equal(c, p, q, "plan")


def t_roundtrip_b(c):
    M = W.module(PL)
    imb, pol = sym_rest(c, M)
    p = M.SamplingPlan(imbalance=imb, policy=pol)
    q = M.SamplingPlan.from_dict(p.as_dict())
    c.cover("returns")
    fields_equal(c, p, q, "plan")


def t_unknown(c):
    M = W.module(PL)
    sec = (None, "split", "labeling", "imbalance", "policy")[c.choose(5, "section")]
    split = M.KFoldSplitSpec() if c.choose(2, "kind") else M.HoldoutSplitSpec()
    d = M.SamplingPlan(split=split).as_dict()
    (d if sec is None else d[sec])["not_a_field"] = I("v")
    try:
        M.SamplingPlan.from_dict(d)
    except ValueError:
        c.cover("refused")
        c.oblige("refused", True)
        return
    c.oblige("an unknown field is refused", False)


class Digest:
    """the digest of a payload: an opaque value that remembers the payload (injectivity)"""

    def __init__(self, payload):
        self.payload = payload


def derive(seed, label):
    return ("derived", unwrap(seed), label)


def rec_result(c, kind):
    def f(dataset, *, plan, seed_split, seed_label, seed_imb, dataset_fingerprint, split_fingerprint, created_at, plan_dict):
        c2 = ctx()
        c2.ghost["call"] = dict(kind=kind, plan=plan, seeds=(seed_split, seed_label, seed_imb), ds_fp=dataset_fingerprint,
                                split_fp=split_fingerprint, plan_dict=plan_dict)
        e = A.const_array([], kind="i")
        return ns(train_idx=e, val_idx=e, test_idx=e, labeled_idx=e, unlabeled_idx=e, stats={}, is_graph=lambda: False)
    return f


def t_identity(c):
    Wi = World(stubs={"modssc.sampling.fingerprint:stable_hash": Digest, "modssc.sampling.fingerprint:derive_seed": derive,
                      SVC + ":_sample_inductive": rec_result(c, "inductive"), SVC + ":_sample_graph": rec_result(c, "graph"),
                      SVC + ":_warn_on_sampling_stats": lambda r: None}, shims=pathshim())
    M = Wi.module(PL)
    plan = M.SamplingPlan(split=M.HoldoutSplitSpec(test_fraction=R("tf")))
    seed = I("seed")
    graph = c.choose(3, "graph")
    how = c.choose(3, "fingerprint source")
    meta = ({"dataset_fingerprint": "A", "fingerprint": "B"}, {"fingerprint": "B"}, {"dataset_fingerprint": "A"})[how]
    given = "G" if c.choose(2, "given") else None
    ds = ns(train=ns(y=1, edges=1 if graph == 1 else None, masks={} if graph == 2 else None), test=None, meta=meta)
    Wi.fn(SVC, "sample")(ds, plan=plan, seed=seed, dataset_fingerprint=given)
    k = c.ghost["call"]
    c.cover("returns")
    want_fp = given or meta.get("dataset_fingerprint") or meta["fingerprint"]
    p = k["split_fp"].payload
    c.oblige("the identity covers dataset, plan, seed and schema", set(p) == {"dataset_fingerprint", "plan", "seed", "schema_version"})
    c.oblige("the identity holds the dataset identity", p.get("dataset_fingerprint") == want_fp and k["ds_fp"] == want_fp)
    c.oblige("the identity holds the whole plan", p.get("plan") == plan.as_dict() and k["plan_dict"] == plan.as_dict())
    c.oblige("the identity holds the seed", eqv(p.get("seed"), seed))
    c.oblige("graphs and tables are told apart", k["kind"] == ("graph" if graph else "inductive"))
    s = k["seeds"]
    c.oblige("sub-seeds are functions of the seed alone", all(x[0] == "derived" and x[1].eq(seed.t) for x in s))
    c.oblige("sub-seeds have different labels", len({x[2] for x in s}) == 3)


def t_streams(c):
    """every generator used while sampling is seeded with one of the three sub-seeds"""
    W_ = c01.WS
    which = c.choose(2, "graph")
    y = labels()
    plan = c01.sym_plan(c)
    ds = ns(train=ns(y=y, masks=None), test=None, meta={})
    f = W_.fn(SVC, "_sample_graph" if which else "_sample_inductive")
    f(ds, plan=plan, seed_split=11, seed_label=22, seed_imb=33, dataset_fingerprint="d", split_fingerprint="s", created_at="t", plan_dict={"a": 1})
    c.cover("returns")
    c.oblige("generators are seeded by the sub-seeds only", set(c.ghost["rng_seeds"]) <= {11, 22, 33})
    r = c.ghost["result"]
    c.oblige("the result carries the identity of the request",
             (r.dataset_fingerprint, r.split_fingerprint, r.plan) == ("d", "s", {"a": 1}))


TASKS = [
    Task("plan.SamplingPlan dictionary round trip [split, labelling]", t_roundtrip_a,
         ["plan.SamplingPlan.as_dict", "plan.SamplingPlan.from_dict", "plan.HoldoutSplitSpec.*", "plan.KFoldSplitSpec.*", "plan.LabelingSpec.*"]),
    Task("plan.SamplingPlan dictionary round trip [imbalance, policy]", t_roundtrip_b, ["plan.ImbalanceSpec.*", "plan.SamplingPolicy.from_dict"]),
    Task("plan.SamplingPlan.from_dict [unknown keys]", t_unknown, ["plan._assert_known_keys"]),
    Task("service.sample [identity]", t_identity, ["service.sample", "service._resolve_dataset_fingerprint"],
         ["fingerprint.stable_hash", "fingerprint.derive_seed", "service._sample_inductive", "service._sample_graph"]),
    Task("service._sample_* [random streams]", t_streams, ["service._sample_inductive", "service._sample_graph"],
         ["splitters.*", "labeling.select_labeled", "imbalance.apply_imbalance"]),
]
