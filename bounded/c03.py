"""Run-time contract: reproducibility, identity and storage of splits."""
import json
import os
import subprocess
import sys
from dataclasses import replace
from pathlib import Path

from bounded.samp import *
from modssc.sampling.storage import load_split, save_split
from vf.gen import Skip

RULE = "datasets, plans and seeds as in C01/C02; single-field differences between plans; distinct by dataset and plan"
EXPLANATION = ("Plan dictionaries determine the plan (round trip) and the hashed identity payload holds every request field: verified "
               "symbolically; determinism, digest differences and storage are checked on generated requests.")


def same(g, a, b, msg, identity=True):
    g.require(a.indices.keys() == b.indices.keys() and a.masks.keys() == b.masks.keys(), msg + ": different sets")
    for part in ("indices", "masks"):
        for k in getattr(a, part):
            x, y = np.asarray(getattr(a, part)[k]), np.asarray(getattr(b, part)[k])
            g.require(x.dtype.kind == y.dtype.kind and np.array_equal(x, y), f"{msg}: {part}[{k}] differs", a=x.tolist(), b=y.tolist())
    g.require(dict(a.refs) == dict(b.refs), msg + ": references differ")
    if identity:
        g.require(a.split_fingerprint == b.split_fingerprint and a.dataset_fingerprint == b.dataset_fingerprint, msg + ": identity differs")
        g.require(json.dumps(a.plan, sort_keys=True) == json.dumps(b.plan, sort_keys=True), msg + ": plan differs")


def s_repeat(g):
    ds, plan, seed = gen_dataset(g), gen_plan(g, imb=g.bool()), g.int(0, 2**31)
    g.note(seed=seed)
    np.random.seed(g.int(0, 999))
    a, _ = sample(ds, plan=plan, seed=seed)
    np.random.seed(g.int(1000, 1999))
    np.random.random(g.int(0, 9))
    other = gen_dataset(g)
    try:
        sample(other, plan=gen_plan(g), seed=seed)
    except Exception:  # noqa: BLE001
        pass
    ds2 = LoadedDataset(train=Split(X=None, y=np.array(ds.train.y), edges=ds.train.edges, masks=ds.train.masks),
                        test=None if ds.test is None else Split(X=None, y=np.array(ds.test.y)), meta=dict(ds.meta))
    b, _ = sample(ds2, plan=SamplingPlan.from_dict(json.loads(json.dumps(plan.as_dict()))), seed=seed)
    same(g, a, b, "two identical requests")


def mutate(g, plan):
    """(plan differing in exactly one field, name)"""
    part = g.pick(["split", "labeling", "imbalance", "policy"])
    o = getattr(plan, part)
    f = g.pick([x for x in o.__dataclass_fields__ if x != "kind" and not (part == "labeling" and x == "mode")])
    v = getattr(o, f)
    if isinstance(v, bool):
        n = not v
    elif f in ("strategy",):
        n = "balanced" if v == "proportional" else "proportional"
    elif f == "apply_to":
        n = "labeled" if v == "train" else "train"
    elif f == "fixed_indices":
        n = [0, 1] if v is None else (None if g.bool() else list(v) + [9])
    elif f in ("max_per_class",):
        n = 3 if v is None else g.pick([v + 1, None])
    elif f == "alpha":
        n = 0.5 if v is None else v / 2
    elif f == "fold":
        n = v + 1 if v + 1 < o.k else v - 1
    elif f == "value" and plan.labeling.mode != "fraction":
        n = v + 1
    elif isinstance(v, int):
        n = v + 1
    elif isinstance(v, float):
        n = g.pick([v / 2 + 0.001, v - 1e-7 if v > 0.5 else v + 1e-7])
    else:
        raise Skip()
    return replace(plan, **{part: replace(o, **{f: n})}), f"{part}.{f}"


def s_identity(g):
    ds = gen_dataset(g, n=g.int(12, 40))
    plan, seed = gen_plan(g, imb=g.bool()), g.int(0, 10**6)
    a, _ = sample(ds, plan=plan, seed=seed)
    kind = g.pick(["seed", "dataset", "plan", "plan", "plan"])
    fp, p2, s2 = None, plan, seed
    if kind == "seed":
        s2 = g.pick([seed + 1, seed + 2**32, seed + 7, -seed - 1])
    elif kind == "dataset":
        fp = g.pick(["other", str(ds.meta["dataset_fingerprint"]) + " ", "FP"])
    else:
        p2, name = mutate(g, plan)
        g.note(field=name)
    g.note(kind=kind)
    try:
        b, _ = sample(ds, plan=p2, seed=s2, dataset_fingerprint=fp)
    except (ValueError, SamplingValidationError):
        raise Skip() from None
    g.require(a.split_fingerprint != b.split_fingerprint, f"requests that differ in {kind} have the same identity")
    c, _ = sample(ds, plan=p2, seed=s2, dataset_fingerprint=fp)
    g.require(b.split_fingerprint == c.split_fingerprint, "identity is not stable")


def s_plan(g):
    p = gen_plan(g, imb=g.bool())
    if g.bool(0.3):
        p = replace(p, labeling=replace(p.labeling, fixed_indices=[g.int(0, 50) for _ in range(g.int(0, 5))]))
    d = json.loads(json.dumps(p.as_dict()))
    q = SamplingPlan.from_dict(d)
    g.note(plan=p.as_dict())
    g.require(q == p, f"plan changes in its dictionary round trip: {q}")
    g.require(q.as_dict() == p.as_dict(), "dictionary form is not stable")
    sec = g.pick(["split", "labeling", "imbalance", "policy", None])
    e = json.loads(json.dumps(p.as_dict()))
    (e if sec is None else e[sec])["unknown_key"] = 1
    g.raises(lambda: SamplingPlan.from_dict(e), ValueError, "an unknown plan key is ignored")


def s_store(g):
    ds, plan, seed = gen_dataset(g), gen_plan(g, imb=g.bool()), g.int(0, 10**6)
    g.note(seed=seed)
    a, path = sample(ds, plan=plan, seed=seed, save=True, cache_root=Path(g.tmp) / "cache")
    b = load_split(path)
    same(g, a, b, "stored split")
    g.require(a.created_at == b.created_at and a.schema_version == b.schema_version, "stored metadata differs")
    g.require(json.dumps(a.stats, sort_keys=True, default=str) == json.dumps(b.stats, sort_keys=True, default=str), "stored statistics differ")
    g.raises(lambda: sample(ds, plan=plan, seed=seed, save=True, cache_root=Path(g.tmp) / "cache"), FileExistsError, "an existing split is overwritten silently")
    c, _ = sample(ds, plan=plan, seed=seed + 1)
    save_split(c, path, overwrite=True)
    same(g, c, load_split(path), "overwritten split")
    b.validate(n_train=len(ds.train.y), n_test=None if ds.test is None else len(ds.test.y), n_nodes=len(ds.train.y) if a.is_graph() else None)


PROG = r"""
import sys, json, hashlib, logging
logging.disable(50)
sys.path.insert(0, %r)
from vf.gen import G, case_seed
from bounded.samp import *
out = []
for k in range(40):
    g = G(case_seed(%d, "proc", k), ".")
    ds, plan, seed = gen_dataset(g), gen_plan(g, imb=g.bool()), g.int(0, 10**6)
    r, _ = sample(ds, plan=plan, seed=seed)
    h = hashlib.sha256()
    for part in (r.indices, r.masks):
        for k2 in sorted(part):
            h.update(k2.encode() + np.asarray(part[k2]).astype(np.int64).tobytes())
    out.append([r.split_fingerprint, h.hexdigest()])
print(json.dumps(out))
"""


def s_process(g):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    s = g.int(0, 10**6)
    outs = []
    for hs in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, "-c", PROG % (here, s)], env=env, capture_output=True, text=True, timeout=100)
        g.require(r.returncode == 0 or "Error" not in r.stderr, "sampling in a fresh process failed: " + r.stderr[-300:])
        outs.append(json.loads(r.stdout))
    g.note(seed=s)
    g.require(outs[0] == outs[1], "splits or identities differ between processes")


SCENARIOS = [("repeat", s_repeat, 2500, 2), ("identity", s_identity, 3000, 2), ("plan", s_plan, 4000), ("store", s_store, 900, 3),
             ("process", s_process, 2, 2)]
