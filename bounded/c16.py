"""Run-time contract: hyper-parameter search covers exactly the declared space."""
import copy
import itertools
import math

from bounded.util import same
from modssc.hpo import HpoError, Space, deep_merge, flatten_patch

RULE = ("nested spaces of up to 4 leaves (lists, uniform, loguniform, randint, choice), nested configurations of depth up to 4 with lists, "
        "dictionaries and scalars at the same names; distinct by input")
EXPLANATION = "Grid points are compared with the product of the declared values; patched configurations path by path with the definition."
KEYS = ["lr", "k", "alpha", "n", "model", "opt", "x", "B"]


def value(g, depth=2):
    r = g.int(0, 6)
    if r == 0 and depth:
        return {k: value(g, depth - 1) for k in g.rng.permutation(KEYS)[: g.int(1, 2)].tolist()}
    if r == 1 and depth:
        return [value(g, depth - 1) for _ in range(g.int(0, 2))]
    return g.pick([None, True, False, 0, 1, -3, 2.5, "s", "", 1e-9])


def space(g, grid):
    """(space dict, [(path, leaf)])"""
    leaves = []

    def leaf():
        kind = g.pick(["list", "list", "choice"]) if grid else g.pick(["list", "choice", "uniform", "loguniform", "randint"])
        vals = [value(g, g.int(0, 1)) for _ in range(g.int(1, 3))]
        if kind == "list":
            return vals
        if kind == "choice":
            return {"dist": "choice", "values": vals}
        if kind == "uniform":
            lo = g.pick([0, -1.0, 1e-3, -5])
            return {"dist": kind, "low": lo, "high": lo + g.pick([1e-6, 0.5, 10])}
        if kind == "loguniform":
            lo = g.pick([1e-5, 0.1, 1, 100])
            return {"dist": kind, "low": lo, "high": lo * g.pick([1.001, 2, 1000])}
        lo = g.pick([-3, 0, 5])
        return {"dist": "randint", "low": lo, "high": lo + g.pick([1, 2, 10])}

    def node(prefix, depth, top=False):
        out = {}
        for k in g.rng.permutation(KEYS)[: g.int(1, 2)].tolist():
            if depth and g.bool(0.4):
                out[k] = node(prefix + (k,), depth - 1)
            else:
                lf = leaf()
                out[k] = lf
                leaves.append((prefix + (k,), lf))
        return out

    return node((), 2, True), leaves


def get(d, path):
    for k in path:
        d = d[k]
    return d


def leaf_values(lf):
    return lf if isinstance(lf, list) else lf["values"]


def build(paths, values):
    out = {}
    for p, v in zip(paths, values, strict=True):
        cur = out
        for k in p[:-1]:
            cur = cur.setdefault(k, {})
        cur[p[-1]] = v
    return out


def s_grid(g):
    sp, leaves = space(g, True)
    g.note(space=sp)
    before = copy.deepcopy(sp)
    trials = list(Space.from_dict(sp).iter_grid())
    g.require(same(sp, before) is None, "building the space modifies its declaration")
    g.require([t.index for t in trials] == list(range(len(trials))), "trials are not numbered consecutively from zero")
    want = math.prod(len(leaf_values(lf)) for _, lf in leaves)
    g.require(len(trials) == want, f"{len(trials)} grid points, {want} combinations")
    paths = [p for p, _ in leaves]
    combos = [build(paths, c) for c in itertools.product(*[leaf_values(lf) for _, lf in leaves])]
    left = list(combos)
    for t in trials:
        k = next((i for i, c in enumerate(left) if same(c, t.patch) is None), None)
        g.require(k is not None, f"grid point {t.patch} is not declared or is repeated")
        left.pop(k)
        g.require(same(t.params, flatten_patch(t.patch)) is None, "params differ from the patch")
    again = list(Space.from_dict(sp).iter_grid())
    g.require(same([t.patch for t in again], [t.patch for t in trials]) is None, "the grid order is not deterministic")


def s_random(g):
    sp, leaves = space(g, False)
    n, seed = g.int(1, 12), g.int(0, 2**31)
    g.note(space=sp, n=n, seed=seed)
    before = copy.deepcopy(sp)
    a = list(Space.from_dict(sp).iter_random(seed, n))
    import numpy as np

    np.random.seed(g.int(0, 99))
    S = Space.from_dict(sp)
    list(S.iter_random(g.int(0, 9), g.int(1, 3)))
    b = list(S.iter_random(seed, n))
    g.require(len(a) == n and [t.index for t in a] == list(range(n)), "wrong number or numbering of trials")
    g.require(same([(t.patch, t.params) for t in a], [(t.patch, t.params) for t in b]) is None, "the same seed gives different trials")
    g.require(same(sp, before) is None, "sampling modifies the declaration")
    m = g.int(1, n)
    g.require(same([t.patch for t in Space.from_dict(sp).iter_random(seed, m)], [t.patch for t in a[:m]]) is None, "fewer trials are not a prefix of more trials")
    for t in a:
        for p, lf in leaves:
            v = get(t.patch, p)
            if isinstance(lf, list) or lf["dist"] == "choice":
                g.require(any(same(v, x) is None for x in leaf_values(lf)), f"{p}: {v!r} is not a declared value")
            elif lf["dist"] == "randint":
                g.require(type(v) is int and lf["low"] <= v < lf["high"], f"{p}: {v!r} outside {lf}")
            else:
                eps = 1e-12 * abs(lf["high"]) if lf["dist"] == "loguniform" else 0
                g.require(type(v) is float and lf["low"] - eps <= v <= lf["high"] + eps, f"{p}: {v!r} outside {lf}")
        g.require(same(t.patch, build([p for p, _ in leaves], [get(t.patch, p) for p, _ in leaves])) is None, "a trial sets undeclared paths")
        g.require(same(t.params, flatten_patch(t.patch)) is None, "params differ from the patch")
    g.raises(lambda: list(S.iter_random(seed, g.pick([0, -1]))), HpoError, "zero trials accepted")


def cover(g):
    """random draws reach every value of a small declared space"""


def s_spread(g):
    k = g.int(2, 4)
    sp = {"a": {"dist": "randint", "low": 0, "high": k}, "b": list(range(k)), "c": {"dist": "choice", "values": list(range(k))},
          "u": {"dist": "uniform", "low": 0, "high": 1}, "l": {"dist": "loguniform", "low": 1, "high": 100}}
    n = 200
    tr = list(Space.from_dict(sp).iter_random(g.int(0, 10**6), n))
    for key in "abc":
        g.require({t.patch[key] for t in tr} == set(range(k)), f"{n} draws of {key} never reach some declared value")
    for key, q in (("u", 0.5), ("l", 10)):
        below = sum(t.patch[key] < q for t in tr)
        g.require(50 < below < 150, f"{below} of {n} draws of {key} below its median {q}")


def config(g, depth=3):
    return {k: (config(g, depth - 1) if depth and g.bool(0.5) else value(g, 1)) for k in g.rng.permutation(KEYS)[: g.int(0, 4)].tolist()}


def leaf_paths(d, prefix=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(leaf_paths(v, prefix + (k,)))
        else:
            out[prefix + (k,)] = v
    return out


def s_merge(g):
    base, patch = config(g), config(g, 2)
    if g.bool(0.5):
        sp, _ = space(g, False)
        patch = next(iter(Space.from_dict(sp).iter_random(g.int(0, 99), 1))).patch
    P = leaf_paths(patch)
    if g.bool(0.2):  # an empty mapping names no setting
        cur, names = patch, [k for k in base if isinstance(base[k], dict)]
        if names:
            cur[g.pick(names)] = {}
        P = leaf_paths(patch)

    def mapped(p):
        d = base
        for k in p:
            if not isinstance(d, dict) or k not in d:
                return False
            d = d[k]
        return isinstance(d, dict)

    P = {p: v for p, v in P.items() if not (isinstance(v, dict) and mapped(p))}
    g.note(base=base, patch=patch)
    b0, p0 = copy.deepcopy(base), copy.deepcopy(patch)
    out = deep_merge(base, patch)
    g.require(same(base, b0) is None and same(patch, p0) is None, "merging modifies its input")
    O, B = leaf_paths(out), leaf_paths(base)
    for p, v in P.items():
        try:
            got = get(out, p)
        except (KeyError, TypeError):
            got = "missing"
        g.require(same(got, v) is None, f"{p} is {got!r}, the patch sets {v!r}")
    for p, v in B.items():
        over = any(p[: len(q)] == q or q[: len(p)] == p for q in P)
        if not over:
            g.require(p in O and same(O[p], v) is None, f"{p} changed from {v!r} to {O.get(p, 'missing')!r} though the patch does not name it")
    for p in O:
        g.require(p in P or p in B, f"{p} appears from nowhere")
    # order of existing keys, and no sharing with the inputs
    g.require([k for k in out if k in base] == list(base), "existing keys are reordered")

    def mutate(d):
        for k in list(d):
            if isinstance(d[k], dict):
                mutate(d[k])
            elif isinstance(d[k], list):
                d[k].append("changed")
        d["__new"] = 1

    mutate(out)
    g.require(same(base, b0) is None and same(patch, p0) is None, "the merged configuration shares objects with its inputs")


def s_flatten(g):
    p = config(g, 3)
    g.note(patch=p)
    p0 = copy.deepcopy(p)
    f = flatten_patch(p)
    g.require(same(p, p0) is None, "flattening modifies its input")
    g.require(same(dict(sorted(f.items())), dict(sorted((".".join(k), v) for k, v in leaf_paths(p).items()))) is None, "the flat parameters do not list exactly the leaves")


BAD = [{}, [], {"a": []}, {"a": {}}, {"a": 3}, {"dist": "uniform", "low": 0, "high": 1}, {"a": {"dist": "uniform", "low": 1, "high": 1}},
       {"a": {"dist": "loguniform", "low": 0, "high": 1}}, {"a": {"dist": "randint", "low": 2, "high": 1}}, {"a": {"dist": "randint", "low": 0.5, "high": 3}},
       {"a": {"dist": "choice", "values": []}}, {"a": {"dist": "nope"}}, {"a": {"dist": "uniform", "low": 0}}, {"a": {"dist": "choice", "values": [1], "low": 0}},
       {"a": {"dist": "uniform", "low": 0, "high": 1, "q": 3}}, {1: [1]}, {"": [1]}, {"a": {"dist": "uniform", "low": True, "high": 3}}]


def s_invalid(g):
    d = g.pick(BAD)
    g.note(space=d)
    g.raises(lambda: Space.from_dict(d), HpoError, "an invalid space is accepted")
    g.raises(lambda: list(Space.from_dict({"a": {"dist": "uniform", "low": 0, "high": 1}, "b": [1]}).iter_grid()), HpoError, "grid search over a continuous distribution")


def s_best(g):
    """a whole search with a recorded objective: every trial evaluated under its own merged configuration, the first best one returned"""
    import json
    import math
    from pathlib import Path
    from types import SimpleNamespace

    import bench.orchestrators.hpo as hp
    from bench.schema import ExperimentConfig

    grid = g.bool()
    if grid:
        params = {"a": list(range(g.int(1, 3))), "c": {"d": [0.5, 1.5][: g.int(1, 2)]}}
        if g.bool():
            params["b"] = ["x", "y", None]
    else:
        params = {"a": {"dist": "randint", "low": 0, "high": 4}, "c": {"d": {"dist": "uniform", "low": 0.0, "high": 1.0}}, "b": ["x", "y"]}
    direction = g.pick(["maximize", "minimize"])
    split, metric = g.pick(["val", "test"]), g.pick(["accuracy", "macro_f1"])
    reps = g.int(1, 3)
    n = g.int(1, 7)
    cfg = {"run": {"name": "n", "seed": g.int(0, 99), "output_dir": "o"}, "dataset": {"id": "toy"}, "sampling": {"plan": {"split": {"kind": "holdout"}}},
           "preprocess": {"plan": {"steps": []}}, "evaluation": {"report_splits": ["val"], "metrics": ["accuracy"]},
           "method": {"kind": "inductive", "id": "pseudo_label", "device": {}, "params": {"a": 77, "z": 1, "c": {"e": 2}}},
           "search": {"enabled": True, "kind": "grid" if grid else "random", "seed": g.int(0, 99), "n_trials": None if grid else n, "repeats": reps,
                      "objective": {"split": split, "metric": metric, "direction": direction, "aggregate": "mean"}, "space": {"method": {"params": params}}}}
    levels = g.pick([[0.0, 0.25, 0.5, 1.0], [0.5], [float("nan"), 0.5, -2.0, 3.0], [float("nan")], [-1.0, -1.0 - 2**-40, -1.0 + 2**-40]])
    calls, seeds = [], []

    def objective(*, cfg, prepared_artifacts, seed, split, metric):
        calls.append((copy.deepcopy(cfg.method.params), seed, split, metric, g.pick(levels)))
        cfg.method.params.clear()
        return calls[-1][4]

    def seed_for(label, override=None):
        seeds.append(label)
        return len(seeds)

    old, hp._objective_value = hp._objective_value, objective
    keep = copy.deepcopy(cfg)
    run_dir = Path(g.tmp) / "run"
    try:
        ec = ExperimentConfig.from_dict(cfg)
        patch, summary = hp.run_hpo(ctx=SimpleNamespace(run_dir=run_dir, seed_for=seed_for), base_cfg=ec, base_cfg_dict=cfg, prepared_artifacts={})
    finally:
        hp._objective_value = old
    g.require(cfg["search"] == keep["search"], "the search space is modified")
    sp = Space.from_dict(keep["search"]["space"])
    trials = list(sp.iter_grid() if grid else sp.iter_random(seed=keep["search"]["seed"], n_trials=n))
    g.note(scores=[c[4] for c in calls], trials=len(trials), repeats=reps, direction=direction)
    g.require(len(calls) == len(trials) * reps, f"{len(calls)} evaluations for {len(trials)} trials of {reps} repeats")
    g.require(len(set(seeds)) == len(seeds) == len(calls), "two evaluations share a seed")
    best, vals = None, []
    for i, t in enumerate(trials):
        mine = calls[i * reps:(i + 1) * reps]
        want = {"a": t.patch["method"]["params"]["a"], "z": 1, "c": {"e": 2, "d": t.patch["method"]["params"]["c"]["d"]}}
        if "b" in params:
            want["b"] = t.patch["method"]["params"]["b"]
        for m in mine[:1]:
            g.require(m[0] == want, f"trial {i} is evaluated with {m[0]} instead of {want}")
        g.require(all(m[2:4] == (split, metric) for m in mine), "another objective is evaluated")
        v = sum(m[4] for m in mine) / reps
        vals.append(v)
        if best is None:
            best = i
        elif not math.isnan(v) and (math.isnan(vals[best]) or (v > vals[best] if direction == "maximize" else v < vals[best])):
            best = i
    close_call = any(i != best and not math.isnan(v) and not math.isnan(vals[best]) and 0 < abs(v - vals[best]) < 1e-13 for i, v in enumerate(vals))
    if not close_call:
        g.require(patch == trials[best].patch and summary["best_index"] == best, f"trial {summary['best_index']} is returned but the first best is {best} ({vals})")
    lines = [json.loads(x) for x in (run_dir / "hpo" / "trials.jsonl").read_text().splitlines()]
    g.require([x["index"] for x in lines] == list(range(len(trials))) and all(x["patch"] == json.loads(json.dumps(t.patch)) for x, t in zip(lines, trials, strict=True)),
              "the trial log does not list every trial once")
    for x, i in zip(lines, range(len(trials)), strict=True):
        got = x["objective"]["values"]
        g.require(len(got) == reps and all(a == b[4] or (a != a and b[4] != b[4]) for a, b in zip(got, calls[i * reps:(i + 1) * reps], strict=True)),
                  f"trial {i} is logged with other objective values")


SCENARIOS = [("best trial", s_best, 400, 1), ("grid", s_grid, 500, 1), ("random", s_random, 500, 1), ("spread", s_spread, 20, 1), ("merge", s_merge, 1500, 1), ("flatten", s_flatten, 300, 1),
             ("invalid", s_invalid, 60, 1)]
