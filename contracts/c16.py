"""Hyper-parameter search: enumeration, distributions, patching, choice of the best trial.

Nested configurations are handled by structural induction: the contracts are proved for one level of an arbitrary mapping,
with the recursive call replaced by the same contract one level down."""
import itertools

from contracts.lib import *
from pyvc.lists import SymSeq
from pyvc.maps import Key, Obj, SymMap, U, is_map, sdict

PT, SM, SPC, HO = "modssc.hpo.patching", "modssc.hpo.samplers", "modssc.hpo.space", "bench.orchestrators.hpo"
TRUSTED = ["itertools.product yields every combination of its arguments exactly once (Python standard library)",
           "copy.deepcopy yields an equal value", "a draw of the random generator lies within its requested bounds"]
W = World()
MERGE = z3.Function("merged", U, U, U)


def t_merge(c):
    Wm = World()
    f = Wm.fn(PT, "deep_merge")
    d = Wm.mods[PT].__dict__
    d["dict"] = sdict
    d["deep_merge"] = lambda a, b: Obj(MERGE(a.t, b.t))  # the same contract, one level down
    base, patch = SymMap.fresh("base"), SymMap.fresh("patch")
    base.frozen, patch.frozen = "the base configuration", "the patch"

    def spec(b, p, x):
        both = And(b.has(x), is_map(b.val(x)), is_map(p.val(x)))
        return z3.BoolVal(True), If(both, MERGE(b.val(x), p.val(x)), p.val(x))

    c.map_templates = [spec]
    r = f(base, patch)
    c.cover("returns")
    x = skolem()
    h, v = spec(base, patch, x)
    c.oblige("a named setting takes the patch's value (a mapping merged into a mapping)", Implies(patch.has(x), And(r.has(x), r.val(x) == v)))
    c.oblige("every other setting is the base's", Implies(Not(patch.has(x)), And(r.has(x) == base.has(x), Implies(base.has(x), r.val(x) == base.val(x)))))
    c.oblige("the result is a new mapping", r is not base and r is not patch)


def dist_spec(c, Wd):
    D = Wd.fn("modssc.hpo.types", "DistributionSpec")
    kind = ("uniform", "loguniform", "randint", "choice", "other", "")[c.choose(6, "dist")]
    def end(nm):
        k = c.choose(3, nm)
        return None if k == 0 else (I(nm) if k == 1 else R(nm))
    vs = c.choose(3, "values")
    values = None if vs == 0 else ([] if vs == 1 else [Obj(z3.Const(f"v{i}", U)) for i in range(3)])
    return kind, D(dist=kind, low=end("low"), high=end("high"), values=values)


def W_sm():
    Wd = World()
    g = Wd.module(SM).__dict__

    class Numbers:
        Real = (Sym, int, float)
        Integral = (SymInt, int)

    g["numbers"] = Numbers
    return Wd


def t_valid(c):
    Wd = W_sm()
    f, err = Wd.fn(SM, "validate_distribution"), Wd.fn("modssc.hpo.types", "HpoError")
    kind, s = dist_spec(c, Wd)
    ok_num = {"uniform": lambda v: v is not None, "loguniform": lambda v: v is not None, "randint": lambda v: isinstance(v, SymInt)}
    try:
        f(s)
    except err:
        c.cover("refused")
        if kind in ok_num and ok_num[kind](s.low) and ok_num[kind](s.high) and s.values is None:
            lo, hi = (tn(v) for v in (s.low, s.high))
            c.oblige("a well formed range is accepted", Or(lo >= hi, And(kind == "loguniform", lo <= 0)))
        if kind == "choice":
            c.oblige("a well formed choice is accepted", not (s.values and s.low is None and s.high is None))
        return
    c.cover("accepted")
    c.oblige("unknown distributions are refused", kind in ("uniform", "loguniform", "randint", "choice"))
    if kind == "choice":
        c.oblige("a choice has values and no range", bool(s.values) and s.low is None and s.high is None)
    else:
        c.oblige("a range has both ends and no values", s.low is not None and s.high is not None and s.values is None)
        c.oblige("the ends of a range are in order", tn(s.low) < tn(s.high))
        if kind == "loguniform":
            c.oblige("a logarithmic range is positive", tn(s.low) > 0)
        if kind == "randint":
            c.oblige("an integer range has integer ends", isinstance(s.low, SymInt) and isinstance(s.high, SymInt))


def t_sample(c):
    Wd = W_sm()
    f, err = Wd.fn(SM, "sample_distribution"), Wd.fn("modssc.hpo.types", "HpoError")
    kind, s = dist_spec(c, Wd)
    rng = SRng()
    try:
        v = f(s, rng)
    except err:
        c.cover("refused")
        c.oblige("nothing is drawn for a refused distribution", rng.draws == 0)
        return
    c.cover("drawn")
    if kind == "choice":
        c.oblige("a chosen value is one of the declared values", Or(*[v.t == q.t for q in s.values]) if isinstance(v, Obj) else False)
    elif kind == "randint":
        c.oblige("an integer draw lies in the declared range", And(isinstance(v, (SymInt, int)), tn(v) >= tn(s.low), tn(v) < tn(s.high)))
    else:
        c.oblige("a draw lies in the declared range", And(tn(v) >= tn(s.low), tn(v) <= tn(s.high)))
    c.oblige("one draw per value", rng.draws == 1)


def t_values(c):
    Wd = W_sm()
    f, err = Wd.fn(SM, "sample_from_values"), Wd.fn("modssc.hpo.types", "HpoError")
    n = c.choose(5, "n")
    vs = [Obj(z3.Const(f"v{i}", U)) for i in range(n)]
    try:
        v = f(list(vs), SRng())
    except err:
        c.cover("refused")
        c.oblige("only an empty list is refused", n == 0)
        return
    c.cover("drawn")
    c.oblige("the value drawn is one of the list", And(n > 0, Or(*[v.t == q.t for q in vs])))


def passed(c):
    """the generator ended by leaving its loop at the end of the sequence"""
    return any(a.startswith("loop ") for a in c.abstract)


class Vals(list):
    """the values of one space entry: known only as an object"""


def space_world(draws):
    Ws = World(stubs={SPC + ":flatten_patch": lambda p: ("flat", dict(p)), SPC + ":_assign": lambda patch, path, value: patch.__setitem__(path, value),
                      SPC + ":sample_distribution": lambda d, rng: draws.append((d, rng)) or ("drawn", len(draws)),
                      SPC + ":sample_from_values": lambda v, rng: draws.append((v, rng)) or ("drawn", len(draws))})
    return Ws


def t_grid(c):
    Ws = space_world([])
    S, L = Ws.fn(SPC, "Space"), Ws.fn(SPC, "_Leaf")
    err = Ws.fn("modssc.hpo.types", "HpoError")
    nl = 1 + c.choose(3, "leaves")
    bad = c.choose(nl + 1, "range leaf")
    vals = [Vals(["a", "b"]) for _ in range(nl)]
    leaves = [L(("p", str(i)), None if i == bad else vals[i], "range" if i == bad else None) for i in range(nl)]
    N = c.int("N")
    c.assume(N >= 0)
    got = []
    comb = [c.func(f"comb{i}", z3.IntSort(), U) for i in range(nl)]

    def product(*grids):
        got.append(grids)
        return SymSeq(N, lambda k: tuple(Obj(g(k)) for g in comb))

    Ws.mods[SPC].__dict__["product"] = product
    g = S(leaves).iter_grid()
    try:
        t = next(g)
    except err:
        c.cover("refused")
        c.oblige("only a space with a range is refused", bad < nl)
        return
    except StopIteration:
        c.oblige("no trial only after the last combination", passed(c))
        return
    c.cover("yields")
    c.oblige("a space with a range is refused", bad == nl)
    c.oblige("combinations are over exactly the declared values", len(got) == 1 and [list(x) for x in got[0]] == [list(v) for v in vals])
    k = tn(t.index)
    c.oblige("every combination becomes one trial, with its number", And(k >= 0, k < N))
    c.oblige("a trial assigns to each path", set(t.patch) == {x.path for x in leaves})
    for i, leaf in enumerate(leaves):
        c.oblige("each path gets its value of the combination", t.patch[leaf.path].t == comb[i](k))
    c.oblige("parameters are the flattened patch", t.params == ("flat", t.patch))
    try:
        next(g)
    except StopIteration:
        c.oblige("the search does not stop before the last combination", False)


def t_random(c):
    draws = []
    Ws = space_world(draws)
    S, L = Ws.fn(SPC, "Space"), Ws.fn(SPC, "_Leaf")
    err = Ws.fn("modssc.hpo.types", "HpoError")
    nl = 1 + c.choose(3, "leaves")
    kinds = [c.choose(2, f"kind{i}") for i in range(nl)]
    leaves = [L(("p", str(i)), None if k else ["v", i], ("range", i) if k else None) for i, k in enumerate(kinds)]
    n, seed = I("n"), I("seed")
    g = S(leaves).iter_random(seed, n)
    try:
        t = next(g)
    except err:
        c.cover("refused")
        c.oblige("only a trial count that is not positive is refused", n.t <= 0)
        return
    except StopIteration:
        c.oblige("no trial only after the last one", passed(c))
        return
    c.cover("yields")
    k = tn(t.index)
    c.oblige("as many trials as requested, numbered from zero", And(n.t > 0, k >= 0, k < n.t))
    c.oblige("one draw per path, in the order of the space", [d[0] for d in draws] == [("range", i) if q else ["v", i] for i, q in enumerate(kinds)])
    c.oblige("each path gets the value drawn for it", t.patch == {leaf.path: ("drawn", i + 1) for i, leaf in enumerate(leaves)})
    seeds = c.ghost.get("rng_seeds", [])
    c.oblige("one generator, seeded by the search seed", len(seeds) == 1 and seeds[0] is seed and len({id(d[1]) for d in draws}) == 1)
    try:
        next(g)
    except StopIteration:
        c.oblige("the search does not stop before the requested count", k + 1 == n.t)


def t_assign(c):
    """assigning along a path sets that path and leaves every other entry alone (paths of length up to 4, any other entries)"""
    Wa = World()
    f = Wa.fn(SPC, "_assign")
    ln = 1 + c.choose(4, "length")
    path = tuple("abcd"[:ln])
    depth = c.choose(ln, "existing levels")
    others = [Obj(z3.Const(f"other{i}", U)) for i in range(ln)]
    root, cur = {"x": others[0]}, None
    cur = root
    for i in range(depth):
        cur[path[i]] = {"x": others[i + 1]}
        cur = cur[path[i]]
    v = Obj(z3.Const("value", U))
    f(root, path, v)
    c.cover("returns")
    cur = root
    for i in range(ln):
        c.oblige("other entries on the way are kept", (("x" in cur) == (i <= depth)) and (i > depth or cur["x"] is others[i]) and set(cur) <= {"x", path[i]})
        c.oblige("the path exists", path[i] in cur)
        cur = cur[path[i]]
    c.oblige("the path holds the value", cur is v)


def t_better(c):
    f = W.fn(HO, "_is_better") if False else World(inert=("modssc", "bench.context", "bench.schema")).fn(HO, "_is_better")
    first = c.choose(2, "first")
    a, b, i, j = R("candidate"), R("best"), I("index"), I("best_index")
    mx = c.choose(2, "direction")
    r = f(candidate=a, best=None if first else b, direction="maximize" if mx else "minimize", index=i, best_index=None if first else j)
    c.cover("returns")
    better = a.t > b.t if mx else a.t < b.t
    want = z3.BoolVal(True) if first else Or(better, And(a.t == b.t, i.t < j.t))
    c.oblige("better: larger (smaller) objective, or the same one earlier", tb(r) == want)


def t_best(c):
    """the loop over trials keeps the first trial with the best objective (any number of trials, any objective values)"""
    Wh = World(inert=("modssc", "bench.context", "bench.schema"), stubs={HO + ":_validate_space_targets": lambda s: None})
    f = Wh.fn(HO, "run_hpo")
    N = c.int("N")
    c.assume(N >= 0)
    mx = c.choose(2, "direction")
    grid = c.choose(2, "grid")
    score = c.func("score", z3.IntSort(), z3.RealSort())
    patch, par = c.func("patch", z3.IntSort(), U), c.func("params", z3.IntSort(), U)
    calls = []

    def trials():
        return SymSeq(N, lambda k: ns(index=SymInt(k), patch=Obj(patch(k)), params=Obj(par(k))))

    class Sp:
        @staticmethod
        def from_dict(d):
            return Sp

        @staticmethod
        def iter_grid():
            calls.append("grid")
            return trials()

        @staticmethod
        def iter_random(seed, n_trials):
            calls.append(("random", seed, n_trials))
            return trials()

    class H:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, s):
            return 0

    class P:
        def __truediv__(self, o):
            return self

        def mkdir(self, **k):
            return None

        def open(self, *a, **k):
            return H()

        def relative_to(self, o):
            return "p"

    d = Wh.mods[HO].__dict__
    base = object()
    cfgs = {}

    def merge(b, p):
        c.oblige("each trial's patch is applied to the base configuration", b is base)
        return ("patched", p)

    def from_dict(pd):
        return ns(of=pd[1])

    def objective(*, cfg, prepared_artifacts, seed, split, metric):
        cfgs["last"] = cfg.of
        return SymReal(z3.Function("rep", U, z3.RealSort())(cfg.of.t))

    def aggregate(scores, how):
        # the aggregate of the repeats of the trial just evaluated
        p = cfgs["last"].t
        k = c.int("kk")
        c.assume(And(k >= 0, k < N, p == patch(k)))
        return SymReal(z3.Function("agg", U, z3.RealSort())(p))

    agg = z3.Function("agg", U, z3.RealSort())
    d.update(Space=Sp, deep_merge=merge, ExperimentConfig=ns(from_dict=from_dict), _objective_value=objective, _aggregate=aggregate,
             _relative_path=lambda a, b: "p", json=ns(dumps=lambda *a, **k: ""))
    x = c.ghost["any"] = skolem("any")
    sc = lambda k: agg(patch(k))  # noqa: E731

    def inv(env, k, pre):
        k = tn(k)
        b, bs, bi, bp, bq = env.get("best_cmp"), env.get("best_score"), env.get("best_index"), env.get("best_patch"), env.get("best_params")
        if b is None or bi is None or bs is None:
            return And(k == 0, b is None and bi is None and bp is None and bq is None and bs is None)
        bi, b = tn(bi), tn(b)
        be = b >= sc(x) if mx else b <= sc(x)
        stl = Or(b > sc(x), bi <= x) if mx else Or(b < sc(x), bi <= x)
        same = And(tn(bs) == sc(bi), bp.t == patch(bi), bq.t == par(bi)) if bp is not None and bq is not None else z3.BoolVal(False)
        return And(bi >= 0, bi < k, b == sc(bi), same, Implies(And(x >= 0, x < k), And(be, stl)))

    c.loop_invs = {f"{HO}:run_hpo:for0": [("best so far", inv)]}
    reps = c.choose(2, "repeats") + 1
    search = ns(space={}, kind="grid" if grid else "random", seed=3, n_trials=5, repeats=reps,
                objective=ns(split="val", metric="m", direction="maximize" if mx else "minimize", aggregate="mean"))
    try:
        r, summ = f(ctx=ns(run_dir=P(), seed_for=lambda s: 1), base_cfg=ns(search=search), base_cfg_dict=base, prepared_artifacts={})
    except ValueError:
        c.cover("refused")
        c.oblige("refused only without any trial", N == 0)
        return
    c.cover("returns")
    b = tn(summ["best_index"])
    c.assume(And(x >= 0, x < N))
    c.oblige("the best trial is a trial", And(b >= 0, b < N, r.t == patch(b), summ["best_params"].t == par(b)))
    c.oblige("no trial has a better objective", sc(x) <= sc(b) if mx else sc(x) >= sc(b))
    c.oblige("no earlier trial has the same objective", Implies(sc(x) == sc(b), b <= x))
    c.oblige("its score is its own objective", tn(summ["best_score"]) == sc(b))
    c.oblige("trials come from the requested search", calls == (["grid"] if grid else [("random", 3, 5)]))


TASKS = [
    Task("patching.deep_merge", t_merge, ["patching.deep_merge"], ["patching.deep_merge (one level down)", "copy.deepcopy"]),
    Task("samplers.validate_distribution", t_valid, ["samplers.validate_distribution", "samplers._require_real", "samplers._require_int"]),
    Task("samplers.sample_distribution", t_sample, ["samplers.sample_distribution", "samplers.validate_distribution", "samplers.sample_from_values"]),
    Task("samplers.sample_from_values", t_values, ["samplers.sample_from_values"]),
    Task("space.Space.iter_grid", t_grid, ["space.Space.iter_grid"], ["itertools.product", "space._assign", "patching.flatten_patch"]),
    Task("space.Space.iter_random", t_random, ["space.Space.iter_random"], ["space._assign", "samplers.sample_distribution", "samplers.sample_from_values"]),
    Task("space._assign", t_assign, ["space._assign"]),
    Task("hpo._is_better", t_better, ["hpo._is_better"]),
    Task("hpo.run_hpo [best trial]", t_best, ["hpo.run_hpo", "hpo._is_better"], ["hpo._objective_value", "hpo._aggregate", "Space.iter_grid", "Space.iter_random", "patching.deep_merge"]),
]
