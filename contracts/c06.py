"""Preprocessing with a cache: the whole pipeline, for any number of steps, any cache content and any seed."""
from contracts.lib import *
from pyvc import maps
from pyvc.maps import Key, KeySet, Obj, SymMap, code, sdict
from pyvc.values import U

PL = "modssc.preprocess.services.pipeline"
TRUSTED = [
    "a step reads no artifact beyond _step_inputs, and its outputs are determined by its parameters, the rows and artifacts it is fitted on, "
    "its inputs and its generator (steps are checked against this at run time)",
    "the cache returns, for a fingerprint and a split, what was saved under them, or refuses, or returns an incomplete record (C09 checks the cache itself)",
    "equal fingerprints mean equal payloads (SHA-256)",
    "resolve_plan is replaced by an arbitrary resolved plan; hashing, logging and size estimates are not executed",
]
INT, BOOL = z3.IntSort(), z3.BoolSort()


def F(n, *s):
    return z3.Function(n, *s)


StepId, Params, FP = F("step_id", INT, U), F("params", INT, U), F("step_fp", INT, U)
Index, Fit, SeedF = F("step_index", INT, INT), F("fittable", INT, BOOL), F("seed_of", INT, U, INT, INT)
In, Prod = F("reads", INT, INT, BOOL), F("declares", INT, INT, BOOL)
Need, Keep = F("needed", INT, INT, BOOL), F("kept", INT, INT, BOOL)
cat = F("concat", U, U, U)
OutHas = {s: F(f"out_{s}", U, INT, BOOL) for s in ("train", "test")}
V = {s: F(f"value_{s}", U, INT, U) for s in ("train", "test")}
PH = {s: F(f"present_{s}", INT, INT, BOOL) for s in ("train", "test")}
PV = {s: F(f"origin_{s}", INT, INT, U) for s in ("train", "test")}
DS, FITHASH = z3.Const("dataset_fp", U), z3.Const("fit_rows_hash", U)


class Store(SymMap):
    """ArtifactStore as a mapping (its methods are proved against this below); knows which split it holds"""

    split, cleared = None, False

    def has(self, x):
        if isinstance(x, (str, Key)):
            return wrap(SymMap.has(self, code(x)))
        return SymMap.has(self, x)

    def set(self, k, v):
        self[k] = v

    def require(self, k):
        return self[k]

    def copy(self):
        r = Store(self._has, self._val, self.name)
        r.split = self.split
        return r


class Rng:
    def __init__(self, seed):
        self.seed, self.events = seed, []


class Rows:
    """fit_indices: only its identity matters here"""

    def reshape(self, *a):
        return self

    ravel = flatten = reshape

    def tobytes(self):
        return ("bytes of", self)


class Sha:
    def __init__(self, b=None):
        self.b = b

    def hexdigest(self):
        if not (isinstance(self.b, tuple) and isinstance(self.b[1], Rows)):
            raise Unsupported("hash of something else")
        return Obj(FITHASH)


class Spec:
    def __init__(self, k):
        self.k = k
        self.consumes = KeySet(lambda x: F("consumes", INT, INT, BOOL)(k, x))
        self.produces = KeySet(lambda x: Prod(k, x))
        self.required_extra = None

    @property
    def kind(self):
        return "fittable" if ctx().branch(Fit(self.k)) else "featurizer"


def leaves(v):
    if isinstance(v, dict):
        for q in v.values():
            yield from leaves(q)
        if not v:
            yield v
    elif isinstance(v, (list, tuple)):
        for q in v:
            yield from leaves(q)
    else:
        yield v


def mentions(t, s):
    return t.eq(s) or any(mentions(q, s) for q in t.children())


def world(c, *, test, cache, rows, purge):
    W = World(inert=("modssc.runtime", "modssc.preprocess.registry", "modssc.preprocess.cache", "modssc.preprocess.numpy_adapter",
                     "modssc.preprocess.plan"))
    mod = W.module(PL)
    d = mod.__dict__
    Err = W.module("modssc.preprocess.errors")
    N = c.int("n_steps")
    c.assume(N >= 0)
    g = c.ghost
    g["k"] = None
    init = {s: c.func(f"init_{s}", INT, BOOL) for s in ("train", "test")}
    RX, RY = code("raw.X"), code("raw.y")
    splits = ("train", "test") if test else ("train",)

    # what the result should be, step by step
    def recursion(k, x):
        for s in splits:
            o = OutHas[s](FP(k), x)
            c.assume(PH[s](k + 1, x) == Or(o, PH[s](k, x)))
            c.assume(PV[s](k + 1, x) == If(o, FP(k), PV[s](k, x)))
            c.assume(Implies(Prod(k, x), o))
            c.assume(FP(k) != Init(x))  # texts with different prefixes
        if purge:
            c.assume(Implies(Need(k + 1, x), Keep(k, x)))
            c.assume(Implies(In(k, x), Need(k, x)))
            c.assume(Implies(Need(k + 1, x), Need(k, x)))
        return z3.BoolVal(True)

    Init = lambda x: cat(DS, cat(strconst(":"), F("keytext", INT, U)(x)))  # noqa: E731
    for s in splits:
        for q in (RX, RY):
            c.assume(init[s](q))

    def start(x):
        return And(*[And(PH[s](z3.IntVal(0), x) == init[s](x), PV[s](z3.IntVal(0), x) == Init(x)) for s in splits])

    edges = {s: z3.Const(f"edges_{s}", U) for s in splits}
    EI, EW, OUT, LY = code("graph.edge_index"), code("graph.edge_weight"), code("out"), code("labels.y")
    for q in (EI, EW, OUT, LY):
        A.add_probe(q)
    for s in splits:
        c.assume(Implies(init[s](EI), V[s](Init(EI), EI) == edges[s]))
        c.assume(And(Not(init[s](LY)), Not(init[s](EW))))
        if purge:  # the contract of _final_keep_keys, checked at run time
            for q, cond in ((OUT, True), (RX, Not(PH[s](N, OUT))), (LY, PH[s](N, LY)), (RY, Not(PH[s](N, LY))), (EW, PH[s](N, EW)),
                            (EI, Or(PH[s](N, EW), PV[s](N, EI) != Init(EI)))):
                c.assume(Implies(cond, Need(N, q)))
    A.forall(start)
    A.add_probe(RX)
    A.add_probe(RY)

    def item(k):
        if g["k"] is None or not g["k"].eq(k):
            g["k"] = k
            A.forall(lambda x: recursion(k, x))
        return ns(step_id=Obj(StepId(k)), params=ParamsObj(Params(k)), index=SymInt(Index(k)), spec=Spec(k))

    class ParamsObj(Obj):
        __slots__ = ()

        def get(self, *a):
            raise Unsupported("a parameter is read in the pipeline")

    steps = SymSeq(N, item)

    def fst(parts):
        t = []
        for p in parts:
            v = p[0] if isinstance(p, tuple) else p
            if isinstance(v, Key):
                v = F("keytext", INT, U)(v.t)
            elif isinstance(v, SymU):
                v = v.t
            elif isinstance(v, str):
                v = strconst(v)
            else:
                return lift.OpaqueStr()
            t.append(v)
        r = t[-1]
        for q in reversed(t[:-1]):
            r = cat(q, r)
        return Obj(r)

    W.fstr_hook = fst

    def fingerprint(payload, prefix=""):
        if prefix != "step:":
            return Obj(F("other_fp", U, U)(strconst(prefix)))
        k = g["k"]
        ls = list(leaves(payload))
        ts = [v.t for v in ls if isinstance(v, SymU)]
        ints = [v.t for v in ls if isinstance(v, SymInt)]
        ms = [v for v in ls if isinstance(v, SymMap)] + [SymMap(lambda x: z3.BoolVal(False), lambda x: DS) for v in ls if isinstance(v, dict)]
        c.oblige("the fingerprint covers the step", any(t.eq(StepId(k)) for t in ts))
        c.oblige("the fingerprint covers the parameters", any(t.eq(Params(k)) for t in ts))
        sd = SeedF(MASTER.t, StepId(k), Index(k))
        c.oblige("the fingerprint covers the seed of the step", any(z3.simplify(t).eq(sd) for t in ints)
                 or (any(t.eq(MASTER.t) for t in ints) and any(t.eq(Index(k)) for t in ints)))
        fit = any(mentions(t, FITHASH) for t in ts)
        if rows:
            c.oblige("the fingerprint of a fitted step covers the fit rows", Implies(Fit(k), fit))
        x = skolem("in")
        for s in splits:
            ok = lambda m: Implies(In(k, x), And(m.has(x) == PH[s](k, x), Implies(PH[s](k, x), m.val(x) == PV[s](k, x))))  # noqa: E731
            # a fitted step sees the training inputs whatever split it transforms
            cand = [m for m in ms if c.entails(ok(m))]
            c.oblige(f"the fingerprint covers where the {s} inputs come from", ok((cand or ms)[0]) if ms else False)
        return Obj(FP(k))

    def inputs_ok(what, s, st):
        k, x = g["k"], skolem("read")
        if not isinstance(st, Store):
            raise Unsupported("a step is given something else than a store")
        have = st.has(x)
        c.oblige(f"{what}: the step sees the artifacts of the {s} split", And(
            have == PH[s](k, x), Implies(have, st.val(x) == V[s](PV[s](k, x), x))) if not purge else Implies(
            In(k, x), And(have == PH[s](k, x), Implies(have, st.val(x) == V[s](PV[s](k, x), x)))))

    def rng_ok(what, rng, events):
        k = g["k"]
        c.oblige(f"{what}: the generator of the step", isinstance(rng, Rng) and c.entails(tn(rng.seed) == SeedF(MASTER.t, StepId(k), Index(k))))
        c.oblige(f"{what}: earlier draws are the same with and without the cache", rng.events == events)

    class StepObj:
        def __init__(self):
            self.fitted = 0

        def fit(self, store, *, fit_indices, rng):
            self.fitted += 1
            c.oblige("a step is fitted once", self.fitted == 1)
            inputs_ok("fit", "train", store)
            rng_ok("fit", rng, [])
            c.oblige("exactly the fit rows are used", fit_indices is ROWS)
            rng.events.append("fit")

        def transform(self, store, *, rng):
            k = g["k"]
            fit = c.branch(Fit(k))
            c.oblige("a fittable step is fitted before it transforms", self.fitted == (1 if fit else 0))
            base = ["fit"] if fit else []
            if rng.events == base:
                s, what = "train", "first transform"
            else:
                s, what = "test", "second transform"
            inputs_ok(what, s, store)
            rng_ok(what, rng, base if s == "train" else base + ["train"])
            rng.events.append(s)
            fp = FP(k)
            return SymMap(lambda x: OutHas[s](fp, x), lambda x: V[s](fp, x), "produced")

    class CM:
        @classmethod
        def for_dataset(cls, fp):
            c.oblige("the cache of this dataset", isinstance(fp, Obj) and fp.t.eq(DS))
            return cls()

        def dataset_dir(self):
            return "dir"

        def has_step_outputs(self, fp, *, split):
            return SymBool(c.bool("cached"))

        def load_step_outputs(self, *, step_fingerprint, split):
            t = step_fingerprint.t
            how = c.choose(3, "load")
            if how == 0:
                raise Err.PreprocessCacheError("unreadable")
            if how == 1:
                return SymMap(lambda x: OutHas[split](t, x), lambda x: V[split](t, x), "loaded")
            part, w = c.func("partial", INT, BOOL), c.int("lost")
            c.assume(And(Prod(g["k"], w), Not(part(w))))
            A.add_probe(w)
            return SymMap(lambda x: And(part(x), OutHas[split](t, x)), lambda x: V[split](t, x), "partial")

        def save_step_outputs(self, *, step_fingerprint, split, produced, manifest):
            t, x = step_fingerprint.t, skolem("saved")
            c.oblige("the cache is given what the step produced for the split", And(
                t == FP(g["k"]), produced.has(x) == OutHas[split](t, x), Implies(produced.has(x), produced.val(x) == V[split](t, x))))

    def initial(split):
        s = split.name
        r = Store(lambda x: init[s](x), lambda x: V[s](Init(x), x), f"store {s}")
        r.split = s
        return r

    def keeps(steps_, *, output_key, initial_keys):
        c.oblige("the keep sets are those of the plan", steps_ is steps and output_key == "out")
        class L:
            def __getitem__(self, i):
                t = tn(i)
                return KeySet(lambda x: Keep(t, x), "keep")

            def sym_len(self):
                return SymInt(N)

            def __bool__(self):
                return True
        return L()

    def purge_store(store, *, keep):
        h = store._has
        store._set(lambda x: And(h(x), keep._has(x)), store._val)

    MASTER = I("seed")
    ROWS = Rows() if rows else None
    def instantiate(sid, params):
        c.oblige("the step of the plan with its parameters", And(sid.t == StepId(g["k"]), params.t == Params(g["k"])))
        return StepObj()

    reg = ns(instantiate=instantiate)
    fakenp = ns(random=ns(default_rng=lambda s: Rng(s)), int64="int64", ndarray=A.SArr, asarray=lambda x, dtype=None: x)
    d.update(
        resolve_plan=lambda *a, **k: ns(steps=steps, fingerprint=Obj(strconst("plan")), skipped=()),
        default_step_registry=lambda: reg, _dataset_fingerprint=lambda ds: Obj(DS), fingerprint=fingerprint,
        derive_seed=lambda seed, *, step_id, step_index: SymInt(SeedF(tn(seed), step_id.t, tn(step_index))),
        CacheManager=CM, _initial_store=initial, _format_split_size=lambda *a, **k: "", _maybe_log_gpu_info=lambda *a, **k: B("logged"),
        _maybe_warn_nonfinite=lambda *a, **k: None, _shape_of=lambda *a: None, _build_purge_keep_sets=keeps, _purge_store=purge_store,
        _step_inputs=lambda st: KeySet(lambda x, k=st.spec.k: In(k, x), "inputs"), hashlib=ns(sha256=Sha), np=fakenp, dict=sdict,
        set=lambda x=(): KeySet(x._has) if isinstance(x, SymMap) else set(x),
    )
    c.map_templates = [lambda p, q, x: (z3.BoolVal(True), q.val(x)), lambda p, q, x: (z3.BoolVal(True), FP(g["k"]) if g["k"] is not None else DS)]

    def inv(loop, env):
        if not (isinstance(loop.q, SymSeq) and (loop.q.src is steps or loop.q is steps or getattr(loop.q.src, "__len__", None) and isinstance(loop.q.src, tuple) and steps in loop.q.src)):
            return []
        out = [(f"still there {s}", 1, lambda e, k, x, s=s: Implies(PH[s](z3.IntVal(0), x), PH[s](k, x))) for s in splits]
        out += [(f"untouched {s}", 1, lambda e, k, x, s=s: Implies(And(PH[s](k, x), PV[s](k, x) == Init(x)), init[s](x))) for s in splits]
        for n, v, _ in loop.slots:
            if not isinstance(v, SymMap):
                continue
            for s in splits:
                def prov(e, k, x, n=n, s=s):
                    return And(e[n].has(x) == PH[s](k, x), Implies(e[n].has(x), e[n].val(x) == PV[s](k, x)))
                def vals(e, k, x, n=n, s=s):
                    return Implies(e[n].has(x), And(PH[s](k, x), e[n].val(x) == V[s](PV[s](k, x), x)))
                def there(e, k, x, n=n, s=s):
                    need = And(Need(k, x), PH[s](k, x)) if purge else PH[s](k, x)
                    return Implies(need, e[n].has(x))
                if isinstance(v, Store):
                    out += [(f"values {s}:{n}", 1, vals), (f"there {s}:{n}", 1, there)]
                else:
                    out.append((f"origin {s}:{n}", 1, prov))
        return out

    c.ghost["loop templates"] = [inv]
    return W, mod, Err, ns(N=N, MASTER=MASTER, ROWS=ROWS, RX=RX, RY=RY, edges=edges)


def final(c, w, s, split):
    OUT, Y, EI, EW, N = code("out"), code("labels.y"), code("graph.edge_index"), code("graph.edge_weight"), w.N
    t = lambda q: V[s](PV[s](N, q), q)  # noqa: E731
    e = split.edges
    if isinstance(e, dict):
        c.oblige(f"{s}: weighted edges when the steps weigh them", And(PH[s](N, EW), e["edge_weight"].t == t(EW)))
        ei = e["edge_index"]
        c.oblige(f"{s}: the edges of the steps, weighted", Not(PH[s](N, EI)) if ei is None else And(PH[s](N, EI), ei.t == t(EI)))
    else:
        c.oblige(f"{s}: the edges of the steps, or of the dataset", And(Not(PH[s](N, EW)), e.t == If(PH[s](N, EI), t(EI), w.edges[s])))
    c.oblige(f"{s}: X is the requested output of the steps", split.X.t == If(PH[s](N, OUT), t(OUT), t(w.RX)))
    c.oblige(f"{s}: y is the labels of the steps", split.y.t == If(PH[s](N, Y), t(Y), t(w.RY)))


def task(test, cache, rows, purge):
    def run(c):
        W, mod, Err, w = world(c, test=test, cache=cache, rows=rows, purge=purge)
        ds = ns(train=ns(name="train", X=1, y=2, edges=Obj(w.edges["train"]), masks=None),
                test=ns(name="test", X=3, y=4, edges=Obj(w.edges["test"]), masks=None) if test else None, meta={"a": 1})
        try:
            r = mod.preprocess(ds, ns(output_key="out"), seed=w.MASTER, fit_indices=w.ROWS, cache=cache, purge_unused_artifacts=purge)
        except Err.PreprocessValidationError:
            c.cover("refused")
            k = c.ghost["k"]
            c.oblige("refused only when a step must be fitted and there are no fit rows", And(Fit(k), not rows))
            return
        c.cover("returns")
        final(c, w, "train", r.dataset.train)
        c.oblige("a test split is returned exactly when there is one", (r.dataset.test is not None) == test)
        if test:
            final(c, w, "test", r.dataset.test)
    n = "preprocess [" + ", ".join([q for q, b in (("test split", test), ("cache", cache), ("fit rows", rows), ("purge", purge)) if b] or ["plain"]) + "]"
    return Task("pipeline." + n, run, ["pipeline.preprocess", "pipeline._cache_outputs_complete", "pipeline._first_of"],
                ["CacheManager", "pipeline._step_inputs", "fingerprint", "ArtifactStore"] + (["pipeline._purge_store", "pipeline._build_purge_keep_sets"] if purge else []), wall=400)



def t_store(c):
    """ArtifactStore is the mapping the pipeline contract takes it for"""
    W = World()
    mod = W.module("modssc.preprocess.store")
    mod.__dict__["dict"] = sdict
    m = SymMap.fresh("data")
    h0, v0 = m._has, m._val
    st = mod.ArtifactStore(m)
    k, x, v = Key(c.int("key")), skolem("x"), Obj(z3.Const("value", U))
    A.add_probe(k.t)
    same = lambda q: And(q.has(x) == h0(x), Implies(h0(x), q.val(x) == v0(x)))  # noqa: E731
    c.oblige("has", unwrap(st.has(k)) == h0(k.t))
    g = st.get(k, None)
    c.oblige("get", Not(h0(k.t)) if g is None else And(h0(k.t), g.t == v0(k.t)))
    try:
        r = st.require(k)
        c.oblige("require", And(h0(k.t), r.t == v0(k.t)))
    except KeyError:
        c.oblige("require refuses only what is missing", Not(h0(k.t)))
    c.oblige("reading changes nothing", same(st.data))
    cp = st.copy()
    c.oblige("the copy holds the same", same(cp.data))
    cp.set(k, v)
    c.oblige("set", And(cp.data.has(x) == Or(x == k.t, h0(x)), Implies(cp.data.has(x), cp.data.val(x) == If(x == k.t, v.t, v0(x)))))
    c.oblige("a change of the copy leaves the original", same(st.data))
    c.cover("done")


def t_purge(c):
    W2 = World(inert=("modssc.runtime", "modssc.preprocess.registry", "modssc.preprocess.cache", "modssc.preprocess.numpy_adapter", "modssc.preprocess.plan"))
    f = W2.fn(PL, "_purge_store")
    m = SymMap.fresh("data")
    h0, v0 = m._has, m._val
    st = W2.fn("modssc.preprocess.store", "ArtifactStore")(m)
    kp = c.func("keep", INT, BOOL)
    x = skolem("x")
    f(st, keep=KeySet(lambda q: kp(q), "keep"))
    d = st.data
    if not isinstance(d, SymMap):
        c.oblige("everything is dropped only when nothing is kept", And(d == {}, Not(And(h0(x), kp(x)))))
        c.cover("empty")
        return
    c.cover("returns")
    c.oblige("exactly the kept artifacts stay", d.has(x) == And(h0(x), kp(x)))
    c.oblige("kept artifacts are unchanged", Implies(d.has(x), d.val(x) == v0(x)))


def t_dataset_fp(c):
    W = World(inert=("modssc.runtime", "modssc.preprocess.registry", "modssc.preprocess.cache", "modssc.preprocess.numpy_adapter", "modssc.preprocess.plan"))
    d = W.module(PL).__dict__
    hashed, payloads = [], []

    class H:
        def hexdigest(self):
            return Obj(z3.Const("content", U))

    h = H()

    def hash_content(q, v):
        c.oblige("one hash takes it all", q is h)
        hashed.append(v)

    def fingerprint(payload, prefix=""):
        payloads.append(payload)
        return Obj(z3.Const("fp", U))

    d.update(hashlib=ns(sha256=lambda *a: h), _hash_content=hash_content, fingerprint=fingerprint)
    mk = lambda n: ns(X=Obj(z3.Const(n + "X", U)), y=Obj(z3.Const(n + "y", U)), edges=None if c.choose(2, "edges") else Obj(z3.Const(n + "e", U)),  # noqa: E731
                      masks=None if c.choose(2, "masks") else {"m": 1})
    test = None if c.choose(2, "test") else mk("te")
    meta = [{}, {"dataset_fingerprint": "known"}, {"dataset_fingerprint": ""}, {"dataset_fingerprint": 3}][c.choose(4, "meta")]
    ds = ns(train=mk("tr"), test=test, meta=meta)
    r = d["_dataset_fingerprint"](ds)
    if meta.get("dataset_fingerprint") == "known":
        c.oblige("a dataset that has an identity keeps it", r == "known" and not hashed)
        c.cover("known")
        return
    c.cover("returns")
    c.oblige("the identity is the fingerprint", isinstance(r, Obj) and str(r.t) == "fp")
    for s in (ds.train, test) if test is not None else (ds.train,):
        for v in (s.X, s.y, s.edges, s.masks):
            c.oblige("the identity covers every value of every split", any(q is v for q in hashed))
    c.oblige("the identity covers the content and whether there is a test split", any(isinstance(v, Obj) and str(v.t) == "content" for v in leaves(payloads[0]))
             and (test is not None) in [v for v in leaves(payloads[0]) if isinstance(v, bool)])


TASKS = [
    task(False, False, False, False), task(False, True, True, False), task(True, False, True, False), task(True, True, True, False),
    task(False, True, True, True), task(True, True, True, True),
    Task("store.ArtifactStore", t_store, ["store.ArtifactStore.has", "store.ArtifactStore.get", "store.ArtifactStore.set", "store.ArtifactStore.require", "store.ArtifactStore.copy"], central=False),
    Task("pipeline._purge_store", t_purge, ["pipeline._purge_store"], central=False),
    Task("pipeline._dataset_fingerprint", t_dataset_fp, ["pipeline._dataset_fingerprint"], ["pipeline._hash_content", "fingerprint"]),
]
