"""Run-time contract: preprocessing is fitted on the listed rows only."""
from bounded.prep import *
from bounded.util import close, same
from modssc.preprocess import registry as reg_mod
from modssc.preprocess.services.pipeline import preprocess
from modssc.preprocess.store import ArtifactStore
from vf.gen import Skip

RULE = "dataset kinds (numeric with and without missing values, integer, mixed table, text, image), step chains, fit rows and changed rows; distinct by dataset, chain and rows"
EXPLANATION = ("The same pipeline is run on two datasets that differ only in rows outside the fit rows (and in the test rows); rows that were "
               "left unchanged must come out unchanged.  Call order, fit rows and fitted state are observed through the step registry.")


def aligned(store, n):
    for k in store.keys():
        if k.startswith(("features.", "tokens.", "raw.X")):
            v = store.get(k)
            if hasattr(v, "shape") and len(v.shape) and v.shape[0] == n:
                yield k, dense(v)


def eq(a, b, mask):
    if a.shape[1:] != b.shape[1:]:
        return False
    a, b = a[mask], b[mask]
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        s = np.nanmax(np.abs(np.concatenate([a.ravel(), b.ravel(), [0]]).astype(float))) if a.size else 0
        s = s if np.isfinite(s) else 1.0
        return close(a, b, rtol=2e-4 if min(a.dtype.itemsize, b.dtype.itemsize) > 2 else 2e-2, atol=1e-5 * max(1.0, s))
    return same(a, b, strict=False) is None


def run(ds, steps, **k):
    return preprocess(ds, PreprocessPlan(steps=tuple(steps), output_key="features.X"), cache=False, **k)


def s_leak(g):
    kind, ds, steps = gen_case(g)
    n = ds.train.X.shape[0]
    fit, seed = gen_fit(g, n), g.int(0, 99)
    rest = np.setdiff1d(np.arange(n), fit)
    ch = rest[g.rng.random(rest.size) < g.pick([0.3, 1.0])]
    mt = 0 if ds.test is None else ds.test.X.shape[0]
    cht = np.arange(mt)[g.rng.random(mt) < g.pick([0.3, 1.0])]
    if not (ch.size or cht.size):
        raise Skip()
    g.note(fit=fit[:40].tolist(), changed=ch[:40].tolist(), changed_test=cht.tolist())
    ds2 = LoadedDataset(train=Split(X=spoil(g, ds.train.X, ch, kind), y=ds.train.y),
                        test=None if ds.test is None else Split(X=spoil(g, ds.test.X, cht, kind), y=ds.test.y), meta={})
    try:
        a = run(ds, steps, seed=seed, fit_indices=fit)
    except Exception:
        raise Skip() from None
    try:
        b = run(ds2, steps, seed=seed, fit_indices=fit)
    except Exception as e:  # noqa: BLE001
        # only values outside the transform's own domain may fail (checked row by row): NaN after imputation is off etc.
        raise Skip() from e
    keep = np.ones(n, bool)
    keep[ch] = False
    bb = dict(aligned(b.train_artifacts, n))
    for k, v in aligned(a.train_artifacts, n):
        g.require(k in bb and eq(v, bb[k], keep), f"{k} of unchanged training rows depends on rows outside the fit rows")
    if mt:
        keep = np.ones(mt, bool)
        keep[cht] = False
        bb = dict(aligned(b.test_artifacts, mt))
        for k, v in aligned(a.test_artifacts, mt):
            g.require(k in bb and eq(v, bb[k], keep), f"{k} of unchanged test rows depends on rows outside the fit rows")
    # without the test split the training rows come out the same
    if ds.test is not None and g.bool(0.3):
        c = run(LoadedDataset(train=ds.train, test=None, meta={}), steps, seed=seed, fit_indices=fit)
        cc = dict(aligned(c.train_artifacts, n))
        for k, v in aligned(a.train_artifacts, n):
            g.require(same(v, cc[k]) is None, f"{k} of the training rows depends on the presence of a test set")


class Spy:
    def __init__(self, inner, name, log):
        self.inner, self.name, self.log = inner, name, log
        if not hasattr(inner, "fit"):
            self.fit = None
            del self.fit

    def __getattr__(self, a):
        v = getattr(self.inner, a)
        if a in ("fit", "transform"):
            def call(store, **k):
                self.log.append((self.name, a, id(store), None if "fit_indices" not in k else np.array(k["fit_indices"]), self))
                return v(store, **k)
            return call
        return v


class Reg:
    def __init__(self, log):
        self.r, self.log, self.n = reg_mod.default_step_registry(), log, 0

    def __getattr__(self, a):
        return getattr(self.r, a)

    def instantiate(self, step_id, *, params):
        self.n += 1
        return Spy(self.r.instantiate(step_id, params=params), (self.n, step_id), self.log)


def s_order(g):
    kind, ds, steps = gen_case(g)
    ds = fingerprinted(ds)
    n = ds.train.X.shape[0]
    fit, seed = gen_fit(g, n), g.int(0, 99)
    plan = PreprocessPlan(steps=tuple(steps), output_key="features.X")
    cache = g.bool()
    for _ in range(2 if cache else 1):
        log = []
        try:
            preprocess(ds, plan, seed=seed, fit_indices=fit, cache=cache, cache_dir=g.tmp + "/pc", registry=Reg(log))
        except Exception:
            raise Skip() from None
        by = {}
        for name, what, store, idx, _s in log:
            by.setdefault(name, []).append((what, store, idx))
        for name, calls in by.items():
            spec = reg_mod.default_step_registry().spec(name[1])
            kinds = [c[0] for c in calls]
            if spec.kind == "fittable":
                g.require(kinds.count("fit") == 1 and kinds[0] == "fit", f"{name}: fit is not called exactly once before the first output: {kinds}")
                g.require(np.array_equal(calls[0][2], fit), f"{name}: fitted on other rows than the fit rows", got=calls[0][2].tolist())
                g.require(len({c[1] for c in calls[:2]}) == 1 or cache, f"{name}: not fitted on the training split")
            g.require(kinds.count("transform") <= 2, f"{name}: transform called {kinds}")


def state(o):
    return {k: v for k, v in vars(o).items()}


def s_state(g):
    """transform never changes the fitted state"""
    kind, ds, steps = gen_case(g)
    r = reg_mod.default_step_registry()
    fits = [s for s in steps if r.spec(s.step_id).kind == "fittable"]
    if not fits:
        raise Skip()
    s = g.pick(fits)
    n = ds.train.X.shape[0]
    store = ArtifactStore({"raw.X": ds.train.X, "raw.y": ds.train.y})
    if s.step_id not in ("tabular.one_hot", "text.tfidf", "text.vocab_tokenizer", "vision.zca_whitening"):
        if kind not in ("num", "clean", "int"):
            raise Skip()
        store.set("features.X", ds.train.X)
    other = ArtifactStore({k: (spoil(g, v, range(n), kind) if k != "raw.y" else v) for k, v in store.data.items()})
    before = copy.deepcopy(store.data)
    st = r.instantiate(s.step_id, params=dict(s.params))
    rng = np.random.default_rng(0)
    fit = gen_fit(g, n)
    try:
        st.fit(store, fit_indices=fit, rng=rng)
        a = st.transform(store, rng=rng)
    except Exception:
        raise Skip() from None
    a0 = copy.deepcopy(a)
    snap = copy.deepcopy({k: v for k, v in state(st).items() if isinstance(v, (np.ndarray, list, dict, tuple, int, float, str))})
    try:
        st.transform(other, rng=rng)
    except ValueError:
        pass
    b = st.transform(store, rng=rng)
    g.require(same(a0, b) is None, f"{s.step_id}: transforming changes later outputs: {same(a0, b)}")
    g.require(same(a0, a) is None, f"{s.step_id}: a later transform overwrites an earlier output")
    now = {k: state(st)[k] for k in snap}
    g.require(same(snap, now) is None, f"{s.step_id}: transform changes the fitted state: {same(snap, now)}")
    g.require(same(before, store.data) is None, f"{s.step_id}: the inputs were modified: {same(before, store.data)}")


def s_fitted(g):
    """what a step learns does not depend on the rows outside the fit rows"""
    kind, ds, steps = gen_case(g)
    r = reg_mod.default_step_registry()
    fits = [s for s in steps if r.spec(s.step_id).kind == "fittable"]
    n = ds.train.X.shape[0]
    fit = gen_fit(g, n)
    rest = np.setdiff1d(np.arange(n), fit)
    if not fits or not rest.size:
        raise Skip()
    s = g.pick(fits)
    probe, other = ds.train.X, spoil(g, ds.train.X, rest[g.rng.random(rest.size) < g.pick([0.3, 1.0])], kind)
    if kind == "table" and g.bool():
        other[g.pick(rest.tolist()), g.int(0, other.shape[1] - 1)] = g.pick(["oops", "1e3", "?", 7, "nan"])
    g.note(step=s.step_id, fit=fit.tolist(), other=repr(other)[:600])

    def outcome(X):
        st = r.instantiate(s.step_id, params=dict(s.params))
        try:
            st.fit(store(X), fit_indices=fit, rng=np.random.default_rng(0))
        except Exception as e:  # noqa: BLE001
            return type(e)
        try:
            return {k: dense(v) if not isinstance(v, (str, bool, int, float, type(None), list, dict)) else v for k, v in st.transform(store(probe), rng=np.random.default_rng(1)).items()}
        except Exception as e:  # noqa: BLE001
            return type(e)

    def store(X):
        return ArtifactStore({"raw.X": X, "raw.y": ds.train.y, **({} if kind in ("table", "text", "image") else {"features.X": X})})

    a, b = outcome(probe), outcome(other)
    if isinstance(a, type) or isinstance(b, type):
        g.require(a is b, f"{s.step_id}: rows outside the fit rows decide whether the step works: {a} / {b}")
        return
    d = sorted(k for k in a if k not in b or (not eq(a[k], b[k], slice(None)) if isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray) else same(a[k], b[k]) is not None))
    g.require(set(a) == set(b) and not d, f"{s.step_id}: the fitted step depends on rows outside the fit rows ({d})")


def s_refuse(g):
    kind, ds, steps = gen_case(g)
    r = reg_mod.default_step_registry()
    if not any(r.spec(s.step_id).kind == "fittable" for s in steps):
        raise Skip()
    g.raises(lambda: run(ds, steps, seed=0, fit_indices=None), Exception, "a fittable step runs without fit rows")


SCENARIOS = [("leak", s_leak, 900, 3), ("order", s_order, 250, 2), ("state", s_state, 600, 2), ("fitted", s_fitted, 800, 2), ("refuse", s_refuse, 60)]
