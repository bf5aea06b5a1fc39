"""Fitted preprocessing: what a step learns depends on the fit rows only; transforming never changes it."""
import dataclasses

from contracts import c06
from contracts.lib import *
from pyvc import flow
from pyvc.flow import Fl, FlowWorld, Lib, low

ST = "modssc.preprocess.steps"
TRUSTED = [
    "library functions are deterministic functions of their arguments (numpy, scikit-learn)",
    "the number of rows, the shape and the element type of a feature array are not part of what is hidden (arrays; lists and data frames take the bounded route)",
    "that an output row depends on its own input row only, given the fitted state, takes the bounded route",
    "the pipeline calls fit once, on the training store with the fit rows, before any transform: proved here with the contracts of C06",
]


def source(name):
    return Fl(False, name, rows=frozenset({"fit rows"}))


def setup(module, cls):
    W = FlowWorld(libs=("sklearn",), inert=("modssc.runtime",))
    mod = W.module(f"{ST}.{module}")
    if "require" in mod.__dict__:
        mod.__dict__["require"] = lambda **k: Lib("sklearn." + k["module"])
    o = getattr(mod, cls)()
    for k, v in list(vars(o).items()):  # any configuration
        if not learnt(k) and isinstance(v, (bool, int, float, str)):
            setattr(o, k, Fl(True, "parameter " + k))
    return W, o


def learnt(k):
    return k.startswith("_") or k.endswith("_")


def fit(module, cls):
    def run(c):
        W, o = setup(module, cls)
        Store = W.fn("modssc.preprocess.store", "ArtifactStore")
        has_features = c.choose(2, "features.X present")
        st = Store({"raw.X": source("raw.X"), **({"features.X": source("features.X")} if has_features else {})})
        rng = Fl(True, "generator")
        idx = Fl(True, "fit_indices", sel=("fit rows", "rows"))
        try:
            o.fit(st, fit_indices=idx, rng=rng)
        except Exception:
            c.cover("refused")
            return
        c.cover("fitted")
        for k, v in vars(o).items():
            c.oblige(f"what is learnt ({k}) depends on the fit rows only", low(v))
        c.oblige("fitting draws the same numbers whatever the other rows are", rng.low)
        c.oblige("fitting changes no artifact", not [k for k in st.data if not (isinstance(st.data[k], Fl) and st.data[k].what == k)])
    return run


def transform(module, cls):
    def run(c):
        W, o = setup(module, cls)
        Store = W.fn("modssc.preprocess.store", "ArtifactStore")
        has_features = c.choose(2, "features.X present")
        st = Store({k: Fl(True, k) for k in (("raw.X", "features.X") if has_features else ("raw.X",))})
        for k in [f.name for f in dataclasses.fields(o)]:  # any fitted state: whatever fit left in the private fields
            if learnt(k):
                setattr(o, k, Fl(True, "fitted " + k, none=True))
                getattr(o, k).__dict__["frozen"] = "the fitted state"
        before = dict(vars(o))
        try:
            o.transform(st, rng=Fl(True, "generator"))
        except Exception:
            c.cover("not transformed")
        else:
            c.cover("transformed")
        c.oblige("transforming learns nothing new", set(vars(o)) == set(before))
        for k, v in vars(o).items():
            c.oblige(f"transforming does not change what was learnt ({k})", v is before.get(k))
    return run


STEPS = [("core.pca", "PcaStep"), ("core.random_projection", "RandomProjectionStep"), ("tabular.standard_scaler", "TabularStandardScalerStep"),
         ("tabular.impute", "TabularImputeStep"), ("tabular.one_hot", "TabularOneHotStep"), ("text.tfidf", "TfidfStep"),
         ("text.vocab_tokenizer", "VocabTokenizerStep"), ("vision.zca_whitening", "ZcaWhiteningStep")]
DEP = ["numpy and scikit-learn functions (deterministic)"]
TASKS = [Task(f"{m}.{k}.fit", fit(m, k), [f"{m}.{k}.fit"], DEP, wall=120, must=("fitted",)) for m, k in STEPS]
TASKS += [Task(f"{m}.{k}.transform", transform(m, k), [f"{m}.{k}.transform"], DEP, wall=120, must=("transformed",)) for m, k in STEPS]
_pipe = [t for t in c06.TASKS if t.name in ("pipeline.preprocess [test split, fit rows]", "pipeline.preprocess [plain]")]
TASKS += _pipe
