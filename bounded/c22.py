"""Run-time contract: paths stay inside their base, registrations never replace another implementation, identities are unambiguous."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np

from bounded.util import same
from modssc.data_augmentation import registry as areg
from modssc.data_augmentation.errors import DataAugmentationValidationError
from modssc.data_loader.catalog import DATASET_CATALOG
from modssc.data_loader.errors import DataLoaderError, InvalidDatasetURIError, ManifestError
from modssc.data_loader.providers import PROVIDERS, create_provider
from modssc.data_loader.services import service as svc
from modssc.data_loader.storage import FileStorage
from modssc.data_loader.types import DatasetIdentity, DatasetRequest, LoadedDataset, Split
from modssc.data_loader.uri import is_uri, parse_uri
from modssc.inductive import registry as ireg
from modssc.preprocess import cache as pcache
from modssc.preprocess.errors import PreprocessCacheError
from modssc.supervised import registry as sreg
from modssc.transductive import registry as treg
from modssc.utils.io import resolve_relative_path
from modssc.utils.registry import make_register_method
from vf.gen import REPO, Skip

RULE = ("relative paths over dot segments, separators, absolute paths and symbolic links in scratch directories; registration histories of up to 8 calls; "
        "dataset requests over every provider and option; distinct by input")
EXPLANATION = "Resolved paths are compared with os.path.realpath, registries with a reference dictionary, identities with equality of the effective request."

SEGS = ["a", "b", "..", ".", "", "...", "..a", "a..", "x y", "é", "link_in", "link_out", "link_abs", "~", "sub", "file.npy", "..\\a"]


def tree(g):
    top = Path(g.tmp) / "t"
    shutil.rmtree(top, ignore_errors=True)
    base = top / g.pick(["base", "d/base"])
    (base / "sub" / "a").mkdir(parents=True)
    (top / "outside").mkdir()
    (Path(str(base) + "evil")).mkdir()
    (base / "file.npy").write_bytes(b"x")
    os.symlink(base / "sub", base / "link_in")
    os.symlink(top / "outside", base / "sub" / "link_out")
    os.symlink("../outside" if base.parent == top else "../../outside", base / "link_out")
    os.symlink("/", base / "link_abs")
    root = base
    if g.bool(0.3):
        os.symlink(base, top / "alias")
        root = top / "alias"
    elif g.bool(0.2):
        root = base / "sub" / ".."
    elif g.bool(0.2):
        root = top / "not" / "there"
    return root


def rel(g, root):
    r = g.int(0, 9)
    s = "/".join(g.pick(SEGS) for _ in range(g.int(0, 6)))
    if r == 0:
        return "/" + s
    if r == 1:
        return str(root) + "/" + s
    if r == 2:
        return "../" + os.path.basename(str(root)) + g.pick(["", "/a", "evil", "evil/a", "/../" + os.path.basename(str(root))])
    return s


def inside(root, relative):
    """(real location, contained?)"""
    base = os.path.realpath(os.path.expanduser(str(root)))
    p = os.path.realpath(os.path.join(base, relative))
    return p, os.path.commonpath([base, p]) == base


def s_path(g):
    root = tree(g)
    s = rel(g, root)
    g.note(root=str(root), relative=s)
    p, ok = inside(root, s)
    if os.path.isabs(s) or not ok:
        g.raises(lambda: resolve_relative_path(root, s, purpose="test"), ValueError, f"{s!r} leaves its base and is not refused")
        return
    got = resolve_relative_path(root, s, purpose="test")
    g.require(str(got) == p, f"{s!r} resolves to {got}, not {p}")


def s_store(g):
    """a tampered manifest never makes the stores read outside their directory"""
    root = tree(g)
    base = Path(os.path.realpath(root))
    if not base.exists():
        base.mkdir(parents=True)
    which = g.pick(["dataset", "artifact"])
    outside = base.parent / "outside_array.npy"
    np.save(outside, np.arange(5))
    np.save(base / "own.npy", np.arange(3))
    s = g.pick([rel(g, base), "../outside_array.npy", str(outside), "sub/../../outside_array.npy", "own.npy", "./own.npy", "sub/../own.npy", "link_out/../own.npy"])
    g.note(which=which, path=s)
    p, ok = inside(base, s)
    ok = ok and not os.path.isabs(s)
    if which == "dataset":
        d = base / "ds"
        shutil.rmtree(d, ignore_errors=True)
        FileStorage().save(d, LoadedDataset(train=Split(X=np.zeros((3, 2)), y=np.arange(3)), test=None, meta={}))
        files = [f for f in d.glob("*.json") if '"path"' in f.read_text()]
        g.require(len(files) == 1, "no index file with array paths")
        doc = json.loads(files[0].read_text())

        def put(o):
            for k, v in o.items():
                if k == "y" and isinstance(v, dict) and "path" in v:
                    v["path"] = s
                elif isinstance(v, dict):
                    put(v)

        put(doc)
        files[0].write_text(json.dumps(doc))
        for f in ("own.npy",):
            shutil.copy(base / f, d / f)
        (d / "sub").mkdir(exist_ok=True)
        p, ok = inside(d, s)
        ok = ok and not os.path.isabs(s)
        try:
            out = FileStorage().load(d)
        except ManifestError:
            g.require(not (ok and os.path.isfile(p) and p.endswith("own.npy")), "a path inside the entry is refused")
            return
        except (OSError, ValueError, EOFError):
            g.require(ok, f"{s!r} leaves the entry and is opened")
            return
        g.require(ok, f"{s!r} leaves the entry and is read")
        if p.endswith("own.npy"):
            g.require(np.array_equal(out.train.y, np.arange(3)), "another array is read")
        return
    desc = {"type": g.pick(["npy", "json", "npz", "torch_npy"]), "path": s}
    try:
        pcache._load_value(base, desc)
    except PreprocessCacheError:
        g.require(not (ok and p.endswith("own.npy") and desc["type"] == "npy"), "a path inside the entry is refused")
        return
    except Exception as e:  # noqa: BLE001
        g.require(ok, f"{s!r} leaves the entry and is opened ({type(e).__name__})")
        return
    g.require(ok, f"{s!r} leaves the entry and is read")


# ---- registries ------------------------------------------------------------------------------
IDS = ["m1", "m2", "pseudo_label", "label_propagation", "supervised"]
PATHS = ["pkg.a:A", "pkg.b:B", "modssc.inductive.methods.pseudo_label:PseudoLabelMethod", "modssc.transductive.methods.classic.label_propagation:LabelPropagationMethod"]


def s_methods(g):
    mod = g.pick([ireg, treg, None])
    if mod is None:
        from dataclasses import dataclass

        reg = {}

        @dataclass(frozen=True)
        class Ref:
            method_id: str
            import_path: str
            status: str = "implemented"

        register = make_register_method(registry=reg, ref_factory=Ref)
    else:
        mod.register_builtin_methods()
        reg, register = mod._REGISTRY, mod.register_method
    saved = dict(reg)
    try:
        model = {k: v.import_path for k, v in reg.items()}
        hist = []
        for _ in range(g.int(1, 8)):
            mid, path, status = g.pick(IDS), g.pick(PATHS), g.pick(["implemented", "planned"])
            hist.append((mid, path, status))
            g.note(registry=getattr(mod, "__name__", "new"), history=hist)
            before = dict(reg)
            if mid in model and model[mid] != path:
                g.raises(lambda mid=mid, path=path, status=status: register(mid, path, status=status), ValueError, f"{mid!r} already belongs to {model[mid]} and is registered again as {path}")
                g.require(dict(reg) == before, "a refused registration changes the registry")
            else:
                register(mid, path, status=status)
                model[mid] = path
            g.require({k: v.import_path for k, v in reg.items()} == model, "the registry does not list what was registered")
            g.require(all(v.method_id == k for k, v in reg.items()), "an entry carries another identifier")
        for bad in (("", "a:b"), (3, "a:b"), ("zz", "ab")):
            g.raises(lambda bad=bad: register(*bad), ValueError, "an invalid registration is accepted")
        if mod is not None:
            mod.register_builtin_methods()
            g.require({k: v.import_path for k, v in reg.items()} == model, "loading the built-in methods again changes the registry")
            for k in list(saved)[:: max(1, len(saved) // 3)]:
                cls = mod.get_method_class(k)
                g.require(f"{cls.__module__}:{cls.__qualname__}" == saved[k].import_path, f"{k} gives {cls}")
    finally:
        reg.clear()
        reg.update(saved)


def s_ops(g):
    saved = dict(areg._RUNTIME_OPS)

    def make(name, mod="m"):
        return type(name, (), {"op_id": "x", "modality": "any", "__module__": mod, "__init__": lambda self: None})

    try:
        if g.bool(0.5):
            areg._RUNTIME_OPS.clear()          # as before the built-in modules are imported
        classes = [make("A"), make("B"), make("A")]
        ids = ["t.one", "t.two", *list(areg._BUILTIN_OPS)[:: g.int(3, 9)]]
        model = {}
        hist = []
        for _ in range(g.int(1, 8)):
            oid, k = g.pick(ids), g.int(0, 2)
            hist.append((oid, k))
            g.note(history=hist)
            taken = oid in areg._BUILTIN_OPS or (oid in model and model[oid] is not classes[k])
            if taken:
                g.raises(lambda oid=oid, k=k: areg.register_op(oid)(classes[k]), DataAugmentationValidationError, f"{oid} is taken by another operation and is registered again")
            else:
                g.require(areg.register_op(oid)(classes[k]) is classes[k], "registering returns another class")
                model[oid] = classes[k]
            for o, c in model.items():
                g.require(areg._get_cls(o) is c, f"{o} gives another operation than the one registered")
        o = g.pick(list(areg._BUILTIN_OPS))
        cls = areg._get_cls(o)
        g.require(f"{cls.__module__}:{cls.__qualname__}" == areg._BUILTIN_OPS[o][0], f"built-in {o} gives {cls}")
        g.require(set(areg.available_ops()) == set(areg._BUILTIN_OPS) | set(model) | (set(areg._RUNTIME_OPS) - set(model)), "available operations")
    finally:
        areg._RUNTIME_OPS.clear()
        areg._RUNTIME_OPS.update(saved)


def s_classifiers(g):
    sreg.ensure_bootstrap()
    saved = dict(sreg._REGISTRY)
    try:
        model = {k: (v.description, tuple(v.preferred_backends), {b: s.factory for b, s in v.backends.items()}) for k, v in sreg._REGISTRY.items()}
        hist = []
        for _ in range(g.int(1, 8)):
            key = g.pick(["c1", "c2", "knn", "logreg"])
            hist.append(key)
            if g.bool(0.5) or key not in model:
                d, pb = g.pick(["d1", "d2", saved["knn"].description]), g.pick([("sklearn", "numpy"), ("torch",)])
                hist[-1] = (key, d, pb)
                g.note(history=hist)
                if key in model and model[key][:2] != (d, pb):
                    g.raises(lambda key=key, d=d, pb=pb: sreg.register_classifier(key=key, description=d, preferred_backends=pb), ValueError, f"{key} is registered twice with different metadata")
                else:
                    sreg.register_classifier(key=key, description=d, preferred_backends=pb)
                    model.setdefault(key, (d, pb, {}))
            else:
                b, f = g.pick(["numpy", "b1", "b2"]), g.pick(["p:A", "p:B"])
                hist[-1] = (key, b, f)
                g.note(history=hist)
                if b in model[key][2]:
                    g.raises(lambda key=key, b=b, f=f: sreg.register_backend(classifier_id=key, backend=b, factory=f), ValueError, f"backend {b} of {key} is registered twice")
                else:
                    sreg.register_backend(classifier_id=key, backend=b, factory=f)
                    model[key][2][b] = f
            now = {k: (v.description, tuple(v.preferred_backends), {b: s.factory for b, s in v.backends.items()}) for k, v in sreg._REGISTRY.items()}
            g.require(now == model, "the registry does not hold what was registered")
            for k, m in model.items():
                for b, f in m[2].items():
                    if k in ("c1", "c2", "knn"):
                        g.require(sreg.get_backend_spec(k, b).factory == f and sreg.get_spec(k).key == k, "lookup gives another implementation")
    finally:
        sreg._REGISTRY.clear()
        sreg._REGISTRY.update(saved)


# ---- identities ------------------------------------------------------------------------------
def s_uri(g):
    parts = ["toy", "hf", "a", ":", "::", " ", "", "/", "\t", "default", "name=x,version=1", "é"]
    s = "".join(g.pick(parts) for _ in range(g.int(0, 6)))
    g.note(uri=s)
    head, sep, tail = s.partition(":")
    ok = bool(sep) and bool(head.strip()) and bool(tail.strip())
    g.require(is_uri(s) == ok, "is_uri disagrees with the grammar")
    if not ok:
        g.raises(lambda: parse_uri(s), InvalidDatasetURIError, f"{s!r} is parsed")
        return
    p = parse_uri(s)
    g.require((p.provider, p.reference) == (head.strip(), tail.strip()), f"parsed as {p}")
    q = parse_uri(p.uri)
    g.require(q == p, "parsing the canonical form gives another reference")


def opts(g, prov):
    """(reference, options) over every documented option of the provider"""
    cf = lambda: g.pick([None, [0], [1], [0, 1], [1, 0], ["0"], "a", 3, ["a", "b"]])  # noqa: E731
    n = lambda: g.pick([None, 1, 10, 100])  # noqa: E731
    seed = lambda: g.pick([None, 0, 1, 7])  # noqa: E731
    if prov == "toy":
        return "default", {"n_samples": g.pick([16, 64, 65]), "n_features": g.pick([2, 4]), "n_classes": g.pick([2, 3]), "seed": g.int(0, 2), "official_test": g.bool(), "test_size": g.pick([0.25, 0.5])}
    if prov == "openml":
        ref = g.pick(["61", "40945", "adult", "name=adult", "name=adult,version=2", "name=iris,version=1", "data_id=61"])
        o = {"as_frame": g.bool(), "target_column": g.pick([None, "t", "u"]), "class_filter": cf(), "max_samples": n(), "seed": seed(), "version": g.pick([None, 1, 2, "active"])}
        if o["version"] is None:
            del o["version"]
        return ref, o
    if prov == "hf":
        return g.pick(["imdb", "glue/sst2", "glue/mrpc", "glue"]), {"config": g.pick([None, "sst2", "x"]), "text_column": g.pick(["text", "sentence"]), "label_column": g.pick(["label", "y"]),
                "prefer_test_split": g.bool(), "class_filter": cf(), "max_train_samples": n(), "max_test_samples": n(), "seed": seed()}
    if prov == "tfds":
        return g.pick(["mnist", "mnist/3.0.1", "cifar10"]), {"as_supervised": g.bool()}
    if prov == "pyg":
        return g.pick(["Planetoid/Cora", "Planetoid/CiteSeer", "KarateClub"]), {"class_filter": cf(), "max_nodes": n(), "seed": seed()}
    return g.pick(["MNIST", "CIFAR10", "YESNO"]), {"class_filter": cf(), "max_train_samples": n(), "max_test_samples": n(), "seed": seed()}


def effective(prov, ref, o):
    """what the request asks for (independent of how it is spelled)"""
    e = dict(o)
    if "class_filter" in e:
        c = e["class_filter"]
        e["class_filter"] = None if c is None else (list(c) if isinstance(c, list) else [c])
    if prov == "openml":
        base = {"data_id": int(ref)} if ref.isdigit() else dict(p.split("=") for p in ref.split(",") if "=" in p)
        if "data_id" in base:
            base["data_id"] = int(base["data_id"])
        if str(base.get("version", "")).isdigit():
            base["version"] = int(base["version"])
        base["ref"] = None if base else ref
        e = {**base, **e}
        e.setdefault("version", None)
        e["name"] = e.get("name")
        if e["ref"]:
            e["name"] = e["ref"]
    elif prov == "hf":
        name, _, cfg = ref.partition("/")
        e["name"], e["config"] = name, cfg or e["config"]
    else:
        e["ref"] = ref
    return json.dumps([prov, e], sort_keys=True)


def fp(prov, ref, o):
    return svc._resolve_identity(DatasetRequest(id=f"{prov}:{ref}", options=o)).fingerprint(schema_version=svc.SCHEMA_VERSION)


def shuffle(g, o):
    return {k: o[k] for k in g.rng.permutation(list(o)).tolist()}


def s_identity(g):
    prov = g.pick(sorted(PROVIDERS))
    ref, o = opts(g, prov)
    o0 = json.dumps(o)
    a = fp(prov, ref, o)
    g.require(json.dumps(o) == o0, "resolving changes the options")
    sp = g.pick([" ", "\t", ""])
    idn = svc._resolve_identity(DatasetRequest(id=f"{sp}{prov}{sp}:{sp}{ref}{sp}", options=shuffle(g, o)))
    g.note(provider=prov, reference=ref, options=o)
    g.require(idn.fingerprint(schema_version=1) == a, "the same request has two identities")
    g.require(idn.fingerprint(schema_version=2) != a, "the identity does not depend on the schema version")
    ref2, o2 = ref, dict(o)
    if g.bool(0.75):
        k = g.pick(sorted(o))
        ro, oo = opts(g, prov)
        if k not in oo:
            raise Skip
        o2[k] = oo[k]
    else:
        ref2 = opts(g, prov)[0]
    b = fp(prov, ref2, o2)
    eq = effective(prov, ref, o) == effective(prov, ref2, o2)
    g.note(reference2=ref2, options2=o2)
    if not eq:
        # two spellings of the same data set may be told apart, but different ones never coincide
        g.require(a != b, "two different requests share one identity")
    else:
        g.require(a == b, "two spellings of the same options differ")


def s_fields(g):
    """every identity field that names the data is part of the identity"""
    val = lambda: g.pick(["a", "b", "a:b", "", "1"])  # noqa: E731
    kw = lambda: {g.pick(["k", "m"]): g.pick([1, "1", 1.5, None, True, [1, 2], [[1], 2], {"a": 1}, {"a": [1]}])}  # noqa: E731

    def mk():
        return {"provider": val(), "canonical_uri": val(), "dataset_id": val(), "version": g.pick([None, "1", "None", "2"]), "modality": val(), "task": val(), "resolved_kwargs": kw()}

    d = mk()
    a = DatasetIdentity(**d).fingerprint(schema_version=1)
    e = dict(d)
    k = g.pick(sorted(d))
    e[k] = mk()[k]
    g.note(first=d, second=e)
    b = DatasetIdentity(**e, required_extra=g.pick([None, "x"])).fingerprint(schema_version=1)
    g.require((a == b) == (json.dumps(d, sort_keys=True) == json.dumps(e, sort_keys=True)), "equal identities have different fields or the other way round")
    g.raises(lambda: DatasetIdentity(**{**d, "resolved_kwargs": {"k": object()}}).fingerprint(schema_version=1), ValueError, "an identity that cannot be written down gets a fingerprint")


def s_catalog(g):
    fps = {}
    for key, spec in DATASET_CATALOG.items():
        idn = svc._resolve_identity(DatasetRequest(id=key))
        g.require(idn.provider == parse_uri(spec.uri).provider and (idn.modality, idn.task) == (spec.modality, spec.task), f"{key} resolves to {idn}")
        fps.setdefault(idn.fingerprint(schema_version=1), []).append(key)
    for ks in fps.values():
        payload = {json.dumps([DATASET_CATALOG[k].uri, DATASET_CATALOG[k].source_kwargs, DATASET_CATALOG[k].modality, DATASET_CATALOG[k].task], sort_keys=True, default=str) for k in ks}
        g.require(len(payload) == 1, f"catalog entries {ks} share one identity")
    k = g.pick(sorted(DATASET_CATALOG))
    a = svc._resolve_identity(DatasetRequest(id=k))
    o = {"seed": 991, "max_samples": 3, "max_train_samples": 3, "max_nodes": 3, "as_supervised": False}
    b = svc._resolve_identity(DatasetRequest(id=k, options=o))
    g.note(key=k)
    g.require(a.fingerprint(schema_version=1) != b.fingerprint(schema_version=1), "options given with a catalog key are not part of the identity")
    g.raises(lambda: svc._resolve_identity(DatasetRequest(id=g.pick(["nope", "nope:x", ":", "toy:", k + "x", k.upper() + " "]))), DataLoaderError, "an unknown dataset resolves")


def s_process(g):
    """set-valued filters do not make the identity depend on the process"""
    vals = [f"c{i}" for i in range(g.int(3, 6))]
    prov = g.pick(["openml", "torchvision", "pyg", "hf"])
    g.note(provider=prov, classes=vals)
    code = ("import sys; from modssc.data_loader.services import service as s; from modssc.data_loader.types import DatasetRequest as R;"
            f"print(s._resolve_identity(R(id='{prov}:X', options={{'class_filter': set({vals!r})}})).fingerprint(schema_version=1))")
    out = set()
    for h in ("1", "2", "3"):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=REPO + "/src")
        r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise RuntimeError(r.stderr[-500:])
        out.add(r.stdout.strip())
    g.require(len(out) == 1, "the same request has different identities in different processes")


def s_load(g):
    """every request gets its own data, whatever else was loaded into the cache"""
    cache = Path(g.tmp) / "c"
    shutil.rmtree(cache, ignore_errors=True)
    hist = []
    for _ in range(g.int(2, 5)):
        _, o = opts(g, "toy")
        o["n_samples"] = g.pick([8, 12])
        if g.bool(0.5) and hist:
            o = {**hist[-1], g.pick(sorted(o)): o[g.pick(sorted(o))]} if g.bool(0.3) else dict(hist[-1])
            o["n_samples"], o["n_features"], o["n_classes"] = max(4, int(o["n_samples"])), max(1, int(o["n_features"])), max(2, int(o["n_classes"]))
            o["test_size"] = min(0.5, float(o["test_size"]))
            o["seed"] = int(o["seed"])
        hist.append(o)
        g.note(history=hist)
        idn = svc._resolve_identity(DatasetRequest(id="toy:default", options=o))
        want = create_provider("toy").load_canonical(idn, raw_dir=cache)
        got = svc.load_dataset("toy:default", cache_dir=cache, options=shuffle(g, o), force=g.bool(0.2))
        g.require(same(got.train, want.train) is None and same(got.test, want.test) is None, f"a request is served another request's data: {same(got.train, want.train)}")
        g.require(got.meta["dataset_fingerprint"] == idn.fingerprint(schema_version=svc.SCHEMA_VERSION), "the data carries another identity")


SCENARIOS = [("path", s_path, 600, 1), ("store", s_store, 200, 1), ("methods", s_methods, 150, 1), ("ops", s_ops, 150, 1), ("classifiers", s_classifiers, 150, 1),
             ("uri", s_uri, 300, 1), ("identity", s_identity, 800, 1), ("fields", s_fields, 300, 1), ("catalog", s_catalog, 4, 1), ("process", s_process, 2, 1), ("load", s_load, 25, 1)]
