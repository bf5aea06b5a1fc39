"""Paths stay inside their base; identifiers are never taken over; a request's identity determines the request."""
import types as T

from contracts.c03 import Digest, eqv
from contracts.lib import *
from pyvc import strings as S
from pyvc.maps import Key, Obj, SymMap, val_of
from pyvc.strings import APath, Txt

TRUSTED = ["pathlib: resolve() gives the canonical location and is_relative_to compares whole components",
           "canonical JSON text followed by SHA-256 is injective on identity payloads",
           "a class loaded twice from one import path is the same implementation"]
IO = "modssc.utils.io"
RG = "modssc.utils.registry"
SR = "modssc.supervised.registry"
AR = "modssc.data_augmentation.registry"
URI = "modssc.data_loader.uri"
SVC = "modssc.data_loader.services.service"
PR = "modssc.data_loader.providers."


# ---- paths ----------------------------------------------------------------------------------
def t_resolve(c):
    W = World()
    M = W.module(IO)
    M.__dict__["Path"] = S.path_of
    root, rel = APath.fresh("root"), Txt.fresh("relative")
    base = root.expanduser().resolve()
    try:
        r = M.resolve_relative_path(root, rel, purpose="x")
    except ValueError:
        c.cover("refused")
        where = (base / S.path_of(rel)).resolve()
        c.oblige("only a path that is absolute or leaves its base is refused", Or(S.is_abs(S.path_of(rel).t), Not(S.inside(where.t, base.t))))
        return
    c.cover("returns")
    c.oblige("the result is a canonical location", r.canonical)
    c.oblige("the result is inside the base", S.inside(r.t, base.t))
    c.oblige("the result is the location the relative path names", r.t == (base / S.path_of(rel)).resolve().t)
    c.oblige("an absolute path is refused", Not(S.is_abs(S.path_of(rel).t)))


class Opened(APath):
    """a location that may be opened only if it came from the checked resolution"""

    def stat(self):
        if ctx().choose(2, "stat fails"):
            raise OSError("stat")
        return ns(st_size=I("size"))

    def read_text(self, **k):
        ctx().ghost["opened"].append(self)
        return "text"


def reader_world(mod):
    c = ctx()
    c.ghost["opened"] = []

    def resolve(root, relative, *, purpose):
        c.ghost["asked"] = (root, relative)
        if c.choose(2, "leaves the base"):
            raise ValueError("leaves its base")
        p = Opened(APath.fresh("inside").t, canonical=True)
        c.ghost["checked"] = p
        return p

    W = World(stubs={f"{mod}:resolve_relative_path": resolve})
    M = W.module(mod)

    def load(p, **k):
        c.ghost["opened"].append(p)
        if c.choose(2, "damaged"):
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False" if c.choose(2, "pickled") else "damaged")
        return A.fresh_array("stored", (3,), "f")

    M.__dict__["np"] = T.SimpleNamespace(load=load, asarray=lambda x, **k: x, ndarray=object)
    M.__dict__["resolve_relative_path"] = resolve
    return W, M


def check_opened(c, root, rel, refusal):
    if refusal is not None:
        return
    c.cover("reads")
    c.oblige("only the checked location is opened", all(p is c.ghost.get("checked") for p in c.ghost["opened"]))
    a, b = c.ghost["asked"]
    c.oblige("the location is checked against the entry's own directory", a is root and b is rel)


def t_dataset_store(c):
    mod = "modssc.data_loader.storage.files"
    W, M = reader_world(mod)
    gz = []
    M.__dict__["_read_jsonl_gz"] = lambda p: (c.ghost["opened"].append(p), [])[1]
    M.__dict__["os"] = T.SimpleNamespace(environ=T.SimpleNamespace(get=lambda k, d=None: d))
    root, rel = APath.fresh("root"), Txt.fresh("relative")
    info = {"format": ("npy", "jsonl.gz", "other")[c.choose(3, "format")], "path": rel if c.choose(2, "has path") else 7, "allow_pickle": bool(c.choose(2, "ap"))}
    Err = M.__dict__["ManifestError"]
    try:
        M.FileStorage()._load_array(root, info)
    except (Err, ValueError) as e:
        c.cover("refused")
        if "checked" not in c.ghost:
            c.oblige("a refused location is reported as a damaged entry", type(e) is Err)
            c.oblige("nothing is opened before the location is checked", not c.ghost["opened"])
        else:
            check_opened(c, root, rel, None)
        return
    check_opened(c, root, rel, None)
    c.oblige("an entry without a path is refused", info["path"] is rel)


def t_artifact_store(c):
    mod = "modssc.preprocess.cache"
    W, M = reader_world(mod)
    root, rel = APath.fresh("root"), Txt.fresh("relative")
    desc = {"type": ("npy", "json", "torch_npy", "torch_pt", "other")[c.choose(5, "type")], "path": rel if c.choose(2, "has path") else None, "allow_pickle": bool(c.choose(2, "ap")),
            "format": ("ndarray", "")[c.choose(2, "nd")], "dtype": "torch.float32", "device": ""}

    def tload(p, **k):
        c.ghost["opened"].append(p)
        return ns()

    torch = T.SimpleNamespace(load=tload, as_tensor=lambda a, **k: a, float32="float32")
    M.__dict__["_require_torch"] = lambda: torch
    W.shims["json"] = T.SimpleNamespace(loads=lambda t: [1])
    Err = M.__dict__["PreprocessCacheError"]
    try:
        M._load_value(root, desc)
    except (Err, ValueError) as e:
        c.cover("refused")
        if "checked" not in c.ghost:
            c.oblige("a refused location is reported as a damaged entry", type(e) is Err)
            c.oblige("nothing is opened before the location is checked", not c.ghost["opened"])
        else:
            check_opened(c, root, rel, None)
        return
    check_opened(c, root, rel, None)
    c.oblige("an entry without a path is refused", desc["path"] is rel)


# ---- registries -----------------------------------------------------------------------------
class Ref:
    def __init__(self, method_id, import_path, status="implemented"):
        self.method_id, self.import_path, self.status = method_id, import_path, status


def t_register(c):
    """the registry is an arbitrary mapping; only the entry under the identifier matters, and only it may change"""
    W = World()
    f = W.fn(RG, "make_register_method")
    reg = SymMap.fresh("registry")
    mid = (Key(c.int("id")), "", 3)[c.choose(3, "identifier")]
    path = Txt.fresh("import_path")
    status = ("implemented", "planned", "other")[c.choose(3, "status")]
    old = None
    if isinstance(mid, Key):
        if c.choose(2, "taken"):
            old = Ref(mid, Txt.fresh("other_path"))
            reg[mid] = old
        else:
            t0 = mid.t
            h0 = reg._has
            reg._has = lambda x: And(x != t0, h0(x))
    h, v, ver = reg._has, reg._val, reg.version
    x = skolem("x")
    made = []

    def factory(**k):
        made.append(k)
        return Ref(**k)

    try:
        f(registry=reg, ref_factory=factory)(mid, path, status=status)
    except ValueError:
        c.cover("refused")
        c.oblige("a refused registration changes nothing", reg.version == ver)
        taken = old is not None
        bad = (not isinstance(mid, Key)) or status == "other"
        c.oblige("only an invalid or conflicting registration is refused",
                 Or(bad, Not(z3.Contains(path.t, z3.StringVal(":"))), And(taken, old.import_path.t != path.t) if taken else False))
        return
    c.cover("registered")
    c.oblige("an invalid registration is refused", isinstance(mid, Key) and status != "other")
    c.oblige("an import path names a module and a class", z3.Contains(path.t, z3.StringVal(":")))
    if old is not None:
        c.oblige("an identifier taken by another implementation is not given away", old.import_path.t == path.t)
    c.oblige("every other entry stays", Implies(x != mid.t, And(reg.has(x) == h(x), Implies(h(x), reg.val(x) == v(x)))))
    got = reg.get(mid)
    c.oblige("the identifier now names the registered implementation", isinstance(got, Ref) and got.import_path is path and got.method_id is mid and got.status == status)


def t_builtin_methods(c):
    """registering the built-in methods twice, or after a user's own registration of another id, changes no taken id"""
    for mod in ("modssc.inductive.registry", "modssc.transductive.registry"):
        W = World()
        M = W.module(mod)
        M.register_builtin_methods()
        reg = M._REGISTRY
        before = {k: (v.import_path, v.status) for k, v in reg.items()}
        M.register_builtin_methods()
        c.oblige(f"{mod}: registering the built-in methods again changes nothing", {k: (v.import_path, v.status) for k, v in reg.items()} == before)
        c.oblige(f"{mod}: every entry carries its own identifier", all(v.method_id == k for k, v in reg.items()) and len(reg) > 0)
        path = Txt.fresh("p")
        for k in sorted(reg)[:2]:
            c.assume(And(path.t != z3.StringVal(reg[k].import_path)))
            try:
                M.register_method(k, path)
                ok = False
            except ValueError:
                ok = True
            c.oblige(f"{mod}: a built-in identifier is not given away", ok)
    c.cover("returns")


def t_classifier(c):
    W = World()
    M = W.module(SR)
    key = "clf"
    old = None
    d1, d2 = Txt.fresh("desc"), Txt.fresh("desc2")
    pb = (("numpy",), ("torch",), ("numpy", "torch"))
    b1, b2 = pb[c.choose(3, "backends")], pb[c.choose(3, "backends2")]
    M.register_classifier(key="other", description="d", preferred_backends=("numpy",))
    if c.choose(2, "taken"):
        M.register_classifier(key=key, description=d1, preferred_backends=b1)
        M.register_backend(classifier_id=key, backend="numpy", factory="m:f")
        old = M._REGISTRY[key]
    other = M._REGISTRY["other"]
    try:
        M.register_classifier(key=key, description=d2, preferred_backends=b2)
    except ValueError:
        c.cover("refused")
        c.oblige("only a conflicting registration is refused", Or(d1.t != d2.t, b1 != b2) if old is not None else False)
        c.oblige("a refused registration changes nothing", M._REGISTRY.get(key) is old and len(M._REGISTRY) == 2)
        return
    c.cover("registered")
    now = M._REGISTRY[key]
    c.oblige("other classifiers stay", M._REGISTRY["other"] is other and set(M._REGISTRY) == {"other", key})
    if old is not None:
        c.oblige("a taken identifier with other metadata is refused", And(d1.t == d2.t, b1 == b2))
        c.oblige("registering again keeps the entry and its backends", now is old)
    else:
        c.oblige("the new entry is what was registered", now.key == key and now.description is d2 and now.preferred_backends == b2 and now.backends == {})


def t_backend(c):
    W = World()
    M = W.module(SR)
    M.register_classifier(key="clf", description="d", preferred_backends=("numpy",))
    M.register_classifier(key="other", description="d", preferred_backends=("numpy",))
    f1, f2 = Txt.fresh("factory"), Txt.fresh("factory2")
    have = c.choose(2, "taken")
    if have:
        M.register_backend(classifier_id="clf", backend="numpy", factory=f1)
    before, other = M._REGISTRY["clf"], M._REGISTRY["other"]
    b0 = dict(before.backends)
    cid = ("clf", "unknown")[c.choose(2, "classifier")]
    bk = ("numpy", "torch")[c.choose(2, "backend")]
    try:
        M.register_backend(classifier_id=cid, backend=bk, factory=f2, required_extra=None)
    except Exception as e:  # noqa: BLE001
        c.cover("refused")
        c.oblige("only an unknown classifier or a taken backend is refused", cid == "unknown" or (have == 1 and bk == "numpy"))
        c.oblige("a refused registration changes nothing", M._REGISTRY["clf"] is before and before.backends == b0 and "unknown" not in M._REGISTRY)
        return
    c.cover("registered")
    c.oblige("a taken backend is refused", cid == "clf" and not (have and bk == "numpy"))
    now = M._REGISTRY["clf"]
    c.oblige("the backend is what was registered", now.backends[bk].factory is f2 and now.backends[bk].backend == bk)
    c.oblige("the other backends stay", all(now.backends[k] is v for k, v in b0.items()) and len(now.backends) == len(b0) + 1)
    c.oblige("other classifiers stay", M._REGISTRY["other"] is other)


class Cls:
    """a class of which only the module and name are known"""

    op_id, modality = "x", "any"

    def __init__(self, name):
        self.__module__, self.__qualname__, self.__name__ = Txt.fresh(name + "_module"), Txt.fresh(name + "_name"), "Op"


def t_op(c):
    W = World()
    W.fstr_hook = S.fstr
    M = W.module(AR)
    M.__dict__["_RUNTIME_OPS"] = ops = {}
    kind = c.choose(3, "identifier")
    op = ("mine", "core.identity", "mine")[kind]
    new, old = Cls("new"), Cls("old")
    if kind == 2:
        ops[op] = new if c.choose(2, "same class") else old
    before = dict(ops)
    name = z3.Concat(new.__module__.t, z3.StringVal(":"), new.__qualname__.t)
    builtin = M._BUILTIN_OPS.get(op)
    try:
        r = M.register_op(op)(new)
    except M.DataAugmentationValidationError:
        c.cover("refused")
        c.oblige("only a taken identifier is refused", Or(op in before and before[op] is not new, name != z3.StringVal(builtin[0]) if builtin else False))
        c.oblige("a refused registration changes nothing", ops == before)
        return
    c.cover("registered")
    c.oblige("the class itself is returned and registered", r is new and ops == {**before, op: new})
    c.oblige("an identifier taken by another class is refused", op not in before or before[op] is new)
    if builtin:
        c.oblige("a built-in identifier is taken before it is loaded", name == z3.StringVal(builtin[0]))


# ---- dataset identifiers -----------------------------------------------------------------------
def strip(t):
    return S.strip_of(t)


def t_parse(c):
    W = World()
    W.fstr_hook = S.fstr
    M = W.module(URI)
    u = Txt.fresh("uri")
    has = z3.Contains(u.t, z3.StringVal(":"))
    is_u = M.is_uri(u)
    try:
        p = M.parse_uri(u)
    except M.InvalidDatasetURIError:
        c.cover("refused")
        c.oblige("what is refused is not an identifier of a provider dataset", Not(tb(is_u)))
        return
    c.cover("parsed")
    c.oblige("what is parsed is an identifier of a provider dataset", tb(is_u))
    c.oblige("only a text with a separator is parsed", has)
    a, b = u._cut(":")
    c.oblige("the provider is what stands before the first separator", p.provider.t == strip(a))
    c.oblige("the reference is everything after it", p.reference.t == strip(b))
    e = z3.StringVal("")
    c.oblige("neither part is empty", And(p.provider.t != e, p.reference.t != e))
    # the canonical form parses back to the same parts
    v = p.uri
    c.oblige("the canonical form joins provider and reference", v.t == z3.Concat(p.provider.t, z3.StringVal(":"), p.reference.t))


def t_parse_back(c):
    """provider (without separator) and reference, both stripped, survive their text form"""
    W = World()
    W.fstr_hook = S.fstr
    M = W.module(URI)
    prov, ref = Txt.fresh("provider"), Txt.fresh("reference")
    e = z3.StringVal("")
    S.without(prov.t, ":")
    S.stripped(prov.t)
    S.stripped(ref.t)
    c.assume(And(prov.t != e, ref.t != e))
    u = M.ParsedURI(provider=prov, reference=ref).uri
    a, b = u._cut(":")
    c.oblige("lemma: the first separator is the one written", And(a == prov.t, b == ref.t))
    p = M.parse_uri(u)
    c.cover("parsed")
    c.oblige("provider and reference survive their text form", And(p.provider.t == prov.t, p.reference.t == ref.t))


class Text:
    """the canonical text of a payload"""

    def __init__(self, payload, *, sort_keys=False, separators=None, ensure_ascii=True, default=None):
        if not sort_keys or default is not None:
            raise Unsupported("the text form is not canonical")
        self.payload = payload

    def encode(self, *a):
        return self


# -- identity ----------------------------------------------------------------------------------
def leaves(a, b):
    """equality of two payloads, leaf by leaf"""
    if isinstance(a, dict) and isinstance(b, dict):
        return And(set(a) == set(b), *[leaves(a[k], b[k]) for k in a if k in b])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And(len(a) == len(b), *[leaves(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, Txt) or isinstance(b, Txt):
        if not (isinstance(a, (Txt, str)) and isinstance(b, (Txt, str))):
            return z3.BoolVal(False)
        return S.sv(a) == S.sv(b)
    return eqv(a, b)


def options(c, tag, spec):
    """an arbitrary request: each option absent, None or any value of its type"""
    o = {}
    for name, kind in spec.items():
        if kind == "i":
            o[name] = I(name + tag)
        elif kind == "b":
            o[name] = B(name + tag)
        elif kind == "f":
            o[name] = R(name + tag)
        elif kind == "s":
            o[name] = Txt.fresh(name + tag)
    return o


def optional(c, o, names, tag):
    for n in names:
        q = c.choose(2, "absent " + n + tag)
        if q:
            o.pop(n)
    return o


PROVIDERS = {
    "toy": ("ToyProvider", dict(n_samples="i", n_features="i", n_classes="i", seed="i", official_test="b", test_size="f")),
    "torchvision": ("TorchvisionProvider", dict(max_train_samples="i", max_test_samples="i", seed="i", class_filter="i")),
    "torchaudio": ("TorchaudioProvider", dict(max_train_samples="i", max_test_samples="i", seed="i", class_filter="i")),
    "hf": ("HuggingFaceDatasetsProvider", dict(text_column="s", label_column="s", prefer_test_split="b", max_train_samples="i", max_test_samples="i", seed="i", class_filter="i")),
    "openml": ("OpenMLProvider", dict(as_frame="b", target_column="s", max_samples="i", seed="i", class_filter="i")),
    "pyg": ("PyGProvider", dict(max_nodes="i", seed="i", class_filter="i")),
    "tfds": ("TFDSProvider", dict(as_supervised="b")),
}


def identity_task(prov):
    cls, spec = PROVIDERS[prov]

    def run(c):
        W = World()
        W.fstr_hook = S.fstr
        M = W.module(PR + prov)
        U_ = W.module(URI)
        ref = "adult" if prov == "openml" else Txt.fresh("ref")
        P = getattr(M, cls)()
        # which options are given is arbitrary: one of them may be missing in either request, or all of the second
        names = list(spec)
        a = options(c, "_a", spec)
        b = options(c, "_b", spec)
        k = c.choose(len(names) + 1, "option under study")
        if k < len(names):
            n = names[k]
            d = c.choose(3, "how it is given")
            if d == 1:
                b.pop(n)
            elif d == 2:
                a.pop(n)
                b.pop(n)
        ia = P.resolve(U_.ParsedURI(provider=prov, reference=ref), options=dict(a))
        ib = P.resolve(U_.ParsedURI(provider=prov, reference=ref), options=dict(b))
        c.cover("returns")
        pa, pb_ = ia.fingerprint_payload(schema_version=1), ib.fingerprint_payload(schema_version=1)
        same = leaves(pa, pb_)
        for n in names:
            va, vb = a.get(n), b.get(n)
            if va is None and vb is None:
                continue
            if va is None or vb is None:
                x = va if vb is None else vb
                dflt = DEFAULTS.get((prov, n))
                same_req = leaves(x, dflt) if dflt is not None else z3.BoolVal(False)
            else:
                same_req = leaves(va, vb)
            c.oblige(f"requests that differ in {n} have different identities", Implies(same, same_req))
        c.oblige("equal requests have equal identities", Implies(And(*[leaves(a[n], b[n]) for n in names if n in a and n in b], set(a) == set(b)), same))

    return run


DEFAULTS = {("toy", "n_samples"): 64, ("toy", "n_features"): 4, ("toy", "n_classes"): 3, ("toy", "seed"): 0, ("toy", "official_test"): True, ("toy", "test_size"): 0.25,
            ("hf", "text_column"): "text", ("hf", "label_column"): "label", ("hf", "prefer_test_split"): True, ("openml", "as_frame"): False, ("tfds", "as_supervised"): True}


def t_refs(c):
    """two references of one provider with the same identity name the same dataset"""
    W = World()
    W.fstr_hook = S.fstr
    U_ = W.module(URI)
    prov = ("torchvision", "torchaudio")[c.choose(2, "provider")]
    M = W.module(PR + prov)
    P = getattr(M, PROVIDERS[prov][0])()
    ra, rb = Txt.fresh("ra"), Txt.fresh("rb")
    for r in (ra, rb):
        S.stripped(r.t)
        c.assume(r.t != z3.StringVal(""))
    ia, ib = (P.resolve(U_.ParsedURI(provider=prov, reference=r), options={}) for r in (ra, rb))
    c.cover("returns")
    same = leaves(ia.fingerprint_payload(schema_version=1), ib.fingerprint_payload(schema_version=1))
    c.oblige("different references have different identities", Implies(same, ra.t == rb.t))
    c.oblige("the provider is part of the identity", ia.fingerprint_payload(schema_version=1)["provider"] == prov)


def t_refs2(c):
    """name/part references"""
    W = World()
    W.fstr_hook = S.fstr
    U_ = W.module(URI)
    prov = ("hf", "tfds", "pyg")[c.choose(3, "provider")]
    M = W.module(PR + prov)
    P = getattr(M, PROVIDERS[prov][0])()
    e, parts, refs = z3.StringVal(""), [], []
    for tag in "ab":
        x = Txt.fresh("name_" + tag).t
        S.without(x, "/")
        S.stripped(x)
        y = None
        c.assume(x != e)
        if c.choose(2, "part " + tag):
            y = Txt.fresh("part_" + tag).t
            S.stripped(y)
            c.assume(y != e)
        r = x if y is None else z3.Concat(x, z3.StringVal("/"), y)
        S.stripped(r)
        parts.append((x, y))
        refs.append(Txt(r))
    ra, rb = refs
    ia, ib = (P.resolve(U_.ParsedURI(provider=prov, reference=r), options={}) for r in (ra, rb))
    c.cover("returns")
    same = leaves(ia.fingerprint_payload(schema_version=1), ib.fingerprint_payload(schema_version=1))
    (xa, ya), (xb, yb) = parts
    if (ya is None) != (yb is None):
        c.oblige("a reference with and one without a part have different identities", Not(same))
    else:
        c.oblige("different references have different identities", Implies(same, And(xa == xb, ya == yb if ya is not None else True)))


def t_identity(c):
    """the fingerprint covers every field that selects the data"""
    W = World()
    TY = W.module("modssc.data_loader.types")
    TY.__dict__["json"] = T.SimpleNamespace(dumps=Text)
    TY.__dict__["hashlib"] = T.SimpleNamespace(sha256=lambda b: T.SimpleNamespace(hexdigest=lambda: Digest(b.payload)))

    def make(tag):
        return TY.DatasetIdentity(provider=Txt.fresh("prov" + tag), canonical_uri=Txt.fresh("uri" + tag), dataset_id=Txt.fresh("id" + tag),
                                  version=Txt.fresh("ver" + tag) if c.choose(2, "version" + tag) else None, modality=Txt.fresh("mod" + tag), task=Txt.fresh("task" + tag),
                                  required_extra=Txt.fresh("extra" + tag), resolved_kwargs={"k": I("k" + tag), "l": [I("l" + tag)]})

    a, b = make("a"), make("b")
    pa, pb_ = a.fingerprint_payload(schema_version=1), b.fingerprint_payload(schema_version=1)
    same = leaves(pa, pb_)
    c.cover("returns")
    for f in ("provider", "canonical_uri", "dataset_id", "version", "modality", "task"):
        c.oblige(f"identities that differ in {f} have different fingerprints", Implies(same, leaves(getattr(a, f), getattr(b, f))))
    c.oblige("identities that differ in an option have different fingerprints", Implies(same, leaves(dict(a.resolved_kwargs), dict(b.resolved_kwargs))))
    fa = a.fingerprint(schema_version=1)
    c.oblige("the fingerprint is the digest of the whole payload", isinstance(fa, Digest) and c.entails(leaves(fa.payload, pa)))


def t_catalog(c):
    """a catalogue entry's options are what is resolved, the request's own options taking precedence"""
    log = []

    class Prov:
        def resolve(self, parsed, *, options):
            log.append((parsed, options))
            return TY.DatasetIdentity(provider="p", canonical_uri="p:x", dataset_id="x", version=None, modality="m0", task="t0", resolved_kwargs={"o": dict(options)})

    W = World(stubs={f"{SVC}:create_provider": lambda n: (log.append(("provider", n)), Prov())[1]})
    TY = W.module("modssc.data_loader.types")
    M = W.module(SVC)
    base = {"x": I("x0"), "y": I("y0")}
    M.__dict__["DATASET_CATALOG"] = {"key": TY.DatasetSpec(key="key", provider="p", uri="p:ref", modality="m1", task="t1", description="", source_kwargs=base)}
    given = {k: I(k + "1") for k in ("y", "z")[: c.choose(3, "options")]}
    req = ("key", "p:ref2", "nothing")[c.choose(3, "request")]
    g0, b0 = dict(given), dict(base)
    try:
        r = M._resolve_identity(TY.DatasetRequest(id=req, options=given))
    except M.UnknownDatasetError:
        c.cover("unknown")
        c.oblige("only a name that is neither in the catalogue nor an identifier is unknown", req == "nothing")
        return
    c.cover("resolved")
    c.oblige("an unknown name is refused", req != "nothing")
    want = {**b0, **g0} if req == "key" else g0
    parsed, opts = log[-1]
    c.oblige("the dataset's own provider resolves it", log[0] == ("provider", "p") and parsed.provider == "p" and parsed.reference == ("ref" if req == "key" else "ref2"))
    c.oblige("every option reaches the provider, the request's own values first", set(opts) == set(want) and all(opts[k] is want[k] for k in want))
    c.oblige("the catalogue and the request are not written", base == b0 and given == g0 if not given else set(base) == set(b0) and set(given) == set(g0))
    if req == "key":
        c.oblige("the catalogue names modality and task", r.modality == "m1" and r.task == "t1" and r.resolved_kwargs["o"] is not None)
    c.oblige("the resolved options are the identity's options", all(r.resolved_kwargs["o"][k] is want[k] for k in want))


TASKS = [
    Task("modssc.utils.io.resolve_relative_path", t_resolve, [IO + ":resolve_relative_path"]),
    Task("data_loader.FileStorage._load_array", t_dataset_store, ["modssc.data_loader.storage.files:FileStorage._load_array"], ["resolve_relative_path"]),
    Task("preprocess.cache._load_value", t_artifact_store, ["modssc.preprocess.cache:_load_value"], ["resolve_relative_path"]),
    Task("modssc.utils.registry.register_method_ref", t_register, [RG + ":make_register_method", RG + ":register_method_ref"]),
    Task("built-in method registries", t_builtin_methods, ["modssc.inductive.registry:register_builtin_methods", "modssc.transductive.registry:register_builtin_methods", RG + ":register_method_ref"]),
    Task("supervised.register_classifier", t_classifier, [SR + ":register_classifier", SR + ":register_backend"]),
    Task("supervised.register_backend", t_backend, [SR + ":register_backend"]),
    Task("data_augmentation.register_op", t_op, [AR + ":register_op"]),
    Task("data_loader.uri.parse_uri", t_parse, [URI + ":parse_uri", URI + ":is_uri", URI + ":ParsedURI.uri"]),
    Task("data_loader.uri.parse_uri (text form)", t_parse_back, [URI + ":parse_uri", URI + ":ParsedURI.uri"]),
] + [Task(f"providers.{p}.resolve", identity_task(p), [f"{PR}{p}:{PROVIDERS[p][0]}.resolve", "modssc.data_loader.types:DatasetIdentity.fingerprint_payload"]) for p in PROVIDERS] + [
    Task("providers: references", t_refs, [f"{PR}{p}:{PROVIDERS[p][0]}.resolve" for p in ("torchvision", "torchaudio")]),
    Task("providers: name/part references", t_refs2, [f"{PR}{p}:{PROVIDERS[p][0]}.resolve" for p in ("hf", "tfds", "pyg")]),
    Task("DatasetIdentity.fingerprint", t_identity, ["modssc.data_loader.types:DatasetIdentity.fingerprint", "modssc.data_loader.types:DatasetIdentity.fingerprint_payload"]),
    Task("data_loader._resolve_identity", t_catalog, [SVC + ":_resolve_identity"], ["provider.resolve"]),
]
NOT_DISCHARGED = []
