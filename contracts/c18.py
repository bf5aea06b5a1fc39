"""Augmentation: each operation's effect on numpy input, its frame, and where its randomness comes from."""
import dataclasses

from contracts.lib import *

P = "modssc.data_augmentation"
OPS = f"{P}.ops"
TRUSTED = ["torch tensors and text tokens take the bounded route (numpy arrays are proved)",
           "np.roll, np.flip, np.pad, Generator draws by their documentation"]
W = World(stubs={f"{P}.registry:register_op": lambda op_id: lambda cls: cls})


def tensor(c, name="x", ranks=(1, 2, 3), kind="f"):
    r = ranks[c.choose(len(ranks), "rank")]
    shp = []
    for q in range(r):
        d = c.int(f"{name}_d{q}")
        c.assume(d >= 0)
        shp.append(d)
    a = A.fresh_array(name, tuple(shp), kind)
    a.frozen = True
    return a


def at_any(c, a):
    """an arbitrary position of a"""
    ix = [skolem(f"p{q}") for q in range(a.ndim)]
    c.assume(And(*[And(u >= 0, u < A.dz(s)) for u, s in zip(ix, a._shape)]))
    return ix


def apply(c, mod, cls, x, **params):
    """op(x) with its generator; the operation object keeps no state, no other source of randomness is used"""
    c.ghost["no global state"] = True
    op = W.fn(f"{OPS}.{mod}", cls)(**params)
    before = dict(vars(op))
    rng = SRng()
    context = W.fn(f"{P}.types", "AugmentationContext")(seed=I("seed"), sample_id=I("sample"), epoch=I("epoch"))
    bad = None
    try:
        out = op(x, rng=rng, ctx=context)
    except ValueError as e:
        bad, out = e, None
    c.oblige("the operation keeps no state", vars(op).keys() == before.keys() and all(vars(op)[k] is before[k] for k in before))
    c.oblige("no generator but the context's is used", not c.ghost.get("rng_seeds"))
    return out, bad, rng


def shape_kept(c, out, x):
    c.oblige("the shape is kept", out.ndim == x.ndim and And(*[A.dz(s) == A.dz(t) for s, t in zip(out._shape, x._shape)]))


def prob(c):
    p = R("p")
    return p, And(p.t >= 0, p.t <= 1)


def t_noise(mod, cls):
    def run(c):
        x = tensor(c)
        std = R("std")
        out, bad, rng = apply(c, mod, cls, x, std=std)
        if bad:
            c.cover("refused")
            c.oblige("only a negative spread is refused", std.t < 0)
            return
        c.cover("returns")
        shape_kept(c, out, x)
        c.oblige("without noise the input comes back", Implies(std.t == 0, out.at(*(ix := at_any(c, x))) == x.at(*ix)))
        c.oblige("without noise nothing is drawn", Implies(std.t == 0, rng.draws == 0))
    return run


def t_dropout(mod, cls, graph=False):
    def run(c):
        x = tensor(c, kind=("f", "i")[c.choose(2, "type")] if not graph else "f", ranks=(2,) if graph else (1, 2, 3))
        p, ok = prob(c)
        if graph:
            g, parts = container(c, x)
            o, bad, rng = apply(c, mod, cls, g, p=p)
            out = None if bad else parts(o)[0]
        else:
            out, bad, rng = apply(c, mod, cls, x, p=p)
        if bad:
            c.cover("refused")
            c.oblige("only an impossible probability is refused", Not(ok))
            return
        c.cover("returns")
        c.oblige("an impossible probability is refused", ok)
        shape_kept(c, out, x)
        ix = at_any(c, x)
        c.oblige("an entry is kept or becomes zero", Or(out.at(*ix) == x.at(*ix), out.at(*ix) == 0))
        c.oblige("probability zero drops nothing", Implies(p.t == 0, out.at(*ix) == x.at(*ix)))
        c.oblige("probability one drops everything", Implies(p.t == 1, out.at(*ix) == 0))
        if graph:
            c.oblige("edges and weights are untouched", parts(o)[1] is parts(g)[1] and parts(o)[2] is parts(g)[2])
    return run


def t_swap_noise(c):
    x = tensor(c)
    p, ok = prob(c)
    out, bad, rng = apply(c, "tabular", "SwapNoise", x, p=p)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible probability is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible probability is refused", ok)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    c.oblige("probability zero swaps nothing", Implies(p.t == 0, out.at(*ix) == x.at(*ix)))


def t_token_mask(c):
    x = tensor(c, ranks=(1, 2), kind="i")
    p, ok = prob(c)
    mask, pad = I("mask"), I("pad")
    out, bad, rng = apply(c, "text", "TokenMask", x, p=p, mask_token_id=mask, pad_token_id=pad)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible probability is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible probability is refused", ok)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    o, v = out.at(*ix), x.at(*ix)
    c.oblige("a token is kept or masked", Or(o == v, o == mask.t))
    c.oblige("padding is never masked", Implies(v == pad.t, o == v))
    c.oblige("probability zero masks nothing", Implies(p.t == 0, o == v))
    c.oblige("probability one masks every token", Implies(And(p.t == 1, v != pad.t), o == mask.t))


def t_token_swap(c):
    """one sequence: the same tokens, padding in place"""
    x = tensor(c, ranks=(1,), kind="i")
    x.cnt(z3.IntVal(0))
    pad, q = I("pad"), I("swaps")
    c.ghost["loop consts"] = [pad.t]
    out, bad, rng = apply(c, "text", "TokenSwap", x, n_swaps=q, pad_token_id=pad)
    c.cover("returns")
    c.oblige("nothing is refused", bad is None)
    shape_kept(c, out, x)
    t, i = skolem("t"), skolem("i")
    c.oblige("the same tokens, each as often", out.cnt(t) == x.cnt(t))
    c.assume(And(i >= 0, i < x.sz))
    c.oblige("padding stays where it is", (out.at(i) == pad.t) == (x.at(i) == pad.t))
    c.oblige("no swap, no change", Implies(q.t <= 0, out.at(i) == x.at(i)))


def container(c, x):
    """a graph in one of the three containers, with a reader of its parts"""
    n, E = x._shape[0], c.int("edges")
    c.assume(E >= 0)
    ei = A.fresh_array("ei", (2, E), "i")
    w = A.fresh_array("w", (E,), "f") if c.choose(2, "weighted") else None
    ei.frozen = True
    if w is not None:
        w.frozen = True
    k = c.choose(3, "container")
    if k == 0:
        g = W.fn(f"{P}.types", "GraphSample")(x=x, edge_index=ei, edge_weight=w, meta={"m": 1})
    elif k == 1:
        g = {"x": x, "edge_index": ei, "other": "o"}
        if w is not None:
            g["edge_weight"] = w
    else:
        g = ns(x=x, edge_index=ei, other="o")
        if w is not None:
            g.edge_weight = w

    def parts(o):
        get = (lambda q: o.get(q)) if isinstance(o, dict) else (lambda q: getattr(o, q, None))
        return get("x"), get("edge_index"), get("edge_weight")

    before = (dict(g) if isinstance(g, dict) else dict(vars(g)))
    c.ghost["container"] = (g, before)
    return g, parts


def same_container(c, o):
    g, before = c.ghost["container"]
    now = dict(g) if isinstance(g, dict) else dict(vars(g))
    c.oblige("the input graph is not modified", now.keys() == before.keys() and all(now[q] is before[q] for q in now))
    rest = (lambda u: {q: v for q, v in (dict(u) if isinstance(u, dict) else dict(vars(u))).items() if q not in ("x", "edge_index", "edge_weight")})
    c.oblige("the graph's other entries are kept", type(o) is type(g) and rest(o) == rest(g))


def t_edges(c):
    c.ghost["selection order"] = True
    x = tensor(c, ranks=(2,))
    g, parts = container(c, x)
    p, ok = prob(c)
    o, bad, rng = apply(c, "graph", "EdgeDropout", g, p=p)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible probability is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible probability is refused", ok)
    same_container(c, o)
    (X, ei, w), (Y, fi, v) = parts(g), parts(o)
    c.oblige("node features are untouched", Y is X)
    c.oblige("weights neither appear nor disappear", (v is None) == (w is None))
    M, E = A.dz(fi._shape[1]), A.dz(ei._shape[1])
    c.oblige("edges stay a two-row array", And(A.dz(fi._shape[0]) == 2, M <= E))
    z0, z1 = z3.IntVal(0), z3.IntVal(1)
    k, k2 = skolem("k"), skolem("k2")
    c.assume(And(k >= 0, k < M, k2 > k, k2 < M))
    s = c.int("source")  # some input edge is the k-th output edge, with its weight
    b = c.bool("no such edge")
    A.forall(lambda e: Implies(And(b, e >= 0, e < E), Not(And(ei.at(z0, e) == fi.at(z0, k), ei.at(z1, e) == fi.at(z1, k), True if w is None else w.at(e) == v.at(k)))))
    for key, sel in list(c.ghost.items()):
        if isinstance(key, tuple) and key[0] == "sel" and sel is not None:
            A.add_probe(sel(k))
    A.add_probe(k)
    if v is not None:
        c.oblige("edges and weights stay aligned", A.dz(v._shape[0]) == M)
    c.oblige("every edge, with its weight, is one of the input's", Not(b))
    c.oblige("probability zero drops no edge", Implies(p.t == 0, M == E))
    c.oblige("probability one drops every edge", Implies(p.t == 1, M == 0))


def t_shift(c):
    x = tensor(c, ranks=(1, 2))
    f = R("max_frac")
    out, bad, rng = apply(c, "audio", "TimeShift", x, max_frac=f)
    ok = And(f.t >= 0, f.t <= 1)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible fraction is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible fraction is refused", ok)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    L = A.dz(x._shape[-1])
    # each output sample is an input sample of the same channel
    b = c.bool("no such sample")
    A.forall(lambda e: Implies(And(b, e >= 0, e < L), out.at(*ix) != x.at(*ix[:-1], e)))
    for t in positions(out.at(*ix), x.decl):
        A.add_probe(t[-1])
    c.oblige("every sample comes from the same channel", Not(b))
    c.oblige("no shift, no change", Implies(f.t == 0, out.at(*ix) == x.at(*ix)))


def positions(t, decl):
    """argument tuples of every application of decl in t"""
    seen, todo, out = set(), [t], []
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().eq(decl):
                out.append(u.children())
            todo.extend(u.children())
    return out


def t_flip(c):
    x = tensor(c, ranks=(2, 3))
    p, ok = prob(c)
    out, bad, rng = apply(c, "vision", "RandomHorizontalFlip", x, p=p)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible probability is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible probability is refused", ok)
    shape_kept(c, out, x)
    i, j, k = skolem("i"), skolem("j"), skolem("k")
    if x.ndim == 2:
        H, Wd = (A.dz(s) for s in x._shape)
        rng_ = And(i >= 0, i < H, j >= 0, j < Wd)
        same, flipped = out.at(i, j) == x.at(i, j), out.at(i, j) == x.at(i, Wd - 1 - j)
    else:
        d = [A.dz(s) for s in x._shape]
        few = lambda t: Or(t == 1, t == 3, t == 4)  # noqa: E731
        chw = And(few(d[0]), Not(few(d[2])))
        rng_ = And(i >= 0, i < d[0], j >= 0, j < d[1], k >= 0, k < d[2])
        o = out.at(i, j, k)
        same, flipped = o == x.at(i, j, k), If(chw, o == x.at(i, j, d[2] - 1 - k), o == x.at(i, d[1] - 1 - j, k))
    b = c.bool("kept")  # the whole image is kept or the whole image is mirrored
    c.oblige("the image is kept or mirrored from left to right", Or(Implies(rng_, same), Implies(rng_, flipped)))
    c.oblige("probability zero keeps the image", Implies(And(p.t == 0, rng_), same))
    c.oblige("probability one mirrors the image", Implies(And(p.t == 1, rng_), flipped))


def t_cutout(c):
    x = tensor(c, ranks=(2, 3))
    fill = R("fill")
    c.ghost["loop consts"] = [fill.t]
    if c.choose(2, "fraction"):
        f = R("frac")
        kw, none = dict(frac=f), f.t == 0
        ok = And(f.t >= 0, f.t <= 1)
    else:
        n, L = I("holes"), I("length")
        kw, none, ok = dict(n_holes=n, length=L), Or(n.t <= 0, L.t <= 0), z3.BoolVal(True)
    out, bad, rng = apply(c, "vision", "Cutout", x, fill=fill, **kw)
    if bad:
        c.cover("refused")
        c.oblige("only an impossible fraction is refused", Not(ok))
        return
    c.cover("returns")
    c.oblige("an impossible fraction is refused", ok)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    c.oblige("a pixel is kept or filled", Or(out.at(*ix) == x.at(*ix), out.at(*ix) == fill.t))
    c.oblige("no hole, no change", Implies(none, out.at(*ix) == x.at(*ix)))


def t_crop(c):
    x = tensor(c, ranks=(2, 3))
    pad = I("padding")
    out, bad, rng = apply(c, "vision", "RandomCropPad", x, **({"pad": pad} if c.choose(2, "pad") else {"padding": pad}))
    c.assume(And(*[A.dz(s) >= 1 for s in x._shape]))
    if bad:
        c.cover("refused")
        c.oblige("only a negative padding is refused", pad.t < 0)
        return
    c.cover("returns")
    c.oblige("a negative padding is refused", pad.t >= 0)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    o = out.at(*ix)
    at = positions(o, x.decl)
    c.oblige("every pixel is one of the image's", len(at) == 1 and And(o == x.at(*at[0]), *[And(u >= 0, u < A.dz(s)) for u, s in zip(at[0], x._shape)]))
    d = [A.dz(s) for s in x._shape]
    if x.ndim == 3:
        few = lambda t: Or(t == 1, t == 3, t == 4)  # noqa: E731
        chw = And(few(d[0]), Not(few(d[2])))
        c.oblige("channels are not mixed", If(chw, at[0][0] == ix[0], at[0][2] == ix[2]))
    c.oblige("no padding, no change", Implies(pad.t == 0, o == x.at(*ix)))


def t_plain(c):
    x = tensor(c)
    k = c.choose(2, "op")
    out, bad, rng = apply(c, "core", ("Identity", "EnsureFloat32")[k], x)
    c.cover("returns")
    c.oblige("nothing is refused", bad is None)
    shape_kept(c, out, x)
    ix = at_any(c, x)
    c.oblige("the values are kept", out.at(*ix) == x.at(*ix))
    c.oblige("nothing is drawn", rng.draws == 0)


def t_seed(c):
    """the generator's seed is a function of seed, epoch and sample id, and the hashed text tells them apart"""
    hashed = []

    class Text:
        def __init__(self, parts):
            self.parts = parts

        def encode(self, *a):
            return self

    class Digest:
        def __init__(self, data=b"", **_k):
            hashed.append(data)

        def digest(self):
            return self

        hexdigest = digest

    value = c.int("digest")
    c.assume(value >= 0)
    Wp = World(stubs={f"{P}.utils:_u64_from_bytes": lambda b: SymInt(value)}, shims={"hashlib": ns(blake2b=Digest, sha256=Digest, sha1=Digest, md5=Digest, blake2s=Digest)})
    Wp.fstr_hook = Text
    rngs = []
    s, e, i = I("seed"), I("epoch"), I("sample")
    Wp.fn(f"{P}.utils", "make_numpy_rng")(seed=s, epoch=e, sample_id=i)
    seeds = c.ghost.get("rng_seeds", [])
    c.cover("returns")
    c.oblige("one generator is made", len(seeds) == 1)
    c.oblige("from a 32-bit number", And(ti(seeds[0]) >= 0, ti(seeds[0]) < 2**32))
    c.oblige("one text is hashed", len(hashed) == 1)
    parts = hashed[0].parts
    nums = [q[0] if isinstance(q, tuple) else q for q in parts if not isinstance(q, str)]
    known = {s.t.get_id(): "seed", e.t.get_id(): "epoch", i.t.get_id(): "sample"}
    names = [known.get(q.t.get_id()) if isinstance(q, SymInt) else None for q in nums]
    c.oblige("the text is made of seed, epoch and sample id", sorted(map(str, names)) == ["epoch", "sample", "seed"])
    kinds = ["s" if isinstance(q, str) else "n" for q in parts]
    c.oblige("the numbers are set apart in the text", all(not (a == "n" and b == "n") for a, b in zip(kinds, kinds[1:])) and all(isinstance(q, tuple) or not any(ch in "0123456789-+" for ch in q) for q in parts))


def t_pipeline(c):
    """apply: one generator, made from the context's seed, epoch and sample id, handed to every operation in order"""
    made = []

    def make(*, seed, epoch=0, sample_id=0):
        r = SRng()
        made.append((seed, epoch, sample_id, r))
        return r

    Wp = World(stubs={f"{P}.utils:make_numpy_rng": make, f"{P}.api:make_numpy_rng": make})
    q = c.choose(4, "operations")
    calls = []

    def op(i):
        def call(x, *, rng, ctx):
            calls.append((i, x, rng, ctx))
            return ("out", i)
        return call

    Pipe = Wp.fn(f"{P}.api", "AugmentationPipeline")
    context = Wp.fn(f"{P}.types", "AugmentationContext")(seed=I("seed"), sample_id=I("sample"), epoch=I("epoch"), backend=("auto", "numpy")[c.choose(2, "backend")])
    pipe = Pipe(plan=None, ops=tuple(op(i) for i in range(q)))
    x = ("input",)
    for turn in range(2):  # whatever was augmented before
        made.clear(), calls.clear()
        out = pipe.apply(x, ctx=context) if turn else pipe(x, ctx=context)
        c.cover("returns")
        c.oblige("one generator per application", len(made) == 1)
        s, e, i, r = made[0]
        c.oblige("it is made from the context's seed, epoch and sample id", And(ti(s) == context.seed.t, ti(e) == context.epoch.t, ti(i) == context.sample_id.t))
        c.oblige("every operation is applied once, in order, to the previous one's output, with that generator",
                 [z[0] for z in calls] == list(range(q)) and all(z[2] is r and z[3] is context for z in calls)
                 and all(z[1] == (x if z[0] == 0 else ("out", z[0] - 1)) for z in calls))
        c.oblige("the last output is returned", out == (("out", q - 1) if q else x))


def T(name, run, fn, **k):
    return Task(name, run, [f"{OPS}.{fn}"], **k)


TASKS = [
    Task("utils.make_numpy_rng", t_seed, [f"{P}.utils.make_numpy_rng", f"{P}.utils.seed_to_rng_seed"]),
    Task("api.AugmentationPipeline", t_pipeline, [f"{P}.api.AugmentationPipeline.apply", f"{P}.api.make_context_rng"]),
    T("core.Identity/EnsureFloat32", t_plain, "core.EnsureFloat32.apply"),
    T("tabular.GaussianNoise", t_noise("tabular", "GaussianNoise"), "tabular.GaussianNoise.apply"),
    T("audio.AddNoise", t_noise("audio", "AddNoise"), "audio.AddNoise.apply"),
    T("vision.GaussianNoise", t_noise("vision", "GaussianNoise"), "vision.GaussianNoise.apply"),
    T("tabular.FeatureDropout", t_dropout("tabular", "FeatureDropout"), "tabular.FeatureDropout.apply"),
    T("graph.FeatureMask", t_dropout("graph", "FeatureMask", True), "graph.FeatureMask.apply"),
    T("tabular.SwapNoise", t_swap_noise, "tabular.SwapNoise.apply"),
    T("text.TokenMask", t_token_mask, "text.TokenMask.apply"),
    T("text.TokenSwap", t_token_swap, "text.TokenSwap.apply"),
    T("graph.EdgeDropout", t_edges, "graph.EdgeDropout.apply"),
    T("audio.TimeShift", t_shift, "audio.TimeShift.apply"),
    T("vision.RandomHorizontalFlip", t_flip, "vision.RandomHorizontalFlip.apply"),
    T("vision.Cutout", t_cutout, "vision.Cutout.apply"),
    T("vision.RandomCropPad", t_crop, "vision.RandomCropPad.apply"),
]
