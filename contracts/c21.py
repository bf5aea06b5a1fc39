"""Sparse graph operators and solvers compute the mathematical operator."""
from contracts.lib import *
from pyvc.thshim import Tok, th_shim
from pyvc.values import ndiv, nmul, ssqrt

P = "modssc.transductive"
NB, TB, MU, CL, OP = f"{P}.backends.numpy_backend", f"{P}.backends.torch_backend", f"{P}.methods.utils", f"{P}.operators.clamp", f"{P}.operators"
SV = f"{P}.solvers"
TRUSTED = ["scipy adjacency construction takes the bounded route", "real arithmetic stands in for floating point"]
CPU, F32 = Tok("cpu"), Tok("torch.float32")
W = World(shims={"torch": th_shim}, stubs={
    f"{P}.optional:optional_import": lambda *a, **k: th_shim,
    f"{TB}:resolve_device": lambda spec: CPU,
    f"{TB}:dtype_from_spec": lambda spec: F32,
    f"{P}.validation:_as_numpy": lambda x: x,
})
z0, z1 = z3.IntVal(0), z3.IntVal(1)


def graph(c, th=False, weighted=None):
    """n nodes and an arbitrary edge list over them, duplicates and loops included"""
    if th:
        c.ghost["tensors"] = True
    n, E = c.int("n"), c.int("edges")
    c.assume(And(n >= 1, E >= 0))
    f = c.func("endpoint", z3.IntSort(), z3.IntSort(), z3.IntSort())
    ei = A.SArr((2, E), "i", lambda r, e: f(r, e))
    A.forall(lambda e: Implies(And(e >= 0, e < E), And(f(0, e) >= 0, f(0, e) < n, f(1, e) >= 0, f(1, e) < n)))
    ei.frozen = "the edge list"
    w = None
    if weighted if weighted is not None else c.choose(2, "weighted"):
        w = A.fresh_array("w", (E,), "f")
        w.frozen = "the weights"
    return n, E, ei, w


def row(ei, r):
    return A.SArr((ei._shape[1],), "i", lambda k: ei.at(z3.IntVal(r), k))


def weight(w, E):
    return w if w is not None else A.full((E,), 1, "f")


def product(ei, w, x, E):
    """the mathematical A @ x with A[dst, src] = the sum of the weights of the edges src -> dst"""
    src, dst, w = row(ei, 0), row(ei, 1), weight(w, E)
    if x.ndim == 1:
        v = A.SArr((E,), "f", lambda e: nmul(w.at(e), x.at(src.at(e))))
        if ctx().ghost.get("tensors"):  # the same sum, as the single column of a matrix product
            col = A.SArr((E, 1), "f", lambda e, j: nmul(w.at(e), x.at(src.at(e))))
            g = A.edgesum(dst, col)
            return lambda i: g(i, z0)
    else:
        v = A.SArr((E, x._shape[1]), "f", lambda e, j: nmul(w.at(e), x.at(src.at(e), j)))
    return A.edgesum(dst, v)


def feats(c, n, rank):
    m = c.int("features")
    c.assume(m >= 0)
    x = A.fresh_array("x", (n,) if rank == 1 else (n, m), "f")
    x.frozen = "the features"
    return x, ((n,) if rank == 1 else (n, m))


def is_product(c, o, g, shape):
    c.oblige("the product has the features' shape", And(o.ndim == len(shape), *[A.dz(s) == t for s, t in zip(o._shape, shape)]))
    ix = [skolem(q) for q in "ij"[: len(shape)]]
    c.assume(And(*[And(i >= 0, i < s) for i, s in zip(ix, shape)]))
    got = o.at(*ix)
    c.oblige("every entry is the row of the matrix times the column of the features", got == g(*ix))


def t_spmm(mod, fn, th, ranks):
    def run(c):
        n, E, ei, w = graph(c, th, weighted=True if mod == MU else None)
        x, shape = feats(c, n, ranks[c.choose(len(ranks), "rank")])
        kw = dict(device=CPU, dtype=F32) if mod == TB else dict(device=ns()) if fn == "spmm_torch" and mod != MU else {}
        o = W.fn(mod, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, X=x, **kw)
        c.cover("returns")
        is_product(c, o, product(ei, w, x, E), shape)
    return run


def degree(ei, w, E):
    return A.edgesum(row(ei, 1), weight(w, E))


def t_degrees(fn, th):
    def run(c):
        n, E, ei, w = graph(c, th, weighted=True)
        o = W.fn(MU, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w)
        c.cover("returns")
        i = skolem("i")
        c.assume(And(i >= 0, i < n))
        got = o.at(i)
        c.oblige("one degree per node", A.dz(o._shape[0]) == n)
        c.oblige("a degree is the sum of the incoming weights", got == degree(ei, w, E)(i))
    return run


def t_normalize(mod, fn, th):
    def run(c):
        n, E, ei, w = graph(c, th, weighted=True if mod == MU else None)
        mode = ("none", "rw", "sym", "other")[c.choose(4, "mode")]
        kw = dict(device=CPU, dtype=F32) if mod == TB else dict(device=ns()) if fn == "normalize_edges_torch" else {}
        eps = unwrap(1e-12)
        if mod in (NB, TB, MU):
            e0 = R("eps")
            c.assume(e0.t > 0)
            kw["eps"], eps = e0, e0.t
        try:
            o = W.fn(mod, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, mode=mode, **kw)
        except ValueError:
            c.cover("refused")
            c.oblige("only an unknown mode is refused", mode == "other" or (mod == MU and mode == "none"))
            return
        c.cover("returns")
        c.oblige("one weight per edge", A.dz(o._shape[0]) == E)
        e = skolem("e")
        c.assume(And(e >= 0, e < E))
        got, we = o.at(e), weight(w, E).at(e)
        c.oblige("an unknown mode is refused", mode != "other")
        if mode == "none":
            c.oblige("mode none keeps every weight", got == we)
            return
        deg = degree(ei, w, E)
        u, v = ei.at(z0, e), ei.at(z1, e)
        A.add_probe(u), A.add_probe(v)

        def clip(x):
            d = deg(x)
            return If(d >= eps, d, eps)

        if mode == "rw":
            c.oblige("each weight is divided by its target's degree", got == ndiv(we, clip(v)))
        else:
            p, q = nmul(clip(v), clip(u)), nmul(clip(u), clip(v))
            roots = [unwrap(ssqrt(wrap(t))) for t in (p, q)]
            sep = nmul(*[unwrap(ssqrt(wrap(clip(t)))) for t in (u, v)])
            c.oblige("each weight is divided by the root of the product of both endpoints' degrees",
                     Or(*[got == ndiv(we, t) for t in roots + [sep]]))
    return run


def t_laplacian(fn, th):
    def run(c):
        n, E, ei, w = graph(c, th)
        kind = ("rw", "sym")[c.choose(2, "kind")]
        nw = A.fresh_array("normalised", (E,), "f")
        seen = []

        def norm(**k):
            seen.append(k)
            return nw

        M = W.module(f"{OP}.laplacian")
        nm = "normalize_edges_torch" if th else "normalize_edges_numpy"
        M.__dict__[nm] = norm
        kw = dict(device=ns()) if th else {}
        mv = getattr(M, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, kind=kind, **kw)
        x, shape = feats(c, n, 1 + c.choose(2, "rank"))
        o = mv(x)
        c.cover("returns")
        k = seen[0] if len(seen) == 1 else {}
        c.oblige("the given edges are normalised in the given mode",
                 And(k.get("mode") == kind, k.get("edge_index") is ei, k.get("edge_weight") is w, unwrap(k.get("n_nodes", SymInt(z3.IntVal(-1)))) == n))
        g = product(ei, nw, x, E)
        c.oblige("the product has the features' shape", And(o.ndim == len(shape), *[A.dz(s) == t for s, t in zip(o._shape, shape)]))
        ix = [skolem(q) for q in "ij"[: len(shape)]]
        c.assume(And(*[And(i >= 0, i < s) for i, s in zip(ix, shape)]))
        got = o.at(*ix)
        c.oblige("the Laplacian takes the product with the normalised matrix from x", got == x.at(*ix) - g(*ix))
    return run


# ---- solvers ----------------------------------------------------------------
class Linear:
    """an arbitrary linear operator; what is known of it is linearity"""

    def __init__(self, c, n):
        self.c, self.n, self.memo = c, n, {}

    def of(self, a):
        if a.uid in self.memo:
            return self.memo[a.uid][0]
        org = a.org or ("?",)
        f = None
        if org[0] in ("add", "sub") and org[1].ndim == org[2].ndim == 1:
            p, q = self.of(org[1]), self.of(org[2])
            f = (lambda i: p(i) + q(i)) if org[0] == "add" else (lambda i: p(i) - q(i))
        elif org[0] == "scale":
            p = self.of(org[1])
            f = lambda i: nmul(p(i), org[2])  # noqa: E731
        elif org[0] == "mul" and any(x.ndim == 0 for x in org[1:3]):
            s, v = (org[1], org[2]) if org[1].ndim == 0 else (org[2], org[1])
            p = self.of(v)
            f = lambda i: nmul(p(i), s.at())  # noqa: E731
        elif org[0] == "full" and z3.is_true(z3.simplify(org[1] == 0)):
            f = lambda i: z3.RealVal(0)  # noqa: E731
        if f is None:
            g = self.c.func("M", z3.IntSort(), z3.RealSort())
            f = lambda i: g(i)  # noqa: E731
        self.memo[a.uid] = (f, a)
        return f

    def __call__(self, v):
        f = self.of(v)
        return A.SArr((self.n,), "f", lambda i: f(i))


def vectors(e, n):
    return [(q, v) for q, v in sorted(e.items(), key=lambda t: t[0]) if isinstance(v, A.SArr) and v.ndim == 1 and v.kind == "f" and A.same_dim(v._shape[0], n)]


def t_cg(mod, fn, th):
    def run(c):
        if th:
            c.ghost["tensors"] = True
        n, tol = c.int("n"), R("tol")
        c.assume(And(n >= 0, tol.t >= 0))
        b = A.fresh_array("b", (n,), "f")
        b.frozen = "the right-hand side"
        x0 = None
        if c.choose(2, "start"):
            x0 = A.fresh_array("x0", (n,), "f")
            x0.frozen = "the start"
        M = Linear(c, n)

        def templates(loop, env):
            sl = [(q, v) for q, v, _ in loop.slots]
            vs = vectors(dict(sl), n)
            nums = [q for q, v in sl if isinstance(v, (float, SymReal)) or (isinstance(v, A.SArr) and v.ndim == 0)]
            out = []
            for r, _ in vs:
                for x, _ in vs:
                    if r != x:
                        out.append((f"resid:{r}:{x}", 1, lambda e, k, i, r=r, x=x: Implies(And(i >= 0, i < n), e[r].at(i) == b.at(i) - M.of(e[x])(i))))
                for q in nums:
                    out.append((f"sq:{q}:{r}", 0, lambda e, k, q=q, r=r: _num(e[q]) == unwrap(A.inner(e[r], e[r]))))
                for q, v, p in loop.recs:
                    fl = [s for s, t in p.items() if isinstance(t, (float, SymReal))]
                    it = [s for s, t in p.items() if isinstance(t, (int, SymInt)) and not isinstance(t, bool)]
                    for s in fl:
                        for t in it:
                            out.append((f"open:{q}:{s}:{t}", 0, lambda e, k, q=q, s=s, t=t, p=p: Or(
                                And(unwrap(e[q][t]) == unwrap(p[t]), unwrap(e[q][s]) == unwrap(p[s])), unwrap(e[q][s]) > tol.t)))
                    for s, t in p.items():
                        if isinstance(t, (float, SymReal)):
                            out.append((f"rn:{q}:{s}:{r}", 0, lambda e, k, q=q, s=s, r=r: unwrap(e[q][s]) == unwrap(ssqrt(wrap(unwrap(A.inner(e[r], e[r])))))))
            return out

        c.ghost["cheap loops"] = c.ghost["plain sums"] = True
        c.ghost["loop templates"] = [templates]
        kw = dict(matvec=M, b=b, x0=x0, tol=tol, max_iter=I("max_iter"))
        if fn == "cg_solve_torch":
            kw["device"] = ns()
        r = W.fn(mod, fn)(**kw)
        c.cover("returns")
        if isinstance(r, tuple):
            x, info = r
            info = ns(**info)
        else:
            x, info = r.x, r
        c.oblige("the solution has the right-hand side's shape", And(x.ndim == 1, A.dz(x._shape[0]) == n))
        res, conv = unwrap(info.residual_norm), unwrap(info.converged)
        res = z3.ToReal(res) if z3.is_int(res) else res
        i = skolem("i")
        c.assume(And(i >= 0, i < n))
        want = b.at(i) - M.of(x)(i)
        # the reported norm is the norm of a vector that is, entry by entry, b - M x
        cand = [u for u, v, s in c.ghost.get("inners", ()) if u.uid == v.uid and c.entails(res == unwrap(ssqrt(wrap(s))))]
        zero = unwrap(ssqrt(wrap(z3.RealVal(0))))
        c.oblige("the reported residual norm is the norm of b - M x", Or(*[u.at(i) == want for u in cand]) if len(cand) == 1 else Or(False, *[And(u.at(i) == want) for u in cand]))
        c.oblige("convergence is reported only within the tolerance or at an exact solution", Implies(conv, Or(res <= tol.t, res == 0)))
        c.oblige("a residual within the tolerance after an iteration is reported as convergence", Implies(And(unwrap(info.n_iter) >= 1, res <= tol.t), conv))
        c.oblige("an exact start is reported as convergence", Implies(And(unwrap(info.n_iter) == 0, res == 0), conv))
    return run


def t_fixed_point(fn, th):
    def run(c):
        c.ghost["cheap loops"] = c.ghost["plain sums"] = True
        n, E, ei, w = graph(c, th)
        k = c.int("classes")
        c.assume(k >= 0)
        Y = A.fresh_array("Y", (n, k), "f")
        Y.frozen = "the labels"
        mask = A.fresh_array("mask", (n,), "b")
        mask.frozen = "the training mask"
        alpha, tol, mi = R("alpha"), R("tol"), I("max_iter")
        c.assume(And(tol.t >= 0, mi.t >= 0))
        rows = bool(c.choose(2, "rows"))
        nw = A.fresh_array("normalised", (E,), "f")
        calls = []

        def spmm(n_nodes, edge_index, edge_weight, X, **_k):
            c.oblige("the product is taken with the normalised edges", And(edge_index is ei, edge_weight is nw, unwrap(n_nodes) == n))
            g = product(ei, nw, X, E)
            return A.SArr((n, X._shape[1]), "f", lambda i, j: g(i, j))

        M = W.module(f"{SV}.fixed_point")
        M.__dict__["normalize_edges_torch" if th else "normalize_edges_numpy"] = lambda **q: (calls.append(q), nw)[1]
        kw = {}
        if th:
            W.module(TB).__dict__["spmm"] = spmm
            kw["device"] = ns()
        else:
            M.__dict__["spmm_numpy"] = spmm

        def templates(loop, env):
            out = []
            for q, v, _ in loop.slots:
                if isinstance(v, (float, SymReal)):
                    out.append((f"open:{q}", 0, lambda e, t, q=q: e[q] == float("inf") if isinstance(e[q], float) else tn(e[q]) > tol.t))
            return out

        c.ghost["loop templates"] = [templates]
        r = getattr(M, fn)(n_nodes=SymInt(n), edge_index=ei, edge_weight=w, Y=Y, train_mask=mask, alpha=alpha, max_iter=mi, tol=tol, normalize_rows=rows, norm_mode="rw", **kw)
        c.cover("returns")
        r = ns(**r) if isinstance(r, dict) else r
        q = calls[0] if len(calls) == 1 else {}
        c.oblige("the given edges are normalised in the given mode", And(q.get("mode") == "rw", q.get("edge_index") is ei, q.get("edge_weight") is w))
        F, res = r.F, tn(r.residual)
        c.oblige("the scores have the labels' shape", And(F.ndim == 2, A.dz(F._shape[0]) == n, A.dz(F._shape[1]) == k))
        c.oblige("at most the allowed number of steps", And(unwrap(r.n_iter) >= 0, unwrap(r.n_iter) <= mi.t))
        if c.entails(res > tol.t):
            c.cover("not converged")
            return
        i, j = skolem("i"), skolem("j")
        c.assume(And(i >= 0, i < n, j >= 0, j < k))
        ok = [(a.org[1], a.org[2]) for a, b, s in c.ghost.get("inners", ())
              if a.uid == b.uid and a.org and a.org[0] == "sub" and c.entails(res == unwrap(ssqrt(wrap(s))))]
        ok = [(p, q) for p, q in ok if F.uid in (p.uid, q.uid)]
        c.oblige("a residual within the tolerance is the norm of the last change", bool(ok))
        if not ok:
            return
        new, old = ok[0] if ok[0][0].uid == F.uid else ok[0][::-1]

        def step(x, y):
            g = product(ei, nw, old, E)
            free = nmul(alpha.t, g(x, y)) + nmul(z3.RealVal(1) - alpha.t, Y.at(x, y))
            return If(mask.at(x), Y.at(x, y), free)

        got = F.at(i, j)
        if rows:
            c.cover("rows normalised")
            c.oblige("the scores are the normalised step of the previous scores", _normalised(c, F, step, i, j))
        else:
            c.oblige("the scores are the step of the previous scores", got == step(i, j))
    return run


def _normalised(c, F, step, i, j):
    """F = U / clip(rowsum U) for a U that agrees with the step in every entry"""
    org = F.org
    if not org or org[0] != "div":
        return z3.BoolVal(False)
    U, D = org[1], org[2]
    eps = unwrap(1e-12)
    s = A.rowsum_fn(U)(i)
    return And(U.at(i, j) == step(i, j), F.at(i, j) == ndiv(U.at(i, j), If(s >= eps, s, eps)))


def _num(v):
    return v.at() if isinstance(v, A.SArr) else tn(v)


TASKS = [
    Task("backends.numpy.spmm", t_spmm(NB, "spmm", False, (1, 2)), [f"{NB}:spmm", f"{NB}:_ensure_edge_weight"]),
    Task("backends.torch.spmm", t_spmm(TB, "spmm", True, (1, 2)), [f"{TB}:spmm", "modssc.backends.torch_common:make_to_tensor"]),
    Task("operators.spmm_numpy", t_spmm(f"{OP}.spmm", "spmm_numpy", False, (1, 2)), [f"{OP}.spmm:spmm_numpy"]),
    Task("operators.spmm_torch", t_spmm(f"{OP}.spmm", "spmm_torch", True, (1, 2)), [f"{OP}.spmm:spmm_torch"]),
    Task("methods.spmm_numpy", t_spmm(MU, "spmm_numpy", False, (2,)), [f"{MU}:spmm_numpy"]),
    Task("methods.spmm_torch", t_spmm(MU, "spmm_torch", True, (2,)), [f"{MU}:spmm_torch"]),
    Task("methods.degrees_numpy", t_degrees("degrees_numpy", False), [f"{MU}:degrees_numpy"]),
    Task("methods.degrees_torch", t_degrees("degrees_torch", True), [f"{MU}:degrees_torch"]),
    Task("backends.numpy.normalize_edges", t_normalize(NB, "normalize_edges", False), [f"{NB}:normalize_edges"]),
    Task("backends.torch.normalize_edges", t_normalize(TB, "normalize_edges", True), [f"{TB}:normalize_edges"]),
    Task("operators.normalize_edges_numpy", t_normalize(f"{OP}.normalize", "normalize_edges_numpy", False), [f"{OP}.normalize:normalize_edges_numpy"]),
    Task("operators.normalize_edges_torch", t_normalize(f"{OP}.normalize", "normalize_edges_torch", True), [f"{OP}.normalize:normalize_edges_torch"]),
    Task("methods.normalize_edge_weight_numpy", t_normalize(MU, "normalize_edge_weight_numpy", False), [f"{MU}:normalize_edge_weight_numpy"]),
    Task("methods.normalize_edge_weight_torch", t_normalize(MU, "normalize_edge_weight_torch", True), [f"{MU}:normalize_edge_weight_torch"]),
    Task("operators.laplacian_numpy", t_laplacian("laplacian_matvec_numpy", False), [f"{OP}.laplacian:laplacian_matvec_numpy"]),
    Task("operators.laplacian_torch", t_laplacian("laplacian_matvec_torch", True), [f"{OP}.laplacian:laplacian_matvec_torch"]),
    Task("solvers.cg numpy", t_cg(f"{SV}.cg", "cg_solve_numpy", False), [f"{SV}.cg:cg_solve_numpy", f"{NB}:cg_solve"]),
    Task("solvers.cg torch", t_cg(f"{SV}.cg", "cg_solve_torch", True), [f"{SV}.cg:cg_solve_torch", f"{TB}:cg_solve"]),
    Task("solvers.fixed_point numpy", t_fixed_point("fixed_point_diffusion_numpy", False), [f"{SV}.fixed_point:fixed_point_diffusion_numpy", f"{CL}:hard_clamp", f"{CL}:row_normalize"],
         ["spmm_numpy: the matrix product", "normalize_edges_numpy: normalised weights"]),
    Task("solvers.fixed_point torch", t_fixed_point("fixed_point_diffusion_torch", True), [f"{SV}.fixed_point:fixed_point_diffusion_torch"],
         ["torch_backend.spmm: the matrix product", "normalize_edges_torch: normalised weights"]),
]
