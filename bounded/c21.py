"""Run-time contract: sparse graph operators and solvers compute the mathematical operator."""
import copy

import numpy as np

from bounded.util import close, same
from modssc.graph.featurization.ops.adjacency import adjacency_from_edge_index
from modssc.transductive.methods import utils as mu
from modssc.transductive.operators.clamp import row_normalize
from modssc.transductive.operators.laplacian import laplacian_matvec_numpy, laplacian_matvec_torch
from modssc.transductive.operators.normalize import normalize_edges_numpy, normalize_edges_torch
from modssc.transductive.operators.spmm import spmm_numpy, spmm_torch
from modssc.transductive.solvers.cg import cg_solve_numpy, cg_solve_torch
from modssc.transductive.solvers.fixed_point import fixed_point_diffusion_numpy, fixed_point_diffusion_torch
from modssc.transductive.types import DeviceSpec

RULE = "edge lists of 0-40 edges on 1-12 nodes (duplicates, loops, isolated nodes, zero weights, strided arrays), features, positive definite systems, diffusion parameters; distinct by input"
EXPLANATION = "Every result is compared with the dense float64 expression; solver convergence flags with the residual of the returned solution."
CPU = DeviceSpec(device="cpu", dtype="float32")
CPU64 = DeviceSpec(device="cpu", dtype="float64")


def PRELOAD():
    import torch

    torch.set_num_threads(1)


def graph(g):
    n, E = g.int(1, 12), g.pick([0, 1, g.int(2, 40)])
    ei = g.rng.integers(0, g.pick([n, max(1, n // 2)]), (2, E))
    if E > 2 and g.bool(0.4):
        ei[:, E // 2:] = ei[:, : E - E // 2]
    if g.bool(0.2):
        ei = np.asfortranarray(ei)
    if g.bool(0.2):
        ei = ei.astype(np.int32)
    w = g.pick([lambda: None, lambda: g.rng.random(E) + 0.01, lambda: g.rng.integers(0, 4, E).astype(float), lambda: (g.rng.random(E) * 50).astype(np.float32)])()
    A = np.zeros((n, n))
    np.add.at(A, (ei[1], ei[0]), 1.0 if w is None else w)
    return n, ei, w, A


def feats(g, n, oned=True):
    X = g.rng.normal(size=(n, g.int(1, 4))) * g.pick([1, 20])
    if oned and g.bool(0.25):
        X = X[:, 0]
    return X


def T(x):
    import torch

    return None if x is None else torch.as_tensor(np.ascontiguousarray(x))


def N(x):
    return x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


def norm_of(A, mode):
    deg = np.maximum(A.sum(1), 1e-12)
    return {"none": A, "rw": A / deg[:, None], "sym": A / np.sqrt(deg[:, None] * deg[None])}[mode]


def dense(n, ei, w):
    A = np.zeros((n, n))
    np.add.at(A, (ei[1], ei[0]), np.asarray(w, dtype=float))
    return A


def ok(g, got, want, msg, rtol=2e-4):
    want = np.asarray(want, dtype=float)
    s = max(1.0, float(np.abs(want).max(initial=0)))
    g.require(close(N(got), want, rtol=rtol, atol=2e-5 * s), msg, got=N(got).tolist(), wanted=want.tolist())


def s_ops(g):
    import torch

    n, ei, w, A = graph(g)
    X = feats(g, n)
    kind = g.pick(["f32", "f64", "int"])
    X = X.astype(np.float32) if kind == "f32" else X if kind == "f64" else np.round(X).astype(np.int64)
    g.note(n=n, edges=ei.T.tolist(), w=None if w is None else w.round(3).tolist(), X=X.tolist(), kind=kind)
    keep = copy.deepcopy((ei, w, X))
    want = A @ X
    ok(g, spmm_numpy(n_nodes=n, edge_index=ei, edge_weight=w, X=X), want, "numpy sparse product")
    ok(g, spmm_torch(n_nodes=n, edge_index=T(ei).long(), edge_weight=T(w), X=T(X), device=g.pick([CPU, CPU64])), want, "torch sparse product")
    w1 = np.ones(ei.shape[1], np.float32) if w is None else w.astype(np.float32)
    Xf = X.astype(np.float32).reshape(n, -1)
    ok(g, mu.spmm_numpy(n_nodes=n, edge_index=ei, edge_weight=w1, X=Xf), A @ Xf, "method sparse product (numpy)")
    ok(g, mu.degrees_numpy(n_nodes=n, edge_index=ei, edge_weight=w1), A.sum(1), "degrees (numpy)")
    ok(g, mu.spmm_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1), X=T(Xf)), A @ Xf, "method sparse product (torch)")
    ok(g, mu.degrees_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1)), A.sum(1), "degrees (torch)")
    for mode in ("none", "rw", "sym"):
        P = norm_of(A, mode)
        ok(g, dense(n, ei, normalize_edges_numpy(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)), P, f"numpy normalisation {mode}")
        ok(g, dense(n, ei, N(normalize_edges_torch(n_nodes=n, edge_index=T(ei).long(), edge_weight=T(w), mode=mode, device=CPU))), P, f"torch normalisation {mode}")
        if mode != "none":
            ok(g, dense(n, ei, mu.normalize_edge_weight_numpy(n_nodes=n, edge_index=ei, edge_weight=w1, mode=mode)), P, f"method normalisation {mode} (numpy)")
            ok(g, dense(n, ei, N(mu.normalize_edge_weight_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1), mode=mode))), P, f"method normalisation {mode} (torch)")
            L = laplacian_matvec_numpy(n_nodes=n, edge_index=ei, edge_weight=w, kind=mode)
            x = Xf
            if mode == "rw":
                pos = A.sum(1) > 1e-6
                g.require(close((P @ np.ones(n))[pos], np.ones(int(pos.sum()))), "oracle")
            ok(g, L(x), x - P @ x, f"Laplacian {mode} (numpy)")
            ok(g, L(x[:, 0]), x[:, 0] - P @ x[:, 0], f"Laplacian {mode} of a vector (numpy)")
            Lt = laplacian_matvec_torch(n_nodes=n, edge_index=T(ei).long(), edge_weight=T(w), device=CPU, kind=mode)
            ok(g, Lt(T(x)), x - P @ x, f"Laplacian {mode} (torch)")
            ok(g, Lt(T(x[:, 0])), x[:, 0] - P @ x[:, 0], f"Laplacian {mode} of a vector (torch)")
    g.raises(lambda: normalize_edges_numpy(n_nodes=n, edge_index=np.zeros((2, 1), int), edge_weight=None, mode="odd"), ValueError, "unknown normalisation accepted")
    ok(g, adjacency_from_edge_index(n_nodes=n, edge_index=ei, edge_weight=w, format="dense"), A.T, "dense adjacency")
    S = adjacency_from_edge_index(n_nodes=n, edge_index=ei, edge_weight=w, format="csr")
    ok(g, S.toarray(), A.T, "sparse adjacency")
    g.require(same(keep, (ei, w, X)) is None, "an operator modified its input")
    R = np.abs(Xf) * (g.rng.random((n, 1)) < 0.8)
    rn = row_normalize(R)
    s = R.sum(1)
    g.require(close(rn.sum(1), (s > 1e-9).astype(float), atol=1e-5), "row normalisation")
    # graph networks
    from modssc.transductive.methods.gnn import common as gc

    e, ww = T(ei).long(), T(w1)
    ce, cw = gc.coalesce_edges(e, ww, n_nodes=n)
    ok(g, dense(n, N(ce), N(cw)), A, "coalesced edges")
    pairs = list(map(tuple, N(ce).T.tolist()))
    g.require(len(set(pairs)) == len(pairs), "coalescing left duplicates")
    f = g.pick([1.0, 2.0])
    le, lw = gc.add_self_loops_coalesce(e, ww, n_nodes=n, fill_value=f)
    ok(g, dense(n, N(le), N(lw)), A + f * np.eye(n), "self loops")
    for mode in ("rw", "sym"):
        ok(g, dense(n, ei, N(gc.normalize_edge_weight(edge_index=e, edge_weight=ww, n_nodes=n, mode=mode))), norm_of(A, mode), f"graph network normalisation {mode}")
    ok(g, gc.spmm(e, ww, T(Xf), n_nodes=n), A @ Xf, "graph network sparse product")
    g.require(torch.equal(e, T(ei).long()) and torch.equal(ww, T(w1)), "an operator modified its input")


def s_cg(g):
    n = g.int(1, 10)
    M = g.rng.normal(size=(n, n))
    cond = g.pick([0.01, 1.0, 10.0])
    A = M @ M.T + cond * np.eye(n)
    if g.bool(0.2):
        A = A * g.pick([1e-3, 1e3])
    b = g.rng.normal(size=n) * g.pick([1, 1e-3, 100]) if g.bool(0.9) else np.zeros(n)
    x0 = g.pick([None, g.rng.normal(size=n), np.linalg.solve(A, b)])
    tol, it = g.pick([1e-6, 1e-4, 1e-1, 1e-10]), g.pick([0, 1, 2, n, 10 * n, 1000])
    g.note(A=A.round(4).tolist(), b=b.tolist(), x0=None if x0 is None else x0.tolist(), tol=tol, max_iter=it)
    kb, kx = b.copy(), None if x0 is None else x0.copy()
    calls = []

    def mv(v):
        calls.append(1)
        return A @ v

    r = cg_solve_numpy(matvec=mv, b=b, x0=x0, tol=tol, max_iter=it)
    g.require(same(b, kb) is None and same(x0, kx) is None, "the solver modified its input")
    g.require(r.x.shape == b.shape and 0 <= r.n_iter <= it, "more iterations than allowed", n_iter=r.n_iter)
    res = float(np.linalg.norm(b - A @ r.x.astype(float)))
    slack = 1e-6 * np.linalg.norm(A, 2) * (np.linalg.norm(r.x) + np.linalg.norm(0 if x0 is None else x0)) + 1e-9 * np.linalg.norm(b) + 1e-12
    if r.converged:
        g.require(r.residual_norm <= tol, "convergence reported above the tolerance", residual=r.residual_norm)
        g.require(res <= tol + slack, "convergence reported, but the solution misses the tolerance", residual=res, slack=slack)
    if r.residual_norm == r.residual_norm:
        g.require(abs(res - r.residual_norm) <= slack + 1e-6 * res or res <= slack + r.residual_norm, "reported residual is not the residual of the solution", reported=r.residual_norm, actual=res)
    if it >= 10 * n and it > 0 and tol >= 1e-6 and cond >= 1 and np.linalg.norm(b) < 50:
        g.require(r.converged, "a well conditioned system is not solved", residual=r.residual_norm)
    import torch

    At = torch.as_tensor(A)
    xt, info = cg_solve_torch(matvec=lambda v: At @ v, b=torch.as_tensor(b), device=CPU64, x0=None if x0 is None else torch.as_tensor(x0), tol=tol, max_iter=it)
    res = float(np.linalg.norm(b - A @ xt.numpy()))
    g.require(0 <= info["n_iter"] <= it, "more iterations than allowed (torch)")
    g.require(same(b, kb) is None and same(x0, kx) is None, "the torch solver modified its input")
    if info["converged"]:
        g.require(info["residual_norm"] <= tol and res <= tol + slack, "torch: convergence reported, but the solution misses the tolerance", residual=res, reported=info["residual_norm"])
    if it >= 10 * n and it > 0 and tol >= 1e-6 and cond >= 1 and np.linalg.norm(b) < 50:
        g.require(info["converged"], "a well conditioned system is not solved (torch)")


def s_cg_bad(g):
    """operators that are not positive definite: never a wrong 'converged'"""
    n = g.int(1, 6)
    A = g.pick([lambda: np.zeros((n, n)), lambda: g.rng.normal(size=(n, n)), lambda: np.diag(g.rng.integers(-2, 3, n).astype(float)), lambda: np.full((n, n), np.nan)])()
    b = g.rng.normal(size=n)
    tol, it = g.pick([1e-6, 1e-2]), g.pick([0, 3, 50])
    g.note(A=A.tolist(), b=b.tolist(), tol=tol, max_iter=it)
    with np.errstate(all="ignore"):
        r = cg_solve_numpy(matvec=lambda v: A @ v, b=b, tol=tol, max_iter=it)
        res = float(np.linalg.norm(b - A @ r.x.astype(float)))
    if r.converged:
        slack = 1e-5 * (np.linalg.norm(A, 2) * np.linalg.norm(r.x) + 1)
        g.require(res <= tol + slack, "convergence reported on a system that was not solved", residual=res)


def s_fixed(g):
    n, ei, w, A = graph(g)
    c = g.int(1, 3)
    Y = np.eye(c)[g.rng.integers(0, c, n)].astype(np.float32)
    m = g.rng.random(n) < 0.5
    if g.bool(0.5):
        Y[~m] = 0
    alpha, it = g.pick([0.99, 0.5, 0.0, 1.0]), g.pick([0, 1, 5, 200])
    tol, nr, mode = g.pick([1e-6, 1e-3, 10.0]), g.bool(0.3), g.pick(["rw", "sym", "none"] if it <= 5 else ["rw", "sym"])
    g.note(n=n, edges=ei.T.tolist(), w=None if w is None else w.tolist(), Y=Y.tolist(), mask=m.tolist(), alpha=alpha, max_iter=it, tol=tol, normalize=nr, mode=mode)
    keep = copy.deepcopy((ei, w, Y, m))
    P = norm_of(A, mode)
    kw = dict(n_nodes=n, alpha=alpha, max_iter=it, tol=tol, normalize_rows=nr, norm_mode=mode)
    a = fixed_point_diffusion_numpy(edge_index=ei, edge_weight=w, Y=Y, train_mask=m, **kw)
    b = fixed_point_diffusion_torch(edge_index=T(ei).long(), edge_weight=T(w), Y=T(Y), train_mask=T(m), device=CPU, **kw)
    g.require(same(keep, (ei, w, Y, m)) is None, "the solver modified its input")
    for name, F, k, res in (("numpy", a.F, a.n_iter, a.residual), ("torch", N(b["F"]), b["n_iter"], b["residual"])):
        g.require(0 <= k <= it, f"{name}: more iterations than allowed", n_iter=k)
        H, r, first = Y.astype(float), float("inf"), None
        for j in range(k):
            Q = alpha * (P @ H) + (1 - alpha) * Y
            Q[m] = Y[m]
            if nr:
                Q = Q / np.maximum(Q.sum(1, keepdims=True), 1e-12)
            r = float(np.linalg.norm(Q - H))
            if first is None and r <= tol * 0.9 - 1e-6:
                first = j + 1
            H = Q
        s = max(1.0, float(np.abs(H).max()))
        g.require(close(F, H, rtol=1e-3, atol=1e-4 * s), f"{name}: not the iterate of the definition", got=F.tolist(), wanted=H.tolist())
        if k:
            g.require(abs(res - r) <= 1e-4 * s * n + 1e-3 * r, f"{name}: the reported residual is not the last change", reported=res, actual=r)
        if k < it:
            g.require(res <= tol, f"{name}: stopped before the tolerance was met", residual=res)
        g.require(first is None or k <= first, f"{name}: went on after the tolerance was met", n_iter=k, met=first)
        if k:
            want = Y[m] / np.maximum(Y[m].sum(1, keepdims=True), 1e-12) if nr else Y[m]
            g.require(close(F[m], want, atol=1e-6), f"{name}: a clamped row moved")


SCENARIOS = [("ops", s_ops, 900, 3), ("cg", s_cg, 800, 2), ("cg_bad", s_cg_bad, 200, 1), ("fixed", s_fixed, 600, 2)]
