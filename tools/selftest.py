"""selftest.py [ID...]: deliberately wrong function bodies must not verify (the engine's own regression test).

Each entry edits one function of a scratch copy of /repo and runs one proof task: the task must be rejected
(a failed obligation, not merely an undecided one, unless marked)."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/modssc"
WRONG = [
    # property, task substring, file, correct text, wrong text
    ("c11", "self_loops", f"{S}/graph/construction/ops/self_loops.py", "missing = np.where(~has_loop)[0]", "missing = np.where(has_loop)[0]"),
    ("c11", "self_loops", f"{S}/graph/construction/ops/self_loops.py", "has_loop[src[mask]] = True", "has_loop[src] = True"),
    ("c11", "normalize", f"{S}/graph/construction/ops/normalize.py", "np.maximum(deg[src]", "np.maximum(deg[dst]"),
    ("c11", "masks", f"{S}/graph/masks.py", "unlabeled = train & (~labeled)", "unlabeled = ~labeled"),
    ("c11", "GraphArtifact", f"{S}/graph/artifacts.py", "ei.max() >= self.n_nodes", "ei.max() > self.n_nodes"),
    ("c18", "TokenSwap", f"{S}/data_augmentation/ops/text.py", "out[int(i)], out[int(j)] = out[int(j)], out[int(i)]", "out[int(i)] = out[int(j)]"),
    ("c18", "TokenSwap", f"{S}/data_augmentation/ops/text.py", "valid = np.flatnonzero(out != pad_token_id)", "valid = np.arange(out.shape[0])"),
    ("c18", "TokenMask", f"{S}/data_augmentation/ops/text.py", "out = np.array(arr, copy=True)\n        mask", "out = np.asarray(arr)\n        mask"),
    ("c18", "FeatureDropout", f"{S}/data_augmentation/ops/tabular.py", "return arr * mask\n\n\n@register_op(\"tabular.swap", "arr *= mask\n        return arr\n\n\n@register_op(\"tabular.swap"),
    ("c18", "make_numpy_rng", f"{S}/data_augmentation/utils.py", '{int(epoch)}|{int(sample_id)}', '{int(epoch)}{int(sample_id)}'),
    ("c18", "make_numpy_rng", f"{S}/data_augmentation/utils.py", '|{int(sample_id)}', ''),
    ("c18", "EdgeDropout", f"{S}/data_augmentation/ops/graph.py", "ew2 = ew_np[keep_idx]", "ew2 = ew_np[: keep_idx.shape[0]]"),
    ("c18", "HorizontalFlip", f"{S}/data_augmentation/ops/vision.py", 'axis = 1 if layout in ("hw", "hwc") else 2', "axis = 1"),
    ("c18", "RandomCropPad", f"{S}/data_augmentation/ops/vision.py", "return padded[top : top + H, left : left + W, :]\n        # chw\n        padded = np", "return padded[top : top + H, left : left + W + 1, :]\n        # chw\n        padded = np"),
    ("c18", "Pipeline", f"{S}/data_augmentation/api.py", "epoch=int(ctx.epoch)", "epoch=0"),
    ("c19", "encode", f"{S}/supervised/utils.py", "y_enc = np.searchsorted(classes, y_arr)", "y_enc = np.searchsorted(classes, y_arr[::-1])"),
    ("c19", "fit", f"{S}/supervised/backends/numpy/knn.py", "self._y_train_enc = y_enc", "self._y_train_enc = y_enc[::-1]"),
    ("c19", "fit", f"{S}/supervised/backends/numpy/knn.py", "if self.k <= 0:", "if self.k < 0:"),
    ("c19", "NumpyKNNClassifier.predict", f"{S}/supervised/backends/numpy/knn.py", "proba.argmax(axis=1)", "(-proba).argmax(axis=1)"),
    ("c19", "sklearn", f"{S}/supervised/backends/sklearn/common.py", "[-scores, scores]", "[scores, -scores]"),
    ("c19", "onehot", f"{S}/supervised/utils.py", "np.arange(int(y_enc.size)), y_enc] = 1.0", "y_enc, y_enc] = 1.0"),
    ("c23", "pseudo_label", f"{S}/inductive/methods/pseudo_label.py", "y_u = np.asarray(clf.predict(X_u_curr[idx]))", "y_u = np.asarray(idx)"),
    ("c23", "pseudo_label", f"{S}/inductive/methods/pseudo_label.py", "X_l = np.concatenate([X_l, X_u_curr[idx]], axis=0)", "X_l = np.concatenate([X_l, X_u_curr[idx] + 1.0], axis=0)"),
    ("c23", "pseudo_label", f"{S}/inductive/methods/pseudo_label.py", "X_l = np.concatenate([X_l, X_u_curr[idx]], axis=0)", "X_l = np.concatenate([X_l, X_u_curr[:1]], axis=0)"),
    ("c23", "normalize", f"{S}/inductive/methods/helpers/classifier_bridge.py", "shifted = probs[margins] - probs[margins].max(axis=1, keepdims=True)", "shifted = probs[margins].max(axis=1, keepdims=True) - probs[margins]"),
    ("c23", "normalize", f"{S}/inductive/methods/helpers/classifier_bridge.py", "probs = np.array(scores, dtype=np.float64)", "probs = np.asarray(scores, dtype=np.float64)"),
    ("c23", "normalize", f"{S}/inductive/methods/helpers/classifier_bridge.py", "(probs < 0).any(axis=1)", "(probs > 0).any(axis=1)"),
    ("c23", "select_confident", f"{S}/inductive/methods/helpers/classifier_bridge.py", "idx.size > int(max_new)", "idx.size >= int(max_new) + 2"),
    ("c23", "select_confident", f"{S}/inductive/methods/helpers/classifier_bridge.py", "idx = idx[order]", "idx = order"),
    ("c23", "validation", f"{S}/inductive/validation.py", "if X_u_w is not None and X_u_s is not None:", "if X_u_w is not None and X_u_s is None:"),
    ("c23", "adapters.torch", f"{S}/inductive/adapters/torch.py", "_check_feature_dim(X_u_s, n_features=n_features", "_check_feature_dim(X_u_w, n_features=n_features"),
    ("c21", "backends.numpy.spmm", f"{S}/transductive/backends/numpy_backend.py", "np.add.at(out, dst, w * X[src])", "np.add.at(out, src, w * X[dst])"),
    ("c21", "backends.numpy.spmm", f"{S}/transductive/backends/numpy_backend.py", "np.add.at(out, dst, (w[:, None] * X[src]))", "out[dst] += w[:, None] * X[src]"),
    ("c21", "backends.numpy.normalize", f"{S}/transductive/backends/numpy_backend.py", "out = w / np.maximum(deg[dst], eps)", "out = w / np.maximum(deg[src], eps)"),
    ("c21", "solvers.cg numpy", f"{S}/transductive/backends/numpy_backend.py", "r = r - alpha * Ap", "r = r - alpha * p"),
    ("c21", "solvers.cg numpy", f"{S}/transductive/backends/numpy_backend.py", "x = x + alpha * p", "x = x - alpha * p"),
    ("c21", "solvers.fixed_point numpy", f"{S}/transductive/solvers/fixed_point.py", "        F_new = hard_clamp(F_new, Y, train_mask)\n", ""),
    ("c13", "operators.labels_to_onehot [int", f"{S}/transductive/operators/clamp.py", "valid = y_int >= 0", "valid = y_int > 0"),
    ("c13", "hard_clamp", f"{S}/transductive/operators/clamp.py", "out[train_mask] = Y[train_mask]", "out[~train_mask] = Y[~train_mask]"),
    ("c13", "hard_clamp", f"{S}/transductive/operators/clamp.py", "out = np.asarray(F, dtype=np.float32).copy()", "out = np.asarray(F, dtype=np.float32)"),
    ("c13", "row_normalize", f"{S}/transductive/operators/clamp.py", "return F / np.maximum(sums, eps)", "return F / np.maximum(sums + eps, eps)"),
    ("c13", "label propagation numpy", f"{S}/transductive/methods/classic/label_propagation.py", "            F_new[labeled_mask] = Y[labeled_mask]\n\n        if spec.normalize_rows:\n            row_sum = F_new.sum(axis=1", "            F_new[labeled_mask] += Y[labeled_mask]\n\n        if spec.normalize_rows:\n            row_sum = F_new.sum(axis=1"),
    ("c13", "label propagation numpy", f"{S}/transductive/methods/classic/label_propagation.py", "row_sum = np.where(row_sum > 0, row_sum, 1.0)", "row_sum = np.where(row_sum > 0.5, row_sum, 1.0)"),
    ("c14", "gcn.GCN", f"{S}/transductive/methods/gnn/common.py", "cross_entropy(logits[train_mask], y[train_mask])", "cross_entropy(logits, y)"),
    ("c14", "gat.", f"{S}/transductive/methods/gnn/common.py", "logits_val[val_mask], y[val_mask]", "logits_val[~train_mask], y[~train_mask]"),
    ("c14", "graphsage", f"{S}/transductive/methods/gnn/graphsage.py", "set_torch_seed(seed)", "pass"),
    ("c14", "poisson_learning", f"{S}/transductive/methods/pde/poisson_learning.py", "Y_np[~to_numpy(labeled_mask_t)] = 0.0", "pass"),
    ("c14", "p_laplace", f"{S}/transductive/methods/pde/p_laplace_learning.py", "    Y[~labeled_mask] = 0.0\n", ""),
    ("c14", "dynamic", f"{S}/transductive/methods/classic/dynamic_label_propagation.py", "    Y0_np[~to_numpy(labeled_mask).astype(bool)] = 0.0\n", ""),
]


def main(want):
    bad = 0
    for prop, sub, file, old, new in WRONG:
        if want and prop not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="selftest")
        try:
            for d in ("src", "bench"):
                if os.path.isdir(f"/repo/{d}"):
                    shutil.copytree(f"/repo/{d}", f"{tmp}/{d}", ignore=shutil.ignore_patterns("__pycache__"))
            p = f"{tmp}/{file}"
            s = open(p, encoding="utf-8").read()
            if s.count(old) < 1:
                print("STALE", prop, sub, old)
                bad += 1
                continue
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
            env = dict(os.environ, VERIF_REPO=tmp, PYTHONPATH=f"{tmp}/src:{tmp}")
            r = subprocess.run([sys.executable, f"{ROOT}/tools/prove.py", prop, sub], capture_output=True, text=True, env=env)
            failed = "FAILED" in r.stdout
            print("rejected" if failed else "undecided" if "undecided" in r.stdout or "unknown" in r.stdout else "ACCEPTED", prop, sub, "|", new[:60])
            if not failed:
                bad += 1
                print("   ", r.stdout.strip()[-600:], r.stderr[-300:])
        finally:
            shutil.rmtree(tmp)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main(sys.argv[1:]) else 0)
