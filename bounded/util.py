"""Deep comparison used by the run-time contracts."""
import numpy as np


def same(a, b, strict=True, path="value"):
    """None when equal, else a description of the first difference (NaN equals NaN)"""
    import scipy.sparse as sp

    if a is b:
        return None
    ta, tb = type(a), type(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {ta.__name__} vs {tb.__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if strict and a.dtype != b.dtype:
            return f"{path}: dtype {a.dtype} vs {b.dtype}"
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel().tolist(), b.ravel().tolist(), strict=True)):
                r = same(x, y, strict, f"{path}[{i}]")
                if r:
                    return r
            return None
        eq = (a == b) if a.dtype.kind not in "fc" else ((a == b) | ((a != a) & (b != b)))
        return None if bool(np.all(eq)) else f"{path}: values differ {a.ravel()[~np.ravel(eq)][:3]} vs {b.ravel()[~np.ravel(eq)][:3]}"
    if sp.issparse(a) or sp.issparse(b):
        if ta is not tb:
            return f"{path}: {ta.__name__} vs {tb.__name__}"
        if a.shape != b.shape or (strict and a.dtype != b.dtype) or (a != b).nnz:
            return f"{path}: sparse matrices differ"
        return None
    if "torch" in ta.__module__ or "torch" in tb.__module__:
        import torch

        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
            if a.shape != b.shape or a.dtype != b.dtype or a.device != b.device:
                return f"{path}: tensor {tuple(a.shape)} {a.dtype} vs {tuple(b.shape)} {b.dtype}"
            eq = (a == b) | ((a != a) & (b != b))
            return None if bool(eq.all()) else f"{path}: tensor values differ"
        if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
            return f"{path}: {ta.__name__} vs {tb.__name__}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b) or {type(k) for k in a} != {type(k) for k in b}:
            return f"{path}: keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
        for k in a:
            r = same(a[k], b[k], strict, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if (strict and ta is not tb) or len(a) != len(b):
            return f"{path}: {ta.__name__} of {len(a)} vs {tb.__name__} of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b, strict=True)):
            r = same(x, y, strict, f"{path}[{i}]")
            if r:
                return r
        return None
    if hasattr(a, "__dataclass_fields__") and ta is tb:
        return same({f: getattr(a, f) for f in a.__dataclass_fields__}, {f: getattr(b, f) for f in b.__dataclass_fields__}, strict, path)
    if strict and ta is not tb:
        return f"{path}: {ta.__name__} {a!r} vs {tb.__name__} {b!r}"
    try:
        if a == b or (a != a and b != b):
            return None
    except Exception:  # noqa: BLE001
        pass
    return f"{path}: {a!r} vs {b!r}"[:300]


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
