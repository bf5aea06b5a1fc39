"""Contracts of the torch functions the code under verification calls (assumed, trusted base).

A verified function runs either on numpy arrays or on tensors; in a tensor task every symbolic
array is a `torch.Tensor` (CPU, real arithmetic) and none is a `numpy.ndarray`.
Devices and element types are inert tokens."""

from __future__ import annotations

from . import arrays as A
from .arrays import DType, SArr, dz
from .core import Unsupported, ctx, z3
from .npshim import NDMeta, np_shim as np
from .values import Sym, _numlike, tr, unwrap, wrap


def tensor_mode():
    return bool(ctx().ghost.get("tensors"))


class _TMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, SArr) and tensor_mode()


class Tensor(metaclass=_TMeta):
    pass


def _kind(dtype, default=None):
    if dtype is None:
        return default
    if isinstance(dtype, DType):
        return dtype._k
    return {"float32": "f", "float64": "f", "float16": "f", "int64": "i", "int32": "i", "bool": "b", "int16": "i", "uint8": "i"}[str(dtype).split(".")[-1]]


class Tok(str):
    """a dtype or device token"""

    @property
    def is_floating_point(self):
        return self.startswith("torch.float")

    @property
    def type(self):
        return str(self)


class Sparse:
    """a COO matrix: duplicate positions add up"""

    def __init__(self, rows, cols, vals, shape):
        self.rows, self.cols, self.vals, self.shape = rows, cols, vals, shape

    def coalesce(self):
        return self


class _SparseNS:
    @staticmethod
    def mm(a, x):
        if not isinstance(a, Sparse) or not isinstance(x, SArr) or x.ndim != 2:
            raise Unsupported("sparse.mm")
        c = ctx()
        n, m = A.dim(a.shape[0]), A.dim(a.shape[1])
        if not A.same_dim(m, x._shape[0]) and c.branch(dz(m) != dz(x._shape[0])):
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        out = A.full((n, x._shape[1]), 0, "f")
        A.add_at(out, a.rows, a.vals[:, None] * x[a.cols])
        return out


def _clamp(x, min=None, max=None):
    if min is not None:
        x = np.maximum(x, min)
    if max is not None:
        x = np.minimum(x, max)
    return x


class TH:
    Tensor = Tensor
    float32, float64, float16, int64, int32, bool, long, float, uint8, int16 = (
        Tok("torch." + n) for n in ("float32", "float64", "float16", "int64", "int32", "bool", "int64", "float32", "uint8", "int16"))
    sparse = _SparseNS()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"torch.{n}")

    def device(self, d):
        return Tok(str(d))

    def is_tensor(self, x):
        return isinstance(x, Tensor)

    def _shape(self, shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            return tuple(shape[0])
        return tuple(shape)

    def zeros(self, *shape, dtype=None, device=None, size=None):
        k = _kind(dtype, "f")
        return A.full(self._shape(shape if size is None else (size,)), False if k == "b" else 0, k)

    def ones(self, *shape, dtype=None, device=None):
        k = _kind(dtype, "f")
        return A.full(self._shape(shape), True if k == "b" else 1, k)

    def full(self, shape, v, dtype=None, device=None):
        return np.full(tuple(shape), v, dtype=DType(_kind(dtype, A.kind_of_term(unwrap(v)))))

    def zeros_like(self, a, dtype=None, device=None):
        return np.zeros_like(a, None if dtype is None else DType(_kind(dtype)))

    def ones_like(self, a, dtype=None, device=None):
        return np.ones_like(a, None if dtype is None else DType(_kind(dtype)))

    def arange(self, a, b=None, device=None, dtype=None):
        return A.arange(a, b)

    def as_tensor(self, x, dtype=None, device=None):
        if isinstance(x, SArr):
            return x if dtype is None else x.to(dtype=dtype)
        if isinstance(x, (list, tuple, Sym)) or _numlike(x):
            from .npshim import arr

            r = arr(x)
            return r if dtype is None else r.to(dtype=dtype)
        raise Unsupported("as_tensor")

    def from_numpy(self, x):
        return x

    def tensor(self, x, dtype=None, device=None):
        return self.as_tensor(x, dtype).clone()

    def clone(self, x):
        return x.copy()

    def stack(self, xs, dim=0):
        return np.stack(list(xs), axis=dim)

    def cat(self, xs, dim=0):
        return np.concatenate(list(xs), axis=dim)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return np.abs(x)

    def exp(self, x):
        return np.exp(x)

    def clamp(self, x, min=None, max=None):
        return _clamp(x, min, max)

    def clamp_min(self, x, m):
        return _clamp(x, m)

    def maximum(self, a, b):
        return np.maximum(a, b)

    def minimum(self, a, b):
        return np.minimum(a, b)

    def where(self, *a):
        return np.where(*a)

    def sum(self, x, dim=None, keepdim=False):
        return x.sum(dim=dim, keepdim=keepdim) if dim is not None else x.sum()

    def dot(self, a, b):
        return _scalar(A.matmul(a, b))

    def matmul(self, a, b):
        return A.matmul(a, b)

    mm = matmul

    def norm(self, x, p=None):
        if p is not None:
            raise Unsupported("torch.norm of another order")
        return _scalar(np.linalg.norm(x))

    def max(self, x, dim=None):
        if dim is not None:
            raise Unsupported("torch.max along a dimension")
        return _scalar(x.max())

    def unique(self, x, **k):
        if any(k.get(q) for q in ("return_counts", "return_inverse", "dim")):
            raise Unsupported("torch.unique options")
        return np.unique(x)

    def any(self, x):
        return _scalar(x.any())

    def all(self, x):
        return _scalar(x.all())

    def isfinite(self, x):
        return np.isfinite(x)

    def sparse_coo_tensor(self, ix, w, size=None, dtype=None, device=None):
        if size is None or not isinstance(ix, SArr) or ix.ndim != 2 or w.ndim != 1:
            raise Unsupported("sparse_coo_tensor")
        r, q = ix[0], ix[1]
        c = ctx()
        for a, n in ((r, size[0]), (q, size[1])):
            k = c.int("coo")
            A.add_probe(k)
            rng = z3.And(k >= 0, k < a.sz)
            ok = z3.And(a.at(k) >= 0, a.at(k) < dz(A.dim(n)))
            if not c.entails(z3.Implies(rng, ok)):
                if c.branch(c.bool("coo_oob")):
                    c.assume(z3.And(rng, z3.Not(ok)))
                    raise RuntimeError("found index out of bounds")
                f, m = a.snapshot(), dz(A.dim(n))
                A.forall(lambda x, f=f, m=m, a=a: z3.Implies(z3.And(x >= 0, x < a.sz), z3.And(f(x) >= 0, f(x) < m)))
        A.same_length(r, w)
        return Sparse(r, q, w, size)


def _scalar(v):
    """a zero-dimensional tensor"""
    if isinstance(v, SArr):
        return v
    t = unwrap(v)
    return SArr((), A.kind_of_term(t), lambda: t)


def _to(self, *a, dtype=None, device=None, **_k):
    for x in a:
        if isinstance(x, (Tok, DType)) and (isinstance(x, DType) or x.startswith("torch.")):
            dtype = x
    k = _kind(dtype, self.kind)
    return self if k == self.kind else self.astype(DType(k))


def _view(self, *shape):
    return self.reshape(*shape)


def _numel(self):
    return self.size


def _clone(self, *a, **k):
    return self.copy()


def _cast(k):
    return lambda self: self if self.kind == k else self.astype(DType(k))


def _unsqueeze(self, d):
    if d == 0:
        return self[None, ...]
    if d in (-1, self.ndim):
        return self[..., None]
    raise Unsupported("unsqueeze")


def _index_add(self, dim, idx, v):
    if dim != 0:
        raise Unsupported("index_add_ dimension")
    A.add_at(self, idx, v)
    return self


def _reduce(name):
    g = getattr(SArr, name)

    def h(self, *a, dim=None, keepdim=False, **k):
        if tensor_mode():
            if a and isinstance(a[0], int):
                dim, a = a[0], a[1:]
            if dim is not None:
                if name in ("max", "min"):
                    raise Unsupported(f"{name} along a dimension")
                return g(self, axis=dim, keepdims=keepdim)
            return _scalar(g(self, *a, **k))
        return g(self, *a, **k)

    return h


def install():
    if hasattr(SArr, "numel"):
        return
    SArr.numel, SArr.view, SArr.to, SArr.clone = _numel, _view, _to, _clone
    SArr.long, SArr.float, SArr.double, SArr.bool = _cast("i"), _cast("f"), _cast("f"), _cast("b")
    SArr.unsqueeze, SArr.index_add_, SArr.scatter_add_ = _unsqueeze, _index_add, _index_add
    SArr.cpu = SArr.numpy = SArr.contiguous = lambda self, *a, **k: self
    SArr.device = property(lambda self: Tok("cpu"))
    SArr.dim = lambda self: self.ndim
    SArr.t = lambda self: self.transpose()
    SArr.clamp = lambda self, min=None, max=None: _clamp(self, min, max)
    SArr.clamp_min = lambda self, m: _clamp(self, m)
    SArr.is_floating_point = lambda self: self.kind == "f"
    SArr.abs = lambda self: np.abs(self)
    for q in ("sum", "any", "all", "max", "min", "mean"):
        setattr(SArr, q, _reduce(q))

    old = NDMeta.__instancecheck__
    NDMeta.__instancecheck__ = lambda cls, o: (not (isinstance(o, SArr) and tensor_mode())) and old(cls, o)


install()
th_shim = TH()
