"""Relational execution of the real code: two runs in lock-step that differ in secret inputs only.

Every value of a library (numpy, torch, scikit-learn) is opaque.  What is known of it is whether
the two runs hold *equal* values (`low`): a library function of equal arguments returns equal
results (purity and determinism of the library are assumed), a function of a secret returns an
unknown result, and the contract of the task says through which selections a secret may be read
(`Src`: the rows picked by a released index or mask are equal in both runs).  Branching on a value
that is not equal in both runs is a failed obligation, as is such a value in a result.  Loops over
opaque sequences are cut at the head: everything the body may change becomes arbitrary, equal in
both runs as long as the body keeps it equal (the lowering restarts otherwise), so the number of
iterations is not bounded.
"""

from __future__ import annotations

import builtins
import contextlib
import gc
import sys
import types
import weakref

from . import lift
from .core import PathEnd, Restart, Unsupported, ctx

KEEP = {  # conversions: the elements, and which of them there are, stay what they are
    "nonzero", "flatnonzero", "reshape", "view", "to", "cpu", "cuda", "numpy", "detach", "bool", "long", "int", "float", "double", "astype", "asarray", "array", "as_tensor",
    "tensor", "from_numpy", "clone", "copy", "squeeze", "ravel", "flatten", "contiguous", "tolist", "ascontiguousarray", "copy_to", "type", "to_numpy",
}
META = {"shape", "ndim", "dtype", "device", "size", "dim", "numel", "is_cuda", "nbytes", "itemsize", "layout", "names", "is_sparse", "requires_grad"}
DRAWS = {"rand", "randn", "randint", "randperm", "bernoulli", "multinomial", "normal", "dropout", "rand_like", "randn_like", "shuffle", "permutation", "choice",
         "random", "uniform", "standard_normal", "normal_", "uniform_", "xavier_uniform_", "xavier_normal_", "kaiming_uniform_", "kaiming_normal_", "Linear", "Dropout",
         "default_generator", "orthogonal_", "trunc_normal_", "bernoulli_", "exponential_", "Parameter_", "Embedding", "feature_dropout", "alpha_dropout"}


CHANGES = {"fit", "fit_transform", "partial_fit", "fit_predict", "append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "remove", "discard", "add_",
           "sort", "reverse", "fill", "put", "itemset", "resize", "set_params", "load_state_dict", "step", "zero_grad"}


class FlowError(TypeError, ValueError, RuntimeError, KeyError, IndexError):
    """any exception a library call may raise"""


def state():
    g = ctx().ghost
    if "flow" not in g:
        LIVE.clear()
        g["flow"] = {"try": 0, "rng": False}
    return g["flow"]


def low(v, seen=None):
    """do both runs hold equal values here?"""
    seen = set() if seen is None else seen
    if isinstance(v, Fl):
        return v.low
    if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        return all(low(q.cell_contents, seen) for q in (getattr(v, "__closure__", None) or ())) if isinstance(v, types.FunctionType) else (
            low(v.__self__, seen) if isinstance(v, types.MethodType) else True)
    if id(v) in seen:
        return True
    seen.add(id(v))
    if isinstance(v, dict):
        return all(low(q, seen) for p in v.items() for q in p)
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(low(q, seen) for q in v)
    if isinstance(v, FlIter):
        return low(v.parts, seen)
    if isinstance(v, BaseException):
        return True
    if isinstance(v, types.GeneratorType):
        return v.gi_frame is None or low(dict(v.gi_frame.f_locals), seen)
    if isinstance(v, ITERATORS):
        return low(v.__reduce__()[1:], seen)
    d = getattr(v, "__dict__", None)
    if d is not None:
        return all(low(q, seen) for q in d.values())
    return True


ITERATORS = (type(iter([])), type(iter(())), type(iter({})), type(iter({}.values())), type(iter({}.items())), zip, map, enumerate, reversed, filter, type(reversed([])))


LIVE = []
SEM = None  # names of values that matter for what happens next


def _sig(v, num, out, depth=0):
    """what the continuation may know of a value: structure, identities, and what both runs share"""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (type(v).__name__, v)
    if id(v) in num:
        return ("#", num[id(v)])
    if isinstance(v, LibFn):
        return ("lib", v.what)
    if isinstance(v, Fl):
        num[id(v)] = len(num)
        d = v.__dict__
        return ("fl", type(v).__name__, v.what if v.what in SEM else "", v.low, v.sel, v.rows and tuple(sorted(v.rows)), v.none, tuple(sorted(v.facts.items())),
                tuple((k, str(d[k])) for k in ("each", "picks", "of", "truth", "classes", "ragged", "ndim", "dims", "frozen", "ver", "scalar") if k in d and not isinstance(d[k], Fl)),
                tuple((k, _sig(q, num, out)) for k, q in sorted(v.attrs.items())), tuple((str(k), _sig(q, num, out)) for k, q in d.get("memo", {}).items()),
                _sig(d.get("base"), num, out), _sig(d.get("meta_of"), num, out), _sig(d.get("of") if isinstance(d.get("of"), Fl) else None, num, out),
                tuple(_sig(q(), num, out) for q in d.get("views", ()) if q() is not None))
    if isinstance(v, (types.ModuleType, type, types.BuiltinFunctionType)):
        return ("c", id(v))
    num[id(v)] = len(num)
    if isinstance(v, types.FunctionType):
        return ("f", id(v.__code__), tuple(_sig(q.cell_contents, num, out) for q in (v.__closure__ or ()) if _filled(q)), _sig(v.__defaults__, num, out))
    if isinstance(v, types.MethodType):
        return ("m", _sig(v.__func__, num, out), _sig(v.__self__, num, out))
    if isinstance(v, FlowLoop):
        return ("loop", v.key, v.first, tuple((k, _sig(q, num, out)) for k, q in v.__dict__.get("head_ids", {}).items()), tuple(sorted(v.__dict__.get("head", {}).items())),
                tuple((k, _sig(q[0], num, out), str(q[1])) for k, q in v.__dict__.get("snap", {}).items()), _sig(v.it, num, out))
    if isinstance(v, dict):
        return ("d", tuple((_sig(k, num, out), _sig(q, num, out)) for k, q in v.items()))
    if isinstance(v, (list, tuple, set, frozenset)):
        return (type(v).__name__, tuple(_sig(q, num, out) for q in v))
    if isinstance(v, FlIter):
        return ("iter", v.kind, _sig(v.parts, num, out))
    if isinstance(v, ITERATORS):
        out.append(v)  # not comparable
        return ("?", id(v))
    d = getattr(v, "__dict__", None)
    if d is None:
        out.append(v)
        return ("?", id(v))
    return ("o", type(v).__name__, tuple((k, _sig(q, num, out)) for k, q in d.items()))


def _filled(cell):
    try:
        cell.cell_contents
    except ValueError:
        return False
    return True


def merge(*roots):
    """Two paths that reach the same program point in the same state continue alike: the second one is cut.

    The state: program points and locals of all frames of the code under test, everything reachable from them,
    and every other opaque value that is still alive (values on evaluation stacks)."""
    global SEM
    SEM = SEM or META | DRAWS | KEEP | {"items", "item", "index", "int", "argmax", "argmin", "device", "bool", "bool_"}
    c = ctx()
    if c.pos < len(c.prefix):  # this part of the path was seen before
        return
    store = c.__dict__.setdefault("_merge", {})
    if store.get("of") is not c.work:
        store.clear()
        store["of"] = c.work
    num, out, frames = {}, [], [_sig(list(roots), {}, [])] if roots else []
    f = sys._getframe(1)
    while f is not None:
        if "/pyvc/" not in f.f_code.co_filename and "/verif/contracts/" not in f.f_code.co_filename and "/vf/" not in f.f_code.co_filename:
            frames.append((id(f.f_code), f.f_lasti, tuple((k, _sig(v, num, out)) for k, v in f.f_locals.items())))
        if f.f_code.co_name == "_explore_once":
            break
        f = f.f_back
    if out:
        return
    gc.collect(1)
    rest = [r() for r in LIVE]
    LIVE[:] = [weakref.ref(v) for v in rest if v is not None]
    frames.append(tuple(_sig(v, num, out) for v in rest if v is not None and id(v) not in num))
    s = {k: v for k, v in state().items() if not isinstance(v, Fl) and k != "ids"}
    key = hash((tuple(frames), tuple(sorted((k, str(v)) for k, v in s.items()))))
    tr = tuple(c.trace)
    if store.setdefault(key, tr) != tr:
        raise PathEnd("state met before")


def may_raise(*args):
    s = state()
    if s["try"] and not low(args):
        ctx().oblige("whether a library call fails inside a try does not depend on a secret", False)
        raise PathEnd("control depends on a secret")
    if s["try"] and s["budget"] > 0:
        s["budget"] -= 1
        if ctx().choose(2, "raise"):
            raise FlowError("library error")


def combine(what, *args, **kw):
    if what.rsplit(".", 1)[-1] in KEEP or what.startswith("__"):  # whether a conversion fails depends on the type and shape
        may_raise()
    elif what.endswith("solve") and args and isinstance(args[0], tuple) and args[0]:  # whether a system can be solved depends on the matrix
        may_raise(args[0][0])
    else:
        may_raise(args, kw)
    ok = low(args) and low(kw)
    out = kw.get("out")
    if isinstance(out, Fl):
        out.touch(args)
        return out
    r = Fl(ok, what)
    n = what.rsplit(".", 1)[-1]
    if not ok and (n in RAGGED or (n not in REDUCE and any(ragged(q) for q in args))):
        r.__dict__["ragged"] = True
    return r


RAGGED = {"unique", "nonzero", "flatnonzero", "argwhere", "setdiff1d", "intersect1d", "union1d", "compress", "masked_select", "repeat", "repeat_interleave", "dropna", "bincount", "Counter", "set"}
REDUCE = {"sum", "max", "min", "mean", "item", "any", "all", "int", "float", "bool", "std", "var", "prod", "median", "argmax", "argmin", "len"}


def ragged(v):
    if isinstance(v, Fl):
        return "ragged" in v.__dict__
    return isinstance(v, (list, tuple)) and any(ragged(q) for q in v)


SAME = KEEP - {"nonzero", "flatnonzero", "reshape", "view", "squeeze", "ravel", "flatten", "tolist", "copy_to"}


def shaped(r, o, n, a):
    """the number of axes, where it is known"""
    if isinstance(o, Fl):
        d = o.__dict__
        if n in SAME:
            for q in ("ndim", "dims"):
                if q in d:
                    r.__dict__[q] = d[q]
        elif n in ("reshape", "view", "ravel", "flatten") and ((len(a) == 1 and _minus_one(a[0])) or (not a and n in ("ravel", "flatten"))):
            r.__dict__["ndim"] = 1
    return r


def _minus_one(q):
    return isinstance(q, int) and q == -1 or isinstance(q, tuple) and len(q) == 1 and isinstance(q[0], int) and q[0] == -1


def kept(o, n, a, k):
    """the released selection a conversion of `o` still is"""
    if not isinstance(o, Fl) or not o.sel or not low((a, k)):
        return None
    sel, kind = o.sel
    if kind == "mask":
        if n in ("nonzero", "flatnonzero", "where", "argwhere"):
            return (sel, "rows")
        ts = [q for q in (*a, *k.values())]
        if n in ("int", "long", "float", "double", "type") or (n in ("astype", "array", "asarray", "as_tensor", "tensor", "to", "from_numpy") and not all(_boolean(q) for q in ts)):
            return None
        if n in ("tolist",):
            return None
    elif n in ("nonzero", "flatnonzero", "where", "bool", "argwhere"):
        return None
    elif any(_boolean_type(q) for q in (*a, *k.values())):
        return None
    return o.sel


def _boolean_type(q):
    return getattr(q, "_real", q) is bool or (isinstance(q, Fl) and q.what.rsplit(".", 1)[-1] in ("bool", "bool_"))


def _boolean(q):
    """an argument of a conversion that leaves a mask a mask"""
    return _boolean_type(q) or isinstance(q, (str, bool)) or (isinstance(q, Fl) and q.what.rsplit(".", 1)[-1] in ("device", "bool", "bool_"))


def draws(what, r):
    """the result of a function that reads the global generators"""
    n = what.rsplit(".", 1)[-1]
    if n in DRAWS and (not state()["rng"] or what.startswith(("numpy.random", "random."))):
        r.__dict__["low"] = False
    return r


class Fl:
    """an opaque value"""

    def __init__(self, low, what="value", sel=None, rows=None, none=False):
        d = self.__dict__
        d["low"], d["what"] = low, what
        d["sel"] = sel  # released selection this index or mask consists of
        d["rows"] = rows  # names of the selections under which the rows of this secret are released
        d["none"] = none
        d["facts"] = {}
        d["attrs"] = {}
        if not isinstance(self, LibFn):
            LIVE.append(weakref.ref(self))

    # ---- decisions
    def _decide(self, q):
        f = self.facts
        if q not in f:
            if not self.low and not (q == "true" and self.__dict__.get("truth")):
                ctx().oblige(f"control flow does not depend on a secret ({self.what}, {q})", False)
                raise PathEnd("control depends on a secret")
            f[q] = bool(ctx().choose(2, "flow"))
        return f[q]

    def __bool__(self):
        return self._decide("true")

    def sym_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if any(q is Fl for q in ts):
            return True
        f = self.facts
        key = "is " + ",".join(sorted(getattr(q, "__name__", str(q)) for q in ts))
        if key not in f:  # the type of a value is not secret
            f[key] = bool(ctx().choose(2, "type"))
        return f[key]

    def is_none(self):
        if not self.none:
            return False
        if "none" not in self.facts:
            if not self.low:
                return self._decide("none")
            self.facts["none"] = bool(ctx().choose(2, "none"))
        return self.facts["none"]

    # ---- structure
    def __getattr__(self, n):
        if n.startswith("__") and n != "__version__":
            raise AttributeError(n)
        a = self.__dict__["attrs"]
        if n in a:
            return a[n]
        if n == "ndim" and "ndim" in self.__dict__:
            return self.__dict__["ndim"]
        if n in META:
            r = Fl("ragged" not in self.__dict__, n)
            r.__dict__["meta_of"] = self
            r.__dict__["truth"] = "classes" in self.__dict__
            if r.low and n != "shape":
                r.__dict__["scalar"] = True
        elif n in ("T", "mT", "data") and False:
            r = None
        else:
            r = Attr(self, n)
        a[n] = r
        return r

    def __setattr__(self, n, v):
        self.touch(v)
        self.__dict__["attrs"][n] = v

    def touch(self, *vs):
        """the object is changed in place from these values"""
        d = self.__dict__
        if d.get("frozen"):
            ctx().oblige(f"frame: {d['frozen']} is not modified", False)
        base = d.get("base")
        if not low(vs) and d["low"]:
            d["low"] = False
            d["what"] = "changed " + d["what"]
        if not low(vs):
            d["rows"] = None
        d["facts"] = {}
        d["sel"] = None
        d["ver"] = d.get("ver", 0) + 1
        for n in [n for n, q in d["attrs"].items() if isinstance(q, Attr)]:
            del d["attrs"][n]
        if base is not None and not d.get("touching"):
            d["touching"] = True
            base.touch(*vs)
            d["touching"] = False
        d.pop("memo", None)
        for v in [q() for q in d.get("views", ())]:
            if v is not None and not v.__dict__.get("touching"):
                v.__dict__["touching"] = True
                v.touch(*vs)
                v.__dict__["touching"] = False

    def view_of(self, base):
        self.__dict__["base"] = base
        base.__dict__.setdefault("views", []).append(weakref.ref(self))
        return self

    def __getitem__(self, i):
        if self.what == "shape" and isinstance(i, int) and "meta_of" in self.__dict__:
            dims = self.meta_of.__dict__.get("dims") or {}
            if i in dims:
                return dims[i]
        may_raise(*(() if isinstance(i, Fl) and "picks" in i.__dict__ else (self, i)))
        first = i[0] if isinstance(i, tuple) and i else i
        if self.rows and isinstance(first, Fl) and first.low and first.sel and first.sel[0] in self.rows and first.sel[1] in ("mask", "rows") and low(i):
            return Fl(True, "released rows")
        if not self.low and self.rows and isinstance(i, tuple) and i and isinstance(first, slice) and first == slice(None) and low(i):
            return Fl(False, self.what, rows=self.rows)
        r = Fl(self.low and low(i), self.what)
        if not low(i) and not (isinstance(i, Fl) and i.what in ("item", "index", "int", "argmax", "argmin")):
            r.__dict__["ragged"] = True
        if "classes" in self.__dict__ and isinstance(i, Fl) and i.__dict__.get("of") is self.__dict__["classes"] and "picks" in i.__dict__:
            r.__dict__["classes"] = self.__dict__["classes"]  # the values that satisfy a condition are a function of the set of values
        if self.sel and self.sel[1] == "rows" and low(i):
            r.__dict__["sel"] = self.sel
        return r.view_of(self)  # a view, perhaps

    def __setitem__(self, i, v):
        may_raise(self, i, v)
        if (self.low or self.rows) and low(v) and isinstance(i, Fl) and not i.low and i.rows and not _frozen(self):
            rows = i.rows if self.low else frozenset(i.rows) & frozenset(self.rows)
            self.touch(i, v)  # row by row from a value whose selected rows are released
            self.__dict__["rows"] = rows
            return
        if not self.low and self.rows and low((i, v)) and isinstance(i, Fl) and i.sel and i.sel[1] == "comask" and i.sel[0] in self.rows and not _frozen(self):
            self.touch(i, v)  # everything but the released rows is overwritten
            self.__dict__["low"], self.__dict__["rows"] = True, None
            return
        if (self.low or self.rows) and low(v) and isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], Fl) and i[0].low and "each" in i[0].__dict__ and isinstance(i[1], Fl) and i[1].rows and not _frozen(self):
            rows = i[1].rows if self.low else frozenset(i[1].rows) & frozenset(self.rows)
            self.touch(i, v)  # in row j, something that depends on row j
            self.__dict__["rows"] = rows
            return
        rows = self.rows if low((i, v)) else None
        self.touch(i, v)
        if rows and not self.low:
            self.__dict__["rows"] = rows

    def __call__(self, *a, **k):
        if "meta_of" in self.__dict__ and self.what in META:
            if self.what == "dim" and "ndim" in self.meta_of.__dict__:
                return self.meta_of.__dict__["ndim"]
            if self.what == "size" and a and isinstance(a[0], int) and a[0] in (self.meta_of.__dict__.get("dims") or {}):
                return self.meta_of.__dict__["dims"][a[0]]
            return self
        return draws(self.what, combine(self.what, self, a, k))

    def __iter__(self):
        raise Unsupported(f"iteration over an opaque value reached CPython ({self.what})")

    def __len__(self):
        raise Unsupported("len of an opaque value reached CPython")

    def __index__(self):
        raise Unsupported(f"an opaque value is used as a Python integer ({self.what})")

    def __float__(self):
        raise Unsupported("float of an opaque value reached CPython")

    def __format__(self, s):
        return "<value>"

    def __str__(self):
        return "<value>"

    __repr__ = __str__

    def __hash__(self):
        return id(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _frozen(v):
    while v is not None:
        if v.__dict__.get("frozen"):
            return True
        v = v.__dict__.get("base")
    return False


def _op(n):
    def f(self, *a):
        if self.low and "scalar" in self.__dict__ and all(isinstance(q, (bool, int, float, str, type(None))) for q in a):
            memo = self.__dict__.setdefault("memo", {})
            if (n, a) not in memo:
                may_raise()
                memo[n, a] = r = Fl(True, n)
                r.__dict__["scalar"] = True
                if self.__dict__.get("truth") and n in ("__eq__", "__ne__", "__gt__") and a == (0,):
                    r.__dict__["truth"] = True
            return memo[n, a]
        r = combine(n, self, a)
        ws = [q for q in (self, *a) if isinstance(q, Fl) and q.rows]
        if not r.low and len(ws) >= 1 and all(q.rows for q in (self, *a) if isinstance(q, Fl) and not q.low) and n not in ("__matmul__", "__rmatmul__"):
            r.__dict__["rows"] = frozenset.intersection(*[frozenset(q.rows) for q in ws])
        if self.__dict__.get("truth") and n in ("__eq__", "__ne__", "__gt__") and a == (0,):
            r.__dict__["truth"] = True
        cl = [q.__dict__["classes"] for q in (self, *a) if isinstance(q, Fl) and "classes" in q.__dict__]
        if cl and n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__") and low([q for q in a]):
            r.__dict__["of"], r.__dict__["picks"] = cl[0], True
        if n == "__invert__" and self.sel and self.sel[1] in ("mask", "comask"):
            r.__dict__["sel"] = (self.sel[0], "comask") if self.sel[1] == "mask" else None
        if n in ("__and__", "__rand__", "__mul__", "__rmul__") and not r.low:
            ms = [q for q in (self, *a) if isinstance(q, Fl) and q.low and q.sel and q.sel[1] in ("mask", "column")]
            hs = [q for q in (self, *a) if isinstance(q, Fl) and not q.low]
            if len(ms) == 1 and len(hs) == 1 and hs[0].rows and ms[0].sel[0] in hs[0].rows:
                r.__dict__["low"] = True  # false or zero outside the released rows
                if n in ("__and__", "__rand__"):
                    r.__dict__["sel"] = ms[0].sel
        if n in ("__and__", "__rand__") and r.low:
            s = {q.sel for q in (self, *a) if isinstance(q, Fl) and q.sel}
            if len(s) == 1 and next(iter(s))[1] == "mask":
                r.__dict__["sel"] = s.pop()
        return r
    return f


for _n in ("add sub mul truediv floordiv mod pow matmul and or xor lshift rshift".split()):
    setattr(Fl, f"__{_n}__", _op(f"__{_n}__"))
    setattr(Fl, f"__r{_n}__", _op(f"__r{_n}__"))
for _n in ("neg pos abs invert lt le gt ge eq ne".split()):
    setattr(Fl, f"__{_n}__", _op(f"__{_n}__"))
for _n in ("add sub mul truediv floordiv mod pow and or xor matmul".split()):
    def _iop(self, o, _n=_n):
        if "scalar" in self.__dict__ or (self.what in ("int", "float", "len") and isinstance(o, (int, float))):
            return combine(_n, self, o)
        if _n == "and" and self.sel and self.sel[1] == "mask" and low(o):
            s = self.sel
            self.touch(o)
            self.__dict__["sel"] = s
            return self
        self.touch(o)
        return self
    setattr(Fl, f"__i{_n}__", _iop)


class Attr(Fl):
    """an attribute or bound method of an opaque object"""

    def __init__(self, of, n):
        super().__init__(of.low, n)
        self.__dict__["of"], self.__dict__["name"] = of, n
        self.view_of(of)
        if n in ("values", "data", "iloc", "loc") and of.rows:
            self.__dict__["rows"] = of.rows

    def __call__(self, *a, **k):
        o, n = self.of, self.name
        if n == "backward" or n == "step":
            ctx().oblige("training follows released labels only", low((o, a, k)))
        f = SPECIAL.get(n)
        if f is not None:
            r = f(o, a, k)
            if r is not NotImplemented:
                return r
        if n in META:
            r = Fl(low(a) and "ragged" not in o.__dict__, n)
            r.__dict__["truth"] = "classes" in o.__dict__
            return r
        r = shaped(combine(n, o, a, k), o, n, a)
        d = r.__dict__
        if n in ("max", "min", "unique") and "classes" in o.__dict__ and low((a, k)):
            d["low"] = True
        if n in KEEP and low((a, k)) and "classes" in o.__dict__:
            d["classes"] = o.__dict__["classes"]
        if n == "unsqueeze" and o.sel and o.sel[1] in ("mask",):
            d["sel"] = (o.sel[0], "column")
        if n in KEEP and low(k):
            if not a or low(a):
                d["sel"], d["rows"] = kept(o, n, a, k), (o.rows if not r.low else None)
        if n in ("numpy", "detach", "cpu", "view", "reshape", "squeeze", "contiguous", "to", "ravel", "T", "t", "unsqueeze", "expand", "data", "asarray", "float", "long", "bool", "double", "flatten", "transpose", "permute", "swapaxes", "view_as") or (
                n == "astype" and k.get("copy") is False) or (n == "type"):
            r.view_of(o)
        if n == "at" and isinstance(o, LibFn) and a and isinstance(a[0], Fl):
            a[0].touch(a[1:], k)
            return None
        # a method may change its object from its arguments, or draw into it
        if not low((a, k)) or (n in DRAWS and n.endswith("_") and not state()["rng"]):
            o.touch(Fl(False, n))
        elif (n.endswith("_") and not n.startswith("_")) or n in CHANGES:
            o.touch()
        return r


SPECIAL = {}


class Lib(types.ModuleType):
    """a library of opaque functions"""

    def __init__(self, name, special=None):
        super().__init__(name)
        self.__dict__["_special"] = special or {}
        self.__dict__["_memo"] = {}
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = self.__dict__["_memo"]
        if n not in m:
            sp = self.__dict__["_special"]
            full = f"{self.__name__}.{n}"
            if n in sp:
                m[n] = sp[n]
            elif n == "Module" and full.endswith("nn.Module"):
                m[n] = Module
            elif n in CLASSES:
                m[n] = type(n, (_Cls,), {})
            elif n[:1].islower() and n in SUBMODULES:
                m[n] = Lib(full, sp)
            else:
                m[n] = LibFn(full)
        return m[n]


class _ClsMeta(type):
    def __call__(cls, *a, **k):
        if cls.__mro__[1] is _Cls or cls is _Cls:
            return combine(cls.__name__, a, k)
        return super().__call__(*a, **k)


class _Cls(metaclass=_ClsMeta):
    """a class of a library: values are opaque, subclasses (nn.Module) are executed"""


class Module:
    """torch.nn.Module: the code of subclasses is executed, parameters are opaque"""

    def __init__(self, *a, **k):
        self.training = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def _self(self, *a, **k):
        return self

    to = eval = train = cuda = cpu = requires_grad_ = apply = float = double = half = zero_grad = _self

    def _all(self, *a, **k):
        return Fl(low(vars(self)), "parameters")

    parameters = named_parameters = state_dict = modules = children = named_modules = buffers = _all

    def load_state_dict(self, st, *a, **k):
        ctx().oblige("weights loaded into a network do not depend on a secret", low(st))

    def register_buffer(self, n, v, *a, **k):
        setattr(self, n, v)

    register_parameter = register_module = add_module = register_buffer


CLASSES = {"Tensor", "ndarray", "Generator", "device", "spmatrix"}
SUBMODULES = {"nn", "functional", "optim", "linalg", "random", "utils", "cuda", "mps", "sparse", "init", "backends", "fft", "testing", "special", "autograd", "csgraph"}


LIBFNS = []


def shared(build):
    """one world for all paths of a task: what was decided about library functions is forgotten in between"""
    box = []

    def get():
        state()
        if not box:
            box.append(build())
        for f in LIBFNS:
            f.__dict__["facts"], f.__dict__["attrs"] = {}, {}
            f.__dict__.pop("memo", None)
        return box[0]
    return get


class LibFn(Fl):
    """a function, class or constant of a library"""

    def __init__(self, full):
        super().__init__(True, full)
        LIBFNS.append(self)

    def __call__(self, *a, **k):
        n = self.what.rsplit(".", 1)[-1]
        if n in ("manual_seed", "manual_seed_all") or (n == "seed" and "random" in self.what):
            if low(a) and "torch" in self.what:
                state()["rng"] = True
            return Fl(low(a), n)
        if n == "no_grad" or n == "enable_grad" or n == "inference_mode":
            return contextlib.nullcontext()
        if n == "is_available":
            return state().setdefault(self.what, Fl(True, n))
        if n in ("is_tensor", "issparse"):
            may_raise()
            return a[0].sym_isinstance(_tensor(n)) if a and isinstance(a[0], Fl) else Fl(True, n)
        if n in ("where", "select") and len(a) == 3:
            m, x, y = a
            if isinstance(m, Fl) and m.low and m.sel and m.sel[1] == "mask" and isinstance(x, Fl) and x.rows and m.sel[0] in x.rows and low(y):
                return Fl(True, "released rows")
        if n == "take" and a and isinstance(a[0], Fl) and a[0].rows and len(a) > 1 and isinstance(a[1], Fl) and a[1].sel and a[1].sel[1] == "rows" and a[1].sel[0] in a[0].rows and a[1].low:
            may_raise()
            return Fl(True, "released rows")
        if n == "where" and len(a) == 1 and isinstance(a[0], Fl):
            return Fl(a[0].low, n, sel=kept(a[0], n, (), {}))
        if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            may_raise()
            return Fl(low(a[1:]) and low(k), n)
        if n in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"):
            a[0].touch(a[1:], k)
            return None
        if n in ("argsort", "arange") and False:
            pass
        r = draws(self.what, combine(n, a, k))
        if n == "arange" and len(a) == 1:
            r.__dict__["each"] = True
        if a:
            shaped(r, a[0], n, a[1:])
        d = r.__dict__
        if a and isinstance(a[0], Fl) and low(a[1:]) and low(k) and n in KEEP | ELEM:
            d["sel"] = kept(a[0], n, a[1:], k) if n in KEEP else None
            d["rows"] = a[0].rows if not r.low else None
            if n in ("asarray", "as_tensor", "from_numpy", "ascontiguousarray"):
                r.view_of(a[0])
        if n in ("unique", "max", "amax", "min") and len(a) == 1 and isinstance(a[0], Fl) and "classes" in a[0].__dict__ and set(k) <= {"sorted", "initial"}:
            r.__dict__["low"] = True
            r.__dict__.pop("ragged", None)
        if n in KEEP and a and isinstance(a[0], Fl) and "classes" in a[0].__dict__ and low((a[1:], k)):
            r.__dict__["classes"] = a[0].__dict__["classes"]
        return r


ELEM = {"isfinite", "isnan", "abs", "sqrt", "log", "exp", "where", "one_hot", "log_softmax", "softmax"}


def _tensor(n):
    return type("Tensor", (), {}) if n == "is_tensor" else type("spmatrix", (), {})


class FlIter:
    """range, enumerate, zip, .items() over opaque values"""

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts

    def item(self):
        if self.kind == "range":
            return Fl(low(self.parts), "index")
        if self.kind == "enumerate":
            return (Fl(low(self.parts), "position"), item_of(self.parts[0]))
        return tuple(item_of(p) for p in self.parts)


def item_of(v):
    if isinstance(v, FlIter):
        return v.item()
    if isinstance(v, Fl):
        if v.what in ("items",):
            return (Fl(v.low, "key"), Fl(v.low, "item"))
        r = Fl(v.low, "item of " + v.what).view_of(v)
        if v.rows:
            r.__dict__["row_of"] = v.rows
        if v.sel and v.sel[1] == "rows":
            r.__dict__["sel"] = v.sel
        return r
    return Fl(low(v), "item")


def opaque_iter(it):
    return isinstance(it, (Fl, FlIter))


class FlowLoop:
    def __init__(self, key, it, names, muts):
        self.key, self.names, self.muts = key, list(names), [m for m in muts]
        if isinstance(it, types.GeneratorType) and False:
            pass
        self.it, self.sym = it, opaque_iter(it)
        self.env, self.first = {}, True
        if self.sym:
            if ragged(it) or (isinstance(it, FlIter) and (any(ragged(q) for q in it.parts) or (it.kind == "range" and not low(it)))):
                ctx().oblige("the number of iterations does not depend on a secret", False)
                raise PathEnd("control depends on a secret")
        else:
            self._it = builtins.iter(it)

    def more(self, env):
        if not self.sym:
            try:
                self._next = next(self._it)
                return True
            except StopIteration:
                return False
        if self.first:
            self.first = False
            return bool(ctx().choose(2, "more"))
        self.check_back(env)
        raise PathEnd("loop back edge")

    def item(self):
        return item_of(self.it) if self.sym else self._next

    def has(self, n):
        return self.sym and n in self.env

    def val(self, n):
        return self.env[n]

    def enter(self, env):
        c = ctx()
        env = {k: v for k, v in env.items() if not k.startswith("__")}
        self.high = c.loop_mut.setdefault(("flow", self.key), set())
        self.objs = []
        for n in sorted(set(self.names) | set(self.muts)):
            if n in env and not _plain_object(env[n]):
                v = env[n]
                self.env[n] = env[n] = self.havoc(n, v)
            elif n in self.names and n not in env and n in c.loop_mut.get("unbound", ()):
                if ctx().choose(2, "the loop ran before"):
                    self.env[n] = env[n] = Fl(n not in self.high, "any " + n, none=True)
        seen = set()
        self.changing = c.loop_mut.setdefault(("flow attributes", self.key), set())
        for n, v in list(env.items()):
            if _plain_object(v):
                self.havoc_obj(n, v, seen)
        self.snap = {p: (v, _snapshot(v)) for n, o in env.items() if _plain_object(o) for p, v in _attrs(n, o)}
        for path, f in paths(env):
            if path in self.high and f.low:
                f.__dict__["low"] = False
        self.head = {p: f.low for p, f in paths(env)}
        self.head_ids = {n: v for n, v in env.items()}
        env = None
        if state().get("forget"):  # what earlier decisions established is dropped: more behaviours, not fewer
            for r in LIVE:
                v = r()
                if v is not None:
                    v.__dict__["facts"] = {}
        merge()

    def havoc_obj(self, n, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        for a, q in list(vars(v).items()):
            if _plain_object(q):
                self.havoc_obj(f"{n}.{a}", q, seen)
            elif f"{n}.{a}" in self.changing:
                _set(v, a, self.havoc(f"{n}.{a}", q))

    def havoc(self, n, v):
        if isinstance(v, Fl):
            if v.__class__ is not Fl:
                return v
            r = Fl(v.low and n not in self.high, v.what, none=v.none, rows=v.rows)
            for k in ("frozen",):
                if k in v.__dict__:
                    r.__dict__[k] = v.__dict__[k]
            return r.view_of(v)
        return Fl(low(v) and n not in self.high, "any " + n, none=True)

    def check_back(self, env):
        env = {k: v for k, v in env.items() if not k.startswith("__")}
        new = set()
        for n, v in env.items():
            if n in self.env or (n in self.head_ids and not _plain_object(v)):
                if not low(v) and (n not in self.head or self.head[n]) and (n in self.env):
                    new.add(n)
                elif isinstance(v, Fl) and n in self.head and self.head[n] and not v.low:
                    new.add(n)
        for p, f in paths(env):
            if p in self.head and self.head[p] and not f.low:
                new.add(p)
        for n, v in env.items():
            if _plain_object(v):
                for a, q in _attrs(n, v):
                    if not low(q) and self.head.get(a, True):
                        new.add(a)
        moved = set()
        for n, o in env.items():
            if _plain_object(o):
                for p, v in _attrs(n, o):
                    if p not in self.changing and n in self.head_ids and self.head_ids[n] is o and (p not in self.snap or self.snap[p][0] is not v or self.snap[p][1] != _snapshot(v)):
                        moved.add(p)
        new -= self.high
        if moved:
            self.changing |= moved
            raise Restart()
        if new:
            self.high |= new
            raise Restart()


def run(f, *a, **k):
    """call code of the repository; a name bound in a loop that ran before the cut is bound on a second try"""
    c = ctx()
    try:
        return f(*a, **k)
    except (UnboundLocalError, NameError) as e:
        import re

        m = re.search(r"'(\w+)'", str(e))
        known = c.loop_mut.setdefault("unbound", set())
        if m and m.group(1) not in known:
            known.add(m.group(1))
            raise Restart() from e
        raise


def _snapshot(v):
    if isinstance(v, Fl):
        return (v.__dict__.get("ver", 0),)
    if isinstance(v, dict):
        return tuple((k, id(q), _snapshot(q)) for k, q in v.items())
    if isinstance(v, (list, tuple, set)):
        return tuple((id(q), _snapshot(q)) for q in v)
    return None


def _set(o, a, v):
    try:
        setattr(o, a, v)
    except Exception:
        object.__setattr__(o, a, v)


def _plain_object(v):
    return hasattr(v, "__dict__") and not isinstance(v, (Fl, FlIter, type, types.ModuleType, types.FunctionType, BaseException, contextlib.AbstractContextManager))


def _attrs(n, v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    for a, q in vars(v).items():
        if _plain_object(q):
            yield from _attrs(f"{n}.{a}", q, seen)
        else:
            yield f"{n}.{a}", q


def paths(env):
    for n, v in env.items():
        if isinstance(v, Fl):
            yield n, v
        elif _plain_object(v):
            for a, q in _attrs(n, v):
                if isinstance(q, Fl):
                    yield a, q
        elif isinstance(v, (list, tuple)):
            for i, q in enumerate(v):
                if isinstance(q, Fl):
                    yield f"{n}[{i}]", q
        elif isinstance(v, dict):
            for i, q in v.items():
                if isinstance(q, Fl):
                    yield f"{n}[{i!r}]", q


class FlowWLoop(FlowLoop):
    def __init__(self, key, test, names, muts):
        super().__init__(key, (), names, muts)
        self.sym = True
        self.it = None

    def head(self, env):  # noqa: F811  (an instance attribute of the same name is set on entry)
        raise NotImplementedError

    def test(self, v):
        return v


class _WHead:
    pass


class FlowVC(lift.VC):
    def loop(self, key, it, names, muts):
        return FlowLoop(key, it, names, muts)

    def point(self):
        if state().get("points"):
            for k in [k for k in state() if k.endswith("is_available")]:
                del state()[k]
            for r in LIVE:
                v = r()
                if v is not None:
                    d = v.__dict__
                    for n in [n for n, q in d["attrs"].items() if isinstance(q, Attr) or n in META]:
                        del d["attrs"][n]
                    if d.get("frozen"):
                        d["facts"] = {}
            merge()

    def wloop(self, key, test, names, muts):
        return _While(key, names, muts)

    @contextlib.contextmanager
    def tried(self):
        s = state()
        s["try"] += 1
        s["budget"] = s.get("limit", 6)
        try:
            yield
        finally:
            s["try"] -= 1

    def unpack(self, v, n):
        if isinstance(v, Fl):
            if v.what in META and v.__dict__.get("meta_of") is not None:
                return [v[i] for i in range(n)]
            return [Fl(v.low, f"part of {v.what}", sel=v.sel if v.sel and v.sel[1] == "rows" else None).view_of(v) for _ in range(n)]
        return v

    def fstr(self, *parts):
        if all(not isinstance(p, tuple) or low(p[0]) for p in parts):
            if any(isinstance(p, tuple) and isinstance(p[0], (Fl, lift.OpaqueStr)) for p in parts):
                return "<text>"
            return super().fstr(*parts)
        return Fl(False, "text")

    def same(self, a, b, neg):
        if b is None and isinstance(a, Fl):
            r = a.is_none()
        elif a is None and isinstance(b, Fl):
            r = b.is_none()
        elif isinstance(a, Fl) and isinstance(b, (Fl, bool)) and a is not b:
            r = bool(combine("is", a, b))
        else:
            r = a is b
        return (not r) if neg else r

    def contains(self, a, b, neg):
        if isinstance(a, Fl) or isinstance(b, Fl) or (isinstance(b, (set, frozenset, tuple, list, dict)) and any(isinstance(q, Fl) for q in b)):
            r = combine("in", a, b)
            if not neg:
                return r
            return combine("not", r)
        r = a in b
        return (not r) if neg else r

    def comp(self, kind, it, f, cond, nest):
        if isinstance(it, Fl) or isinstance(it, FlIter):
            x = item_of(it)
            ok, rows = low(it), isinstance(it, Fl) and it.rows
            if cond is not None:
                g = cond(x)
                ok, rows = ok and low(g), False
            v = f(x)
            if nest and isinstance(v, (Fl, FlIter)):
                pass
            r = Fl(ok and low(v), "list")
            if rows and not r.low:
                r.__dict__["rows"] = it.rows
            return r
        out = []
        it = builtins.iter(it)
        for x in it:
            if cond is None or _truth(cond(x)):
                v = f(x)
                if nest:
                    if isinstance(v, Fl):
                        return Fl(low(out) and v.low and low(list(it)), "list")
                    out.extend(v)
                else:
                    out.append(v)
        if kind in ("list", "flat"):
            return out
        if kind == "gen":
            return builtins.iter(out)
        if kind == "set":
            return Fl(low(out), "set") if any(isinstance(v, Fl) for v in out) else set(out)
        return dict(out)


def _truth(v):
    return bool(v)


class _While:
    def __init__(self, key, names, muts):
        self.lp = FlowLoop(key, Fl(True, "while"), names, muts)
        self.sym, self.first = True, True

    def enter(self, env):
        self.lp.enter(env)

    def has(self, n):
        return self.lp.has(n)

    def val(self, n):
        return self.lp.val(n)

    def head(self, env):
        if self.first:
            self.first = False
            return True
        self.lp.check_back(env)
        raise PathEnd("loop back edge")

    def test(self, v):
        return v


# ---- builtins -----------------------------------------------------------------
def _scalar(name, real):
    def f(*a, **k):
        if len(a) == 1 and not k and isinstance(a[0], Fl) and a[0].low and "scalar" in a[0].__dict__:
            memo = a[0].__dict__.setdefault("memo", {})
            if name not in memo:
                may_raise()
                memo[name] = Fl(True, name)
                memo[name].__dict__["scalar"] = True
            return memo[name]
        if a and isinstance(a[0], Fl):
            r = combine(name, *a)
            if isinstance(a[0], Fl) and a[0].__dict__.get("row_of"):
                r.__dict__["row_of"] = a[0].row_of
            return r
        return real(*a, **k)
    return f


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], (Fl, FlIter)):
            if cls._name in ("list", "tuple", "set", "dict", "frozenset"):
                may_raise()
                o = a[0]
                return Fl(low(o), cls._name, sel=o.sel if isinstance(o, Fl) and o.sel and o.sel[1] == "rows" else None, rows=o.rows if isinstance(o, Fl) and not o.low else None)
            if cls._name == "bool":
                return bool(a[0])
            return _scalar(cls._name, None)(*a)
        if cls._name == "int" and a and not isinstance(a[0], (int, float, str, bytes)) and not hasattr(a[0], "__int__"):
            return combine("int", *a)
        return cls._real(*a, **k)


def _mktype(real):
    return _TypeMeta(real.__name__, (), {"_real": real, "_name": real.__name__})


_REAL = {}


def f_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for q in ts:
        if isinstance(q, tuple):
            flat += q
        else:
            flat.append(q)
    if isinstance(o, Fl):
        return o.sym_isinstance(tuple(flat))
    real = tuple(getattr(q, "_real", q) for q in flat if isinstance(q, type) or hasattr(q, "_real"))
    return isinstance(o, tuple(q for q in real if isinstance(q, type)))


def f_hasattr(o, n):
    if isinstance(o, Fl):
        return o.sym_isinstance(types.SimpleNamespace(__name__="has " + n)) if not isinstance(o, LibFn) else bool(ctx().choose(2, "has"))
    if isinstance(o, Lib):
        return bool(ctx().choose(2, "has"))
    return hasattr(o, n)


def f_len(o):
    if isinstance(o, Fl):
        return Fl(True if (o.low or o.rows) else o.low, "len")
    if isinstance(o, FlIter):
        return Fl(low(o), "len")
    return len(o)


def f_range(*a):
    return FlIter("range", *a) if any(isinstance(q, Fl) for q in a) else range(*a)


def f_enumerate(x, start=0):
    return FlIter("enumerate", x) if opaque_iter(x) else enumerate(x, start)


def f_zip(*a, **k):
    return FlIter("zip", *a) if any(opaque_iter(q) for q in a) else zip(*a, **k)


def _fold(name, real):
    def f(*a, **k):
        if low((a, k)) and not any(isinstance(q, (Fl, FlIter)) for q in a) and not any(isinstance(q, Fl) for p in a if isinstance(p, (list, tuple)) for q in p):
            return real(*a, **k)
        args = [list(q) if isinstance(q, types.GeneratorType) else q for q in a]
        r = combine(name, args, k)
        if name == "max" and any(isinstance(q, Fl) and q.__dict__.get("classes") for q in a):
            r.__dict__["low"] = True
        return r
    return f


def _quant(name, real):
    def f(x):
        if isinstance(x, (Fl, FlIter)):
            return bool(combine(name, x))
        return real(bool(q) for q in x)
    return f


def f_getattr(o, n, *d):
    if isinstance(o, Fl) and d and not isinstance(n, Fl):
        if not f_hasattr(o, n):
            return d[0]
    return getattr(o, n, *d)


def f_iter(x):
    return x if isinstance(x, (Fl, FlIter)) else builtins.iter(x)


def f_map(f, *xs):
    if any(opaque_iter(x) for x in xs):
        r = combine("map", xs)
        if isinstance(xs[0], Fl) and xs[0].rows and not r.low:
            r.__dict__["rows"] = xs[0].rows
        return r
    return map(f, *xs)


TYPES = {n: _mktype(getattr(builtins, n)) for n in ("int", "float", "str", "list", "tuple", "set", "dict", "frozenset", "bytes", "complex")}


def f_bool(x=False):
    return bool(x)


f_bool._real = bool


def f_id(o):
    """the address of an object: distinct objects have distinct ones"""
    ids = state().setdefault("ids", {})
    return ids.setdefault(id(o), (len(ids) + 1, o))[0]


class Proxy(types.ModuleType):
    """a module some of whose names are replaced"""

    def __init__(self, real, **kw):
        super().__init__(real.__name__)
        self.__dict__.update(kw, _real=real)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class Suppress(contextlib.suppress):
    def __enter__(self):
        s = state()
        s["try"] += 1
        s["budget"] = s.get("limit", 6)

    def __exit__(self, *e):
        state()["try"] -= 1
        return super().__exit__(*e)


class FlowWorld(lift.World):
    def __init__(self, **kw):
        libs = kw.pop("libs", ())
        super().__init__(**kw)
        self.vc = FlowVC(self)
        self.shims["numpy"] = Lib("numpy")
        for n in libs:
            self.shims[n] = Lib(n)
        import collections

        self.shims["collections"] = Proxy(collections, Counter=lambda *a: combine("Counter", *a))
        self.shims["random"] = Lib("random")
        import math

        self.shims["math"] = Proxy(math, **{n: _scalar(n, getattr(math, n)) for n in dir(math) if callable(getattr(math, n)) and not n.startswith("_")})
        self.shims["contextlib"] = Proxy(contextlib, suppress=Suppress)
        b = self.builtins
        b.update(TYPES)
        b.update(bool=f_bool, id=f_id, isinstance=f_isinstance, hasattr=f_hasattr, getattr=f_getattr, len=f_len, range=f_range, enumerate=f_enumerate, zip=f_zip,
                 min=_fold("min", min), max=_fold("max", max), sum=_fold("sum", sum), sorted=_fold("sorted", sorted), abs=_fold("abs", abs), round=_fold("round", round),
                 any=_quant("any", any), all=_quant("all", all), map=f_map, iter=f_iter, type=type, hash=hash, print=lambda *a, **k: None)
