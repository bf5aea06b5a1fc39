"""Shared specification helpers."""
import types

from pyvc import arrays as A
from pyvc import lift
from pyvc.core import PathEnd, Unsupported, ctx, z3
from pyvc.lists import ArrList, ScalarSeq, SymSeq
from pyvc.npshim import SRng, np_shim
from pyvc.values import Sym, SymBool, SymInt, SymReal, SymU, strconst, tb, ti, tn, unwrap, wrap
from vf.task import Task

World = lift.World
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies


def I(name):  # noqa: E743
    return SymInt(ctx().int(name))


def R(name):
    return SymReal(ctx().real(name))


def B(name):
    return SymBool(ctx().bool(name))


def labels(name="y", kind="U"):
    c = ctx()
    n = c.int("n_" + name)
    c.assume(n >= 0)
    return A.fresh_array(name, (n,), kind)


def skolem(name="x"):
    """a universally quantified index of the specification"""
    x = ctx().int(name)
    A.add_probe(x)
    return x


def inrange(x, n):
    return If(And(x >= 0, x < n), 1, 0)


def ns(**kw):
    return types.SimpleNamespace(**kw)


def pathshim():
    import platformdirs

    return {"platformdirs": platformdirs}


def partition3(n, base="part"):
    """three index arrays that together hold every x of [0, n) exactly once"""
    c = ctx()
    a, b, d = (A.fresh_index_array(f"{base}{i}", lo=0, hi=n, distinct=True) for i in range(3))

    def fact(x):
        return a.cntf(x) + b.cntf(x) + d.cntf(x) == inrange(x, n)

    for q in (a, b, d):
        q.cnt(z3.IntVal(0))
    A.forall(fact)
    c.assume(a.sz + b.sz + d.sz == n)
    return a, b, d
