"""Proof tasks."""

from __future__ import annotations


class Task:
    """One contract verified against the lifted source of the real function(s).

    name       "module.function" as shown in the evidence
    run        function of the Ctx, run once per path
    under      functions of /repo whose bodies the task executes symbolically
    assumes    callee contracts used in place of bodies (each is proved by another task or trusted)
    central    the property's central postcondition is among the obligations
    """

    def __init__(self, name, run, under, assumes=(), central=True, wall=200, must=(), **ctx_args):
        self.name, self.run, self.under = name, run, list(under)
        self.assumes = list(assumes)
        self.central = central
        self.wall = wall
        self.must = list(must)  # cover points some path has to reach
        self.ctx_args = ctx_args


def verify(task):
    from pyvc.core import Ctx

    c = Ctx(task.name, wall_s=task.wall, **task.ctx_args)
    setup = getattr(task, "setup", None)
    if setup:
        setup(c)
    c.explore(task.run)
    s = c.summary()
    s["vacuous"] += [q for q in getattr(task, "must", ()) if q not in c.covers]
    s["failed"] = [o.as_dict() for o in c.obls if o.status == "failed"]
    s["exact_failures"] = [o.as_dict() for o in c.obls if o.status == "failed" and not o.abstract]
    s["wall_s"] = round(c.wall, 2)
    s["notes"] = sorted(c.assumption_notes)
    s["invariants_dropped"] = len(c.dropped)
    s["under"] = task.under
    s["assumes"] = task.assumes
    s["central"] = task.central
    return s
