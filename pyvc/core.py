from __future__ import annotations

import os
import sys
import time
import traceback

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402


class EngineExit(BaseException):
    """Engine control flow: never caught by `except Exception` in the code under verification."""


class PathEnd(EngineExit):
    """The current path is finished (infeasible, cut at a back edge, ...)."""


class Unsupported(EngineExit):
    """A construct outside the verifier's subset: the function is undecided."""


class Restart(EngineExit):
    """A candidate invariant was dropped: the exploration starts again."""


class Obligation:
    __slots__ = ("fn", "label", "status", "backend", "model", "trace", "time", "detail", "abstract")

    def __init__(self, fn, label, status, backend, model, trace, t, detail=""):
        self.fn, self.label, self.status, self.backend = fn, label, status, backend
        self.model, self.trace, self.time, self.detail = model, trace, t, detail

    def as_dict(self):
        return {
            "function": self.fn,
            "obligation": self.label,
            "status": self.status,
            "backend": self.backend,
            "counter_model": self.model,
            "path": self.trace,
            "detail": self.detail,
            "through_abstractions": self.abstract,
        }


CTX = None  # the active context


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a verification run")
    return CTX


class Ctx:
    """One verification task: explores every path of `run()`."""

    def __init__(self, fn_name, *, feas_rl=4_000_000, nl_rl=600_000, full_rl=60_000_000, max_paths=4000, wall_s=240):
        # solver effort is limited by z3's resource counter, not by time, so that a result does
        # not depend on the load of the machine
        self.fn = fn_name
        self.feas_rl, self.nl_rl, self.full_rl = feas_rl, nl_rl, full_rl
        self.max_paths = max_paths
        self.wall_s = wall_s
        self.obls = []
        self.paths = 0
        self.ends = {}
        self.solver_time = 0.0
        self.covers = {}
        self.undecided = []
        # houdini
        self.dropped = set()
        self.assumption_notes = set()
        self.restart_count = 0
        self.exact = True
        # relational mode: function symbols that differ in the second run
        self.rel = False
        # loops: objects found to be changed in place, names found to be rebound, list kinds
        self.loop_mut = {}
        self.loop_rebind = {}
        self.loop_kind = {}
        self.loop_opt = {}
        self.loop_dims = {}
        self.loop_invs = {}
        self.probe_mode = False

    # ---- path state -------------------------------------------------
    def _reset_path(self, prefix):
        self.solver = z3.Solver()
        # the same assumptions without nonlinear definitions: proofs found here are cheap and sound
        self.lin = z3.Solver()
        self.nl = False
        self.abstract = []  # abstractions the current path went through
        self.pc = []
        self.seen = set()
        self.trace = []
        self.prefix = prefix
        self.pos = 0
        self.counter = {}
        self.memo = {}
        self.notes = []
        self.subst = []  # (decl, decl') pairs of the second run
        self.high = {}
        self.loop_state = {}
        self.ghost = {}

    def fresh_name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}" if k else base

    def int(self, base):
        return z3.Int(self.fresh_name(base))

    def real(self, base):
        return z3.Real(self.fresh_name(base))

    def bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def func(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    # ---- logic ------------------------------------------------------
    def assume(self, c, note=None):
        if isinstance(c, bool):
            if not c:
                raise PathEnd("assume False")
            return
        if z3.is_true(c):
            return
        i = c.get_id()
        if i in self.seen:  # the path condition keeps the term alive, so its id is its own
            return
        self.seen.add(i)
        self.pc.append(c)
        self.solver.add(c)
        self.lin.add(c)

    def assume_nl(self, c):
        """a nonlinear definition: only the full solver sees it"""
        self.nl = True
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra, full=False):
        t = time.time()
        try:
            if self.nl:
                self.lin.set("rlimit", self.full_rl if full else self.feas_rl)
                r = self.lin.check(*extra)
                if r == z3.unsat:
                    return r
                if self.ghost.get("linear"):  # the proof is linear; the full solver would only search longer
                    return z3.unknown
                self.solver.set("rlimit", self.full_rl if full else self.nl_rl)
                return self.solver.check(*extra)
            self.solver.set("rlimit", self.full_rl if full else self.feas_rl)
            return self.solver.check(*extra)
        finally:
            self.solver_time += time.time() - t

    def feasible(self, *extra):
        return self._check(*extra) != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.probe_mode:
            from .loops import _SymTest

            raise _SymTest()
        if self.rel:
            o = self.other(cond)
            if not o.eq(cond):
                self.oblige("control flow does not depend on hidden data", cond == o)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        t_ok = self.feasible(cond)
        f_ok = self.feasible(z3.Not(cond)) if t_ok else True
        if t_ok and f_ok:
            self.work.append(list(self.trace) + [False])
            self.trace.append(True)
            self.pos += 1
            self.assume(cond)
            return True
        # forced: recorded as well, so that a replayed prefix stays aligned
        self.trace.append(bool(t_ok))
        self.pos += 1
        self.assume(cond if t_ok else z3.Not(cond))
        return bool(t_ok)

    def choose(self, n, what="choice"):
        """Nondeterministic choice among n alternatives (all explored)."""
        for i in range(n - 1):
            if "flow" in self.ghost:  # nothing symbolic: the choice needs no solver
                if self.fork():
                    return i
                continue
            b = self.bool("choose_" + what)
            if self.branch(b):
                return i
        return n - 1

    def fork(self):
        """both alternatives are possible"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.work.append(list(self.trace) + [False])
        self.pos += 1
        self.trace.append(d)
        return d

    def other(self, term):
        """The term as the second run sees it (relational mode)."""
        if not self.subst:
            return term
        out = z3.substitute_funs(term, *[(d, b) for d, b, k in self.subst if k == "fun"]) if any(
            k == "fun" for _, _, k in self.subst
        ) else term
        cs = [(d, b) for d, b, k in self.subst if k == "const"]
        if cs:
            out = z3.substitute(out, *cs)
        return out

    def entails(self, goal, cheap=False):
        """True when the path condition implies the goal (used for contract side conditions)."""
        if isinstance(goal, bool):
            return goal
        if cheap and self.nl:
            t = time.time()
            self.lin.set("rlimit", self.feas_rl // 4)
            r = self.lin.check(z3.Not(goal))
            self.solver_time += time.time() - t
            return r == z3.unsat
        return self._check(z3.Not(goal)) == z3.unsat

    def oblige(self, label, goal, detail=""):
        """Record and try to discharge an obligation."""
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        r = self._check(z3.Not(goal), full=True)
        backend = "z3"
        model = None
        if r == z3.unsat:
            status = "discharged"
        elif r == z3.sat:
            status = "failed"
            try:
                model = _model_dict(self.solver.model())
            except z3.Z3Exception:
                model = {}
        else:
            status, backend = _cvc5_check(self.solver, goal, 20000)
        o = Obligation(self.fn, label, status, backend, model, list(self.trace), time.time() - t0, detail)
        o.abstract = sorted(set(self.abstract))
        self.obls.append(o)
        if status == "discharged":
            self.assume(goal)
        return status == "discharged"

    # ---- exploration ------------------------------------------------
    def explore(self, run):
        global CTX
        t0 = time.time()
        while True:
            try:
                self._explore_once(run, t0)
                break
            except Restart:
                self.restart_count += 1
                if self.restart_count > 400:
                    self.undecided.append("invariant inference did not converge")
                    break
                continue
        self.wall = time.time() - t0
        return self

    def _explore_once(self, run, t0):
        global CTX
        self.obls = []
        self.paths = 0
        self.ends = {}
        self.undecided = []
        self.covers = {}
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                self.undecided.append(f"path limit {self.max_paths} reached")
                return
            if time.time() - t0 > self.wall_s:
                self.undecided.append(f"time limit {self.wall_s}s reached")
                return
            prefix = self.work.pop()
            self._reset_path(prefix)
            self.paths += 1
            prev = CTX
            CTX = self
            try:
                run(self)
                end = "returned"
            except PathEnd as e:
                end = "cut: " + str(e)
            except Unsupported as e:
                end = "unsupported"
                self.undecided.append("unsupported: " + str(e) + _where())
            except Restart:
                raise
            except RecursionError:
                end = "unsupported"
                self.undecided.append("unsupported: recursion")
            except Exception as e:  # raised by the code under verification outside `raises`
                end = "engine error"
                self.undecided.append("engine: " + repr(e)[:300] + _where())
            finally:
                CTX = prev
            self.ends[end] = self.ends.get(end, 0) + 1

    def cover(self, label):
        """Vacuity guard: the path condition must be satisfiable here on at least one path."""
        ok = self.covers.get(label, False)
        if not ok:
            ok = self._check() == z3.sat or ok
        self.covers[label] = ok

    # ---- results ----------------------------------------------------
    def summary(self):
        failed = [o for o in self.obls if o.status == "failed"]
        unk = [o for o in self.obls if o.status == "unknown"]
        return {
            "function": self.fn,
            "paths": self.paths,
            "obligations": len(self.obls),
            "discharged": len([o for o in self.obls if o.status == "discharged"]),
            "failed": [o.as_dict() for o in failed],
            "unknown": [o.label for o in unk],
            "undecided": self.undecided[:5],
            "vacuous": [k for k, v in self.covers.items() if not v],
            "solver_s": round(self.solver_time, 3),
            "labels": sorted({o.label for o in self.obls}),
            "ends": self.ends,
            "backends": _count(o.backend for o in self.obls if o.status == "discharged"),
        }


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    last = [f for f in fr if "/repo/" in f.filename or f.filename.startswith("<lifted")]
    if last:
        return f" at {last[-1].filename}:{last[-1].lineno}" + (
            f" <- {fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}" if os.environ.get("PYVC_DEBUG") else ""
        )
    return f" at {fr[-1].filename}:{fr[-1].lineno}" if fr else ""


def _model_dict(m):
    out = {}
    for d in m.decls():
        try:
            v = m[d]
            s = str(v)
            if len(s) > 200:
                s = s[:200]
            out[d.name()] = s
        except z3.Z3Exception:
            pass
        if len(out) > 60:
            break
    return out


def _cvc5_check(solver, goal, timeout_ms):
    try:
        import cvc5

        s2 = z3.Solver()
        s2.add(solver.assertions())
        s2.add(z3.Not(goal))
        text = s2.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif "sat" in str(out):
                res = "sat"
        if res == "unsat":
            return "discharged", "cvc5"
    except EngineExit:
        raise
    except BaseException:
        pass
    return "unknown", "none"
