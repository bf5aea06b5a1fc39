"""The check of one property: proof phase on the lifted source, then the bounded run-time contracts
on the real code.  Exit 0 or 1 (see DESIGN.md)."""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from vf.gen import G, REPO, Finding, Skip, Violation, case_seed, from_repo, short  # noqa: E402

for p in (f"{REPO}/src", REPO):
    if p not in sys.path:
        sys.path.insert(0, p)


def _load(kind, pid):
    name = f"{kind}.{pid.lower()}"
    path = os.path.join(VERIF, kind, pid.lower() + ".py")
    if not os.path.exists(path):
        return None
    return importlib.import_module(name)


# ---- worker processes -------------------------------------------------------
def _child(fn, args, conn, mem_gb, tmp):
    try:
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.chdir(tmp)
        for k, d in (("XDG_CACHE_HOME", "cache"), ("MPLCONFIGDIR", "mpl"), ("HOME", "home"), ("TMPDIR", "tmp")):
            os.environ[k] = os.path.join(tmp, d)
            os.makedirs(os.environ[k], exist_ok=True)
        os.environ["MODSSC_CACHE_DIR"] = os.path.join(tmp, "mcache")
        tempfile.tempdir = os.environ["TMPDIR"]
        sys.stdout = open(os.devnull, "w")
        if not os.environ.get("VF_STDERR"):
            sys.stderr = open(os.devnull, "w")
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1), os.dup2(dn, 2)
        import logging
        import warnings

        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        r = fn(*args)
        conn.send(("ok", r))
    except BaseException as e:  # noqa: BLE001
        try:
            conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}"))
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, nproc, tmp_root):
    """jobs: list of (id, fn, args, wall limit, mem). Returns {id: (status, value)}"""
    ctxm = mp.get_context("fork")
    pending, running, out = list(jobs), {}, {}
    n = 0
    while pending or running:
        while pending and len(running) < nproc:
            jid, fn, args, wall, mem = pending.pop(0)
            n += 1
            tmp = os.path.join(tmp_root, f"w{n}")
            os.makedirs(tmp)
            a, b = ctxm.Pipe(False)
            pr = ctxm.Process(target=_child, args=(fn, args, b, mem, tmp))
            pr.start()
            b.close()
            running[jid] = (pr, a, time.time() + wall, tmp)
        time.sleep(0.02)
        for jid, (pr, a, dl, tmp) in list(running.items()):
            done = False
            if a.poll():
                try:
                    out[jid] = a.recv()
                except EOFError:
                    out[jid] = ("err", "worker died")
                done = True
            elif not pr.is_alive():
                out[jid] = ("err", f"worker exited with {pr.exitcode}")
                done = True
            elif time.time() > dl:
                out[jid] = ("timeout", None)
                done = True
            if done:
                try:
                    os.killpg(pr.pid, 9)
                except (ProcessLookupError, PermissionError):
                    pass
                pr.join(5)
                a.close()
                shutil.rmtree(tmp, ignore_errors=True)
                del running[jid]
    return out


def prove_one(pid, k):
    from vf.task import verify

    m = _load("contracts", pid)
    return verify(m.TASKS[k])


def scenario_batch(pid, name, seed, lo, hi, deadline):
    m = _load("bounded", pid)
    fn = dict((s[0], s[1]) for s in m.SCENARIOS)[name]
    res = {"cases": 0, "evals": 0, "skipped": 0, "distinct": set(), "samples": [], "viol": [], "findings": {},
           "errors": [], "truncated": False}
    for k in range(lo, hi):
        if time.time() > deadline:
            res["truncated"] = True
            break
        one = run_case(fn, case_seed(seed, name, k))
        kind = one["kind"]
        if kind == "skip":
            res["skipped"] += 1
            continue
        res["cases"] += 1
        res["evals"] += one["evals"]
        res["distinct"].add(one["sig"])
        for key, msg in one["findings"]:
            res["findings"].setdefault(key, {"msg": msg, "seed": one["seed"], "info": one["info"]})
        if len(res["samples"]) < 2:
            res["samples"].append({"scenario": name, "case_seed": one["seed"], "input": one["info"]})
        if kind == "violation":
            res["viol"].append({"scenario": name, "case_seed": one["seed"], "message": one["message"],
                                "input": one["info"], "traceback": one.get("tb")})
            if len(res["viol"]) >= 3:
                break
        if kind == "error":
            res["errors"].append({"scenario": name, "case_seed": one["seed"], "message": one["message"]})
            if len(res["errors"]) >= 5:
                break
    return res


def run_case(fn, seed):
    tmp = tempfile.mkdtemp(prefix="case")
    g = G(seed, tmp)
    out = {"seed": seed, "kind": "ok"}
    try:
        fn(g)
    except Skip:
        out["kind"] = "skip"
    except Violation as e:
        out.update(kind="violation", message=str(e))
        out["tb"] = traceback.format_exc()[-1500:]
    except Exception as e:  # noqa: BLE001
        inside = from_repo(sys.exc_info()[2])
        out.update(kind="violation" if inside and not isinstance(e, (ImportError, NotImplementedError)) else "error",
                   message=f"unexpected {type(e).__name__}: {e}"[:500])
        out["tb"] = traceback.format_exc()[-2500:]
        if out["kind"] == "error":
            out["message"] += "\n" + out["tb"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out["evals"] = g.evals
    out["info"] = {k: short(v) for k, v in g.info.items()}
    out["findings"] = g.findings
    out["sig"] = g.sig if g.sig is not None else hash(json.dumps(out["info"], sort_keys=True, default=str))
    return out


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING: property=(\w+) \[([\w.-]+)\] (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(argv):
    pid = argv[0].upper()
    if pid == "SETUP":
        import modssc  # noqa: F401
        import pyvc.core  # noqa: F401

        print("ok: modssc from", modssc.__file__)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if len(argv) >= 3 and argv[1] == "--replay":
        return replay(pid, argv[2])
    t0 = time.time()
    tmp_root = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    try:
        return check(pid, tier, seed, t0, tmp_root)
    finally:
        shutil.rmtree(tmp_root, ignore_errors=True)


def replay(pid, path):
    d = json.load(open(path))
    m = _load("bounded", pid)
    fn = dict((s[0], s[1]) for s in m.SCENARIOS)[d["scenario"]]
    tmp = tempfile.mkdtemp(prefix="vf-replay-")
    os.chdir(tmp)
    os.environ["XDG_CACHE_HOME"] = os.path.join(tmp, "cache")
    try:
        r = run_case(fn, d["case_seed"])
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps({k: v for k, v in r.items() if k != "sig"}, indent=1, default=str))
    return 1 if r["kind"] == "violation" else 0


def check(pid, tier, seed, t0, tmp_root):
    load_errors = []

    def load(kind):
        try:
            return _load(kind, pid)
        except Exception as e:  # noqa: BLE001  (a renamed or moved function: undecided, not a violation)
            load_errors.append({"scenario": kind, "message": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"})
            return None

    cm, bm = load("contracts"), load("bounded")
    budget = 240 if tier == "quick" else 780
    jobs = []
    tasks = cm.TASKS if cm else []
    only_proof = os.environ.get("VF_ONLY") == "proof"
    only_bounded = os.environ.get("VF_ONLY") == "bounded"
    if not only_bounded:
        for k, t in enumerate(tasks):
            jobs.append((("proof", k), prove_one, (pid, k), min(t.wall + 30, budget), 6))
    scen = (bm.SCENARIOS if bm else []) if not only_proof else []
    mult = 1 if tier == "quick" else 8
    deadline = t0 + (150 if tier == "quick" else 600)
    for s in scen:
        name, _fn, count = s[:3]
        shards = s[3] if len(s) > 3 else 1
        total = count * mult
        shards = min(total, shards if tier == "quick" else max(shards, 4))
        step = (total + shards - 1) // shards
        for q in range(shards):
            jobs.append((("bounded", name, q), scenario_batch,
                         (pid, name, seed, q * step, min(total, (q + 1) * step), deadline),
                         max(10, deadline - t0 + 30), 0))
    # import once, before forking
    if scen and getattr(bm, "PRELOAD", None):
        bm.PRELOAD()
    nproc = int(os.environ.get("VF_PROCS", "7"))
    out = run_jobs(jobs, nproc, tmp_root)

    # ---- an obligation is not discharged: look harder for an input that shows it on the real code
    def weak(k):
        st, v = out.get(("proof", k), ("", None))
        return st != "ok" or v["failed"] or v["unknown"] or v["undecided"] or v["vacuous"]

    expected = set(getattr(cm, "NOT_DISCHARGED", ()))
    searched = False
    if not only_bounded and scen and any(weak(k) for k, t in enumerate(tasks) if t.name not in expected):
        if not any(v.get("viol") for (key, (st, v)) in out.items() if key[0] == "bounded" and st == "ok"):
            searched = True
            deadline = time.time() + (150 if tier == "quick" else 200)
            jobs2 = []
            for s in scen:
                total = s[2] * mult
                jobs2 += [(("bounded", s[0], "search", q), scenario_batch,
                           (pid, s[0], f"{seed}-search-{q}", 0, total * 4, deadline), 200, 0) for q in range(2)]
            out.update(run_jobs(jobs2, nproc, tmp_root))

    # ---- proof results
    proofs, undec = [], []
    for k, t in enumerate(tasks):
        st, v = out.get(("proof", k), ("skipped", None))
        if st != "ok":
            undec.append({"function": t.name, "reason": f"{st}: {str(v)[:600]}"})
            proofs.append({"function": t.name, "obligations": 0, "discharged": 0, "under": t.under, "failed": [],
                           "unknown": [], "undecided": [st], "solver_s": 0, "central": t.central, "assumes": t.assumes})
            continue
        proofs.append(v)
        if v["obligations"] == 0:
            undec.append({"function": t.name, "reason": "no obligation generated"})
        for u in v["undecided"]:
            undec.append({"function": t.name, "reason": u})
        for u in v["unknown"]:
            undec.append({"function": t.name, "reason": "solver: unknown on " + u})
        for u in v["vacuous"]:
            undec.append({"function": t.name, "reason": "vacuous: " + u + " unreachable"})
        if v["failed"] and not v["exact_failures"]:
            undec.append({"function": t.name, "reason": "not proved through an abstraction: "
                          + ", ".join(sorted({o["obligation"] for o in v["failed"]}))})
    exact = [dict(o) for p in proofs for o in p.get("exact_failures", [])]

    # ---- bounded results
    B = {"cases": 0, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "viol": [], "findings": {}, "errors": load_errors,
         "truncated": []}
    per = {}
    for key, (st, v) in out.items():
        if key[0] != "bounded":
            continue
        if st != "ok":
            B["errors"].append({"scenario": key[1], "message": f"{st}: {str(v)[:800]}"})
            continue
        for f in ("cases", "evals", "skipped"):
            B[f] += v[f]
        B["distinct"] += len(v["distinct"])
        per[key[1]] = per.get(key[1], 0) + v["cases"]
        B["samples"] += v["samples"][:1]
        B["viol"] += v["viol"]
        B["errors"] += v["errors"]
        if v["truncated"]:
            B["truncated"].append(key[1])
        for k, w in v["findings"].items():
            B["findings"].setdefault(k, dict(w, scenario=key[1]))

    # ---- verdict
    known = known_findings()
    violations = list(B["viol"])
    for k, w in sorted(B["findings"].items()):
        if (pid, k) in known:
            print(f"KNOWN-FINDING: property={pid} [{k}] {known[(pid, k)]}")
        else:
            violations.append({"scenario": w["scenario"], "case_seed": w["seed"], "message": f"[{k}] {w['msg']}",
                               "input": w["info"]})
    rdir = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v.get("input"), default=str)))
        v = violations[0]
        path = os.path.join(rdir, f"{pid}-{v['scenario']}-{v['case_seed']}.json")
        failed_obl = sorted({o["function"] + ": " + o["obligation"] for p in proofs for o in p["failed"]})
        json.dump(dict(v, property=pid, failed_obligations=failed_obl,
                       how=f"/verif/run {pid} --replay {path}"), open(path, "w"), indent=1, default=str)
        print(f"{v['scenario']}: {v['message']}"[:600])
        print("input: " + json.dumps(v.get("input"), default=str)[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif exact:
        o = exact[0]
        path = os.path.join(rdir, f"{pid}-proof.json")
        json.dump({"property": pid, "failed_obligations": exact[:5]}, open(path, "w"), indent=1, default=str)
        print(f"obligation not satisfied: {o['function']}: {o['obligation']}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1

    # ---- evidence
    total = sum(p["obligations"] for p in proofs)
    disch = sum(p["discharged"] for p in proofs)
    level = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == pid), "other")
    trusted = list(TRUSTED) + sorted({n for p in proofs for n in p.get("notes", [])})
    trusted += list(getattr(cm, "TRUSTED", []))
    cov = {
        "obligations": total,
        "discharged": disch,
        "checker_cmd": f"/verif/run {pid}",
        "trusted_base": trusted,
        "functions_under_contract": sorted({u for p in proofs for u in p["under"]}),
        "fully_proved_tasks": [p["function"] for p in proofs if p["obligations"] and p["obligations"] == p["discharged"]
                               and not p["undecided"] and not p.get("vacuous")],
        "callee_contracts_used": sorted({a for p in proofs for a in p["assumes"]}),
        "tasks": [{k: p.get(k) for k in ("function", "paths", "obligations", "discharged", "solver_s", "wall_s", "backends",
                                         "labels", "vacuous", "undecided", "ends")} for p in proofs],
        "failed_obligations": [{k: o[k] for k in ("function", "obligation", "through_abstractions")}
                               for p in proofs for o in p["failed"]][:20],
        "undecided": undec[:20],
        "solver_s": round(sum(p["solver_s"] for p in proofs), 2),
        "bounded": {
            "label": "bounded run-time contract check of the real code (not counted as proved)",
            "scenarios": per,
            "truncated": B["truncated"],
            "search_after_undischarged_obligation": searched,
            "harness_errors": B["errors"][:5],
        },
        "evaluations": B["cases"],
        "distinct_nontrivial": B["distinct"],
        "rule": getattr(bm, "RULE", "cases drawn from the generators of the scenario; a case counts when its "
                        "precondition holds; distinct by the recorded input") if bm else "no bounded part",
        "contract_evaluations": B["evals"],
        "samples": B["samples"][:6] or [{"note": "none"}],
        "explanation": getattr(bm or cm, "EXPLANATION", "") or (cm.__doc__ if cm else None) or (bm.__doc__ if bm else "") or "",
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": sorted(set(trusted)), "wall_s": round(time.time() - t0, 2), "violations": len(violations) + (1 if exact and not violations else 0),
    }
    edir = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {disch}/{total} obligations discharged ({len(tasks)} contracts), "
          f"{B['cases']} bounded cases, {len(undec)} undecided, {len(B['errors'])} harness errors, "
          f"{ev['wall_s']} s")
    if os.environ.get("VF_DEBUG"):
        print(json.dumps(undec, indent=1)[:6000])
        print(json.dumps(B["errors"], indent=1)[:4000])
    return rc


TRUSTED = [
    "pyvc: the lifting of /repo's source and the symbolic semantics of the Python/numpy subset (tested by tools/selftest.py)",
    "z3 and cvc5",
    "contracts of numpy functions in pyvc/npshim.py (assumed; tested against the installed numpy)",
    "integers are mathematical; floats are modelled as real numbers",
    "partial correctness: termination is not proved",
]


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
