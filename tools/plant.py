"""Build and confirm planted bugs (development tool; no check uses it).

plant.py make SPEC.py          write seeded/<id>/ for every entry of BUGS in SPEC.py
plant.py test ID [ID...]       confirm in a scratch copy: applies, tests pass, demo fails/passes, which checks report it
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
import threading
from concurrent.futures import ThreadPoolExecutor

LOCK = threading.Lock()

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/sh\n# cwd: the repository\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD" exec /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def copy(name):
    d = f"/tmp/plant_{name}"
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
    return d


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = copy("make")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "pattern found", s.count(old), "times")
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        shutil.rmtree(d)
        if not ok:
            continue
        o = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def run_tests(d):
    x = f"{d}.xml"
    env = dict(os.environ, PYTHONPATH=f"{d}/src:{d}", HOME=f"{d}.home", XDG_CACHE_HOME=f"{d}.home/cache", MPLCONFIGDIR=f"{d}.home/mpl", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HF_HUB_OFFLINE="1",
               HF_DATASETS_OFFLINE="1", TRANSFORMERS_OFFLINE="1", PIP_NO_INDEX="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
               PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8")
    os.makedirs(f"{d}.home", exist_ok=True)
    r = sh(f"/opt/venv/bin/python -m pytest -p no:cacheprovider --no-cov --timeout=300 --continue-on-collection-errors -q -o junit_family=xunit2 --junitxml={x}", cwd=d, env=env)
    bad = []
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    good = set()
    if os.path.exists(x):
        for c in ET.parse(x).getroot().iter("testcase"):
            i = f"{c.get('classname')}::{c.get('name')}"
            if not any(ch.tag in ("failure", "error", "skipped") for ch in c):
                good.add(i)
        os.unlink(x)
    bad = sorted(stable - good)
    shutil.rmtree(f"{d}.home", ignore_errors=True)
    return bad, r.stdout[-300:] if len(bad) > 50 else ""


def record(bid, line):
    """tools/catch.json: what reported the bug"""
    p = os.path.join(VERIF, "tools", "catch.json")
    with LOCK:
        d = json.load(open(p)) if os.path.exists(p) else {}
        if line is None:
            d[bid] = "not reported"
        else:
            name = os.path.basename(line.split("replay=")[1].split()[0]).removesuffix(".json")
            d[bid] = "failed obligation" if "no-failing-input-found" in line else "run-time contract, scenario " + "-".join(name.split("-")[1:-1])
        json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)


def test(bid, extra=()):
    s = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(s + "/meta.json"))
    d = copy(bid)
    out = []
    try:
        r = sh([s + "/demo.sh"], cwd=d, timeout=300)
        out.append("demo clean %s" % ("ok" if r.returncode == 0 else "FAILS " + (r.stdout + r.stderr)[-600:]))
        r = sh(["git", "apply", s + "/patch.diff"], cwd=d)
        if r.returncode:
            return f"{bid}: does not apply {r.stderr}"
        r = sh([s + "/demo.sh"], cwd=d, timeout=300)
        out.append("demo patched %s" % ("ok (fails)" if r.returncode else "PASSES"))
        bad, tail = run_tests(d)
        out.append("tests ok" if not bad else f"TESTS FAIL {len(bad)} {bad[:4]} {tail}")
        for pid in [meta["property"], *extra]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1")
            env["VF_EVIDENCE"] = f"{d}.ev"
            r = sh([VERIF + "/run", pid], env=env, cwd=VERIF)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            if pid == meta["property"]:
                record(bid, v[0] if v and r.returncode == 1 else None)
            out.append(f"{pid}: exit {r.returncode} {v[:1] or ('MISSED ' + r.stdout[-200:] + r.stderr[-300:])}")
        shutil.rmtree(f"{d}.ev", ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f"== {bid} [{meta['property']}]\n   " + "\n   ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
            for r in ex.map(test, sys.argv[2:]):
                print(r, flush=True)
