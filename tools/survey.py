"""survey.py MODULE SCENARIO-SUBSTRING N: run N cases of the bounded scenarios, print counts of outcomes (development aid)."""
import collections
import importlib
import os
import re
import sys
import tempfile
import time

repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.path.join(repo, "src"), repo]
from vf.gen import G, Skip, Violation, case_seed  # noqa: E402

mod = importlib.import_module("bounded." + sys.argv[1])
if hasattr(mod, "PRELOAD"):
    mod.PRELOAD()
for name, fn, *_ in mod.SCENARIOS:
    if sys.argv[2] not in name:
        continue
    out = collections.Counter()
    ex = {}
    t = time.time()
    for k in range(int(sys.argv[3])):
        with tempfile.TemporaryDirectory() as tmp:
            g = G(case_seed(os.environ.get("VERIF_SEED", "1"), name, k), tmp=tmp)
            try:
                fn(g)
                r = "ok"
            except Skip as e:
                r = "skip " + str(e)[:110]
            except Violation as e:
                r = "VIOL " + str(e).split("\n")[0][:160]
            except Exception as e:  # noqa: BLE001
                r = "EXC " + repr(e)[:160]
            r = re.sub(r"[\d.]+", "#", r) + " " + str(g.info.get("method", ""))
            out[r] += 1
            ex.setdefault(r, g.info)
    print(f"== {name}: {time.time() - t:.1f}s")
    for r, c in out.most_common():
        print(c, r)
        if len(sys.argv) > 4 and not r.startswith("ok") and sys.argv[4] in r:
            print("    ", {k: v for k, v in ex[r].items()})
