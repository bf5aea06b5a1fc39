"""run proof tasks: prove.py c01 [substring]"""
import sys, os, json, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.task import verify
m = importlib.import_module("contracts." + sys.argv[1])
for t in m.TASKS:
    if len(sys.argv) > 2 and sys.argv[2] not in t.name: continue
    t0 = time.time(); s = verify(t)
    print(t.name, f"{s['discharged']}/{s['obligations']} paths={s['paths']} {time.time()-t0:.1f}s", "VAC" + str(s['vacuous']) if s['vacuous'] else "", s['ends'])
    for u in s["undecided"]: print("   undecided:", u)
    for u in sorted(set(s["unknown"])): print("   unknown:", u)
    seen = set()
    for o in s["failed"]:
        if o["obligation"] in seen: continue
        seen.add(o["obligation"]); print("   FAILED:", o["obligation"], o["through_abstractions"], str(o["counter_model"])[:1500] if "-v" in sys.argv else "")
