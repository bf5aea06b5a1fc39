"""DESIGN.md from tools/design.md.in, tools/design_props.py, the contract files, known_findings.txt and tools/catch.json."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools"), "/repo/src", "/repo"]
import design_props as D
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if os.path.exists(f"{V}/contracts/{i.lower()}.py"):
        m = importlib.import_module(f"contracts.{i.lower()}")
        spec, oracle, bnd = D.P[i]
        under = sorted({u for t in m.TASKS for u in t.under})
        ass = sorted({a for t in m.TASKS for a in t.assumes})
        ev = f"{V}/evidence/{i}.json"
        out.append(f"* **Proved** ({len(m.TASKS)} contracts, {len(under)} functions): {spec}.\n* Oracle/argument: {oracle}.")
        if ass:
            out.append("* Callee contracts used in place of bodies: " + "; ".join(ass) + ".")
        out.append(f"* **Bounded** (run-time contracts on the real code): {bnd}.")
    else:
        spec, bnd = D.B[i]
        out.append(f"* **Bounded only**, nothing counted as proved: {spec}.\n* Bounds: {bnd}.")
    out.append(f"* Beyond unit tests: {D.WHY[i]}.\n")
table = "\n".join(out)
fixed = "\n".join("* " + l.split("property=", 1)[1].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:"))
catch = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {catch.get(n, '?')} |")
s = open(V + "/tools/design.md.in").read()
s = s.replace("@@TABLE@@", table).replace("@@FIXED@@", fixed).replace("@@CATCH@@", "\n".join(rows)).replace("@@BOUNDED@@", open(V + "/tools/design_bounded.md").read())
open(V + "/DESIGN.md", "w").write(s)
