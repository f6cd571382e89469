"""writes DESIGN.md from tools/design_*.md, tools/props_design.py and the generated facts (contracts, findings, planted bugs)"""
import glob, importlib, json, os, pkgutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
import contracts
from contracts.base import LIB
for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + m.name)
from props_design import D
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
base = json.load(open(V + "/contracts/baseline.json"))
cfg = json.load(open(V + "/checks.json"))
kf = json.load(open(V + "/known_findings.json"))["findings"]
o = [open(V + "/tools/design_head.md").read(), "\n## Properties\n"]
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    fs = sorted((fs for fs in LIB.by_id.values() if i in fs.props), key=lambda f: f.id)
    pr = [f"`{f.qual}` ({base[f.id]['obligations']})" for f in fs if base.get(f.id, {}).get("status") == "proved"]
    un = [f"`{f.qual}` ({base.get(f.id, {}).get('status', 'new')})" for f in fs if base.get(f.id, {}).get("status") != "proved"]
    o.append("- Proved for all inputs (obligations): " + (", ".join(pr) or "none") + ".")
    if un:
        o.append("- Under contract, not fully discharged (not counted): " + ", ".join(un) + ".")
    o.append(f"- Bounded stand-in: {cfg[i]['bounded']}; quick budget {cfg[i]['budget']} s on 5 processes, thorough {cfg[i]['thorough_budget']} s.")
    o.append(D.get(i, "").strip() + "\n")
o.append("## Findings\n")
o.append("Genuine defects found by the checks. Repaired ones are `fix:` commits in /repo; `known_findings.json` is the list the checks read.\n")
for f in kf:
    o.append(f"- {f['property']} " + (f"fixed in {f['commit']}" if f["status"] == "fixed" else f"**known, not repaired** (signature `{f['sig']}`)") + f": {f['what']}.")
o.append("\n## Planted bugs and the checks that catch them\n")
res = json.load(open(V + "/tools/plant_results.json")) if os.path.exists(V + "/tools/plant_results.json") else {}
o.append("| bug | property | needs | result of the property's quick check |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    b = os.path.basename(d)
    o.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '?')} |")
mu = V + "/tools/mutation.md"
if os.path.exists(mu):
    o.append("\n" + open(mu).read())
o.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
