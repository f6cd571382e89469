import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
base = json.load(open(f"{V}/contracts/baseline.json"))
checks, na = [], []
for p in props:
    c = cfg.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    if "na" in c:
        na.append({"property": p["id"], "reason": c["na"]})
        continue
    e = {"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p['id']}",
         "technique": c.get("technique", "contract-based deductive verification of the real Python source (pyvc + z3/cvc5)"),
         "level": c["level"], "level_note": c.get("note", c.get("bounded", ""))}
    checks.append(e)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Known findings and fixed defects: known_findings.json."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
