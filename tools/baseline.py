"""Records which contracts are fully discharged on the current tree (run on the unchanged tree only)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import importlib, pkgutil, contracts
from contracts.base import LIB
from pyvc import verify
for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + m.name)
verify.prepare(LIB, verify.Loader())
p = os.path.join(VERIF, "contracts", "baseline.json")
old = json.load(open(p)) if os.path.exists(p) else {}
pats = sys.argv[1:]
out = {k: v for k, v in old.items() if k in LIB.by_id}
for fs in LIB.by_id.values():
    if pats and not any(x in fs.id for x in pats):
        continue
    r = verify.verify(LIB, fs, budget=20)
    verify.report(r)
    out[fs.id] = {"status": r.status, "sha": r.sha_all, "obligations": len(r.obls), "file": fs.file, "qual": fs.qual}
json.dump(out, open(p, "w"), indent=1, sort_keys=True)
