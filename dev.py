import sys, importlib, pkgutil, z3, time
sys.path.insert(0,'/verif')
import contracts
from contracts.base import LIB
from pyvc import verify, solve
for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module('contracts.'+m.name)
ld=verify.Loader(); verify.prepare(LIB, ld)
pats=sys.argv[1:]
if pats==['lemmas']:
    for n,h,g in LIB.lemmas():
        print(n, solve.decide(solve.to_smt2(h,g),10)[:3])
    sys.exit()
for fs in LIB.by_id.values():
    if not pats or any(p in fs.id for p in pats):
        r=verify.verify(LIB, fs, budget=8, keep=True)
        verify.report(r)
        for i,o in enumerate(r.failed+r.undecided):
            open(f'/tmp/f{i}.smt2','w').write(o.text)
