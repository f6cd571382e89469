"""mutate.py [patterns]: breaks the verified bodies (in memory) and reports which mutants still verify: they are either
equivalent or show that a contract is too weak.  Writes tools/mutation.json."""
import ast, copy, importlib, json, os, pkgutil, sys, time
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import contracts
from contracts.base import LIB
from pyvc import verify
for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + m.name)
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}


def logcall(n):
    return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("logger.", "print")))


def sites(fn):
    """(description, mutator) pairs; a mutator changes a copy found by its position in ast.walk"""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if logcall(n) or isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assert):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + [n.returns] + [a.annotation for a in n.args.args]:
                if d is not None:
                    skip.update(id(x) for x in ast.walk(d))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
    for i, n in enumerate(ast.walk(fn)):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                if type(op) in SWAP:
                    out.append((i, ("cmp", j), f"line {n.lineno}: {ast.unparse(n)[:60]}: {type(op).__name__}->{SWAP[type(op)].__name__}"))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            out.append((i, ("op",), f"line {n.lineno}: {ast.unparse(n)[:60]}: {type(n.op).__name__}->{SWAP[type(n.op)].__name__}"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, ("op",), f"line {n.lineno}: {ast.unparse(n)[:60]}: swap and/or"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and hasattr(n, "lineno"):
            out.append((i, ("const",), f"line {n.lineno}: constant {n.value}"))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, ("neg",), f"line {n.lineno}: negate {ast.unparse(n.test)[:50]}"))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Delete, ast.Continue, ast.Break, ast.AnnAssign)) and not logcall(s):
                        out.append((i, ("drop", f, j), f"line {s.lineno}: drop {ast.unparse(s)[:60]}"))
    return out


def apply(fn, i, m):
    n = list(ast.walk(fn))[i]
    if m[0] == "cmp":
        n.ops[m[1]] = SWAP[type(n.ops[m[1]])]()
    elif m[0] == "op":
        n.op = SWAP[type(n.op)]()
    elif m[0] == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif m[0] == "neg":
        n.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=n.test), n.test)
    elif m[0] == "drop":
        s = getattr(n, m[1])[m[2]]
        getattr(n, m[1])[m[2]] = ast.copy_location(ast.Pass(), s)


def job(a):
    fid, i, m, d = a
    ld = verify.Loader()
    verify.prepare(LIB, ld)
    fs = LIB.by_id[fid]
    apply(fs.fn, i, m)
    ast.fix_missing_locations(fs.fn)
    t = time.time()
    r = verify.verify(LIB, fs, budget=4, workers=1)
    return fid, d, r.status, r.reason[:100], [o.name for o in (r.failed + r.undecided)[:2]], time.time() - t


if __name__ == "__main__":
    ld = verify.Loader()
    verify.prepare(LIB, ld)
    base = json.load(open(f"{V}/contracts/baseline.json"))
    p = f"{V}/tools/mutation.json"
    res = json.load(open(p)) if os.path.exists(p) else {}
    jobs = []
    for fs in LIB.by_id.values():
        if fs.fn is None or base.get(fs.id, {}).get("status") != "proved":
            continue
        if sys.argv[1:] and not any(x in fs.id for x in sys.argv[1:]):
            continue
        res[fs.id] = {"mutants": 0, "killed": 0, "unsupported": 0, "survivors": []}
        jobs += [(fs.id, i, m, d) for i, m, d in sites(fs.fn)]
    with ProcessPoolExecutor(int(os.environ.get("W", "6")), max_tasks_per_child=20) as ex:
        for fid, d, st, why, bad, dt in ex.map(job, jobs):
            e = res[fid]
            e["mutants"] += 1
            if st == "proved":
                e["survivors"].append(d)
                print("SURVIVES", fid, d, flush=True)
            elif st in ("failed", "undecided"):
                e["killed"] += 1
            else:
                e["unsupported"] += 1
                if "engine" in why:
                    print("ENGINE", fid, d, why)
    json.dump(res, open(p, "w"), indent=1, sort_keys=True)
    with open(f"{V}/tools/mutation.md", "w") as f:
        f.write("## Mutation test of the proofs\n\nEvery mutant of a verified body either fails an obligation, leaves the verifier's subset (reported as unproved, then only the\nconcrete part decides) or is listed here as surviving: equivalent, or outside what the contract states.\n\n")
        f.write("| contract | mutants | obligation fails | outside the subset | survivors |\n|---|---|---|---|---|\n")
        for k, e in sorted(res.items()):
            f.write(f"| {k} | {e['mutants']} | {e['killed']} | {e['unsupported']} | {'; '.join(x.replace('|', '/') for x in e['survivors']) or '-'} |\n")
