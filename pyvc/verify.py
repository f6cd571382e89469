"""Contract loading, function extraction from the current source, obligation generation and reporting."""
from __future__ import annotations
import ast
import hashlib
import os
import time
import traceback
import z3
from . import ty, solve
from .ty import Unsupported
from .engine import Engine, DROPS
from .lib import Library, FuncSpec

REPO = os.environ.get("VERIF_REPO", "/repo")


class Loader:
    def __init__(self):
        self.trees = {}

    def tree(self, file):
        if file not in self.trees:
            p = os.path.join(REPO, file)
            with open(p, encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src)
            t._file = file
            t._src = src
            for c in t.body:
                if isinstance(c, ast.ClassDef):
                    c._mod = t
            self.trees[file] = t
        return self.trees[file]

    def file_of(self, mod):
        return getattr(mod, "_file", None)

    def resolve(self, module, name, depth=0):
        """(file, def, module tree) of a function imported as `from module import name`"""
        if depth > 4:
            return None
        base = module.replace(".", "/")
        for cand in (base + ".py", base + "/__init__.py"):
            if os.path.exists(os.path.join(REPO, cand)):
                m = self.tree(cand)
                for s in m.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                        return cand, s, m
                for s in m.body:
                    if isinstance(s, ast.ImportFrom) and s.module:
                        for a in s.names:
                            if (a.asname or a.name) == name:
                                mod = s.module
                                if s.level:
                                    pk = base.split("/") if cand.endswith("__init__.py") else base.split("/")[:-1]
                                    pk = pk[:len(pk) - (s.level - 1)]
                                    mod = ".".join(pk + [s.module])
                                return self.resolve(mod, a.name, depth + 1)
        return None

    def resolve_class(self, mod, name, depth=0):
        """(class def, module tree) of a class visible in the module under this name"""
        if depth > 4:
            return None
        for s in mod.body:
            if isinstance(s, ast.ClassDef) and s.name == name:
                return s, mod
        for s in ast.walk(mod):
            if isinstance(s, ast.ImportFrom) and s.module and not s.level and s.module.startswith("mixtera"):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        base = s.module.replace(".", "/")
                        for cand in (base + ".py", base + "/__init__.py"):
                            if os.path.exists(os.path.join(REPO, cand)):
                                r = self.resolve_class(self.tree(cand), a.name, depth + 1)
                                if r is not None:
                                    return r
            elif isinstance(s, ast.ImportFrom) and s.level and s.module:
                for a in s.names:
                    if (a.asname or a.name) == name:
                        pk = os.path.dirname(mod._file).split("/")
                        pk = pk[:len(pk) - (s.level - 1)]
                        base = "/".join(pk + s.module.split("."))
                        for cand in (base + ".py", base + "/__init__.py"):
                            if os.path.exists(os.path.join(REPO, cand)):
                                r = self.resolve_class(self.tree(cand), a.name, depth + 1)
                                if r is not None:
                                    return r
        return None

    def method_of(self, mod, cls, name, depth=0):
        """(function def, class def, module tree) of a method looked up along the bases of cls"""
        mod = getattr(cls, "_mod", mod)
        for s in cls.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                return s, cls, mod
        if depth > 5:
            return None
        for b in cls.bases:
            if isinstance(b, ast.Name):
                r = self.resolve_class(mod, b.id)
                if r is not None:
                    m = self.method_of(r[1], r[0], name, depth + 1)
                    if m is not None:
                        return m
        return None

    def find(self, file, qual):
        m = self.tree(file)
        parts = qual.split(".")
        body, owner, fn = m.body, None, None
        for i, p in enumerate(parts):
            hit = None
            for s in body:
                if isinstance(s, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == p:
                    hit = s
            if hit is None:
                return m, None, None
            if isinstance(hit, ast.ClassDef):
                owner = hit
            else:
                fn = hit
            body = hit.body
        return m, owner, fn


class Result:
    def __init__(self, fs):
        self.fs = fs
        self.status = "?"        # proved / failed / undecided / unsupported / missing
        self.reason = ""
        self.obls = []
        self.seconds = 0.0
        self.ext = []
        self.called = []
        self.inlined = []
        self.failed = []
        self.undecided = []
        self.backends = {}
        self.sha = self.sha_all = ""
        self.vacuous = False


def generate(lib, fs):
    ty.reset()
    lib.dhist = {}
    lib.cdef = {}
    lib.ahist = {}
    E = Engine(lib, fs.modtree, fs.fn, fs.contract, fs.owner)
    obls = E.run()
    return E, obls


def prepare(lib, loader):
    lib.loader = loader
    for fs in lib.by_id.values():
        try:
            fs.modtree, fs.owner, fs.fn = loader.find(fs.file, fs.qual)
        except (OSError, SyntaxError):
            fs.modtree = fs.owner = fs.fn = None


def lt_axioms(lib):
    out = []
    for name in list(lib._lt):
        f = lib._lt[name]
        s = f.domain(0)
        a, b, c = z3.Consts("ax_a ax_b ax_c", s)
        out.append(z3.ForAll([a, b], z3.Implies(f(a, b), z3.Not(f(b, a))), patterns=[f(a, b)]))
        out.append(z3.ForAll([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c)), patterns=[z3.MultiPattern(f(a, b), f(b, c))]))
        out.append(z3.ForAll([a, b, c], z3.Implies(z3.And(z3.Not(f(a, b)), z3.Not(f(b, c))), z3.Not(f(a, c))),
                             patterns=[z3.MultiPattern(f(a, b), f(b, c))]))
    return out


def skolem(goal, seeds):
    """the goal with its outer universal quantifiers instantiated by fresh constants; the terms of their triggers become known terms"""
    if z3.is_quantifier(goal) and goal.is_forall():
        n = goal.num_vars()
        cs = [z3.FreshConst(goal.var_sort(i), goal.var_name(i).split("!")[0] + "_sk") for i in range(n)]
        inst = lambda x: z3.substitute_vars(x, *reversed(cs))
        for i in range(goal.num_patterns()):
            for t in goal.pattern(i).children():
                t = inst(t)
                seeds.append(z3.Function("seen_" + t.sort().sexpr().replace("(", "").replace(")", "").replace(" ", "_"), t.sort(), z3.BoolSort())(t))
        return skolem(inst(goal.body()), seeds)
    if z3.is_and(goal):
        return z3.And(*[skolem(x, seeds) for x in goal.children()])
    if z3.is_implies(goal):
        return z3.Implies(goal.arg(0), skolem(goal.arg(1), seeds))
    return goal


def verify(lib, fs, budget=10, workers=8, deadline=None, keep=False):
    r = Result(fs)
    t0 = time.time()
    if fs.fn is None:
        r.status, r.reason = "missing", f"{fs.qual} not found in {fs.file}"
        return r
    r.sha = hashlib.sha256(ast.dump(fs.fn).encode()).hexdigest()[:16]
    try:
        E, obls = generate(lib, fs)
    except Unsupported as e:
        r.status, r.reason = "unsupported", str(e)
        return r
    except RecursionError:
        r.status, r.reason = "unsupported", "recursion limit"
        return r
    except Exception as e:  # an engine defect is never a verdict
        r.status, r.reason = "unsupported", "engine: " + traceback.format_exc(limit=-6)
        return r
    r.sha_all = hashlib.sha256("|".join([ast.dump(fs.fn)] + sorted(ast.dump(n) for n in E.inlined_nodes)).encode()).hexdigest()[:16]
    r.ext, r.called, r.inlined = sorted(E.ext_used), sorted(E.called_contracts), sorted(E.inlined)
    items, texts = [], {}
    dev_only = os.environ.get("PYVC_ONLY") if __import__("sys").argv[0].endswith("dev.py") else None
    for i, o in enumerate(obls):
        if dev_only and dev_only not in o.name:
            o.result = ("proved", "skipped", 0.0, "")
            continue
        if o.hyps is None:
            o.result = ("proved", "simplifier", 0.0, "")
            continue
        facts = lib.instantiate(o.hyps, o.goal)
        ax = E.str_axioms() + lt_axioms(lib) + E.mul_axioms()
        seeds = []
        goal = skolem(o.goal, seeds)
        ax = ax + seeds
        tx = [solve.to_smt2(o.hyps, goal, facts + ax)]
        if o.hints:
            tx.append(solve.to_smt2(o.hyps + o.hints, goal, lib.instantiate(o.hyps + o.hints, o.goal) + ax))
        if facts:
            tx.append(solve.to_smt2(o.hyps, goal, ax))
        texts[i] = tx
        items.append((i, tx))
    # the precondition must be satisfiable (vacuity guard): proving False from it must fail
    pre = solve.to_smt2(E.pre_pc, z3.BoolVal(False), E.str_axioms())
    items.append(("pre", [pre]))
    res = solve.decide_all(items, budget, workers, deadline)
    for i, o in enumerate(obls):
        if i in res:
            o.result = res[i]
            if keep:
                o.text = texts[i][min(1, len(texts[i]) - 1)]
    r.obls = obls
    r.texts = {id(o): texts[i] for i, o in enumerate(obls) if i in texts} if keep else {}
    r.vacuous = res["pre"][0] == "proved"
    for o in obls:
        st, be, dt, det = o.result
        r.seconds += dt
        r.backends[be] = r.backends.get(be, 0) + (st == "proved")
        if st == "refuted" or st == "unknown":
            r.failed.append(o)
        elif st == "timeout":
            r.undecided.append(o)
    if r.vacuous:
        r.status, r.reason = "unsupported", "precondition is contradictory"
    elif not obls:
        r.status, r.reason = "unsupported", "no obligations"
    elif r.failed:
        r.status = "failed"
    elif r.undecided:
        r.status = "undecided"
    else:
        r.status = "proved"
    r.wall = time.time() - t0
    return r


def retry(r, budget, workers=4, deadline=None):
    """the undecided obligations once more, with more time"""
    items = [(i, r.texts[id(o)]) for i, o in enumerate(r.undecided)]
    res = solve.decide_all(items, budget, workers, deadline)
    left = []
    for i, o in enumerate(r.undecided):
        o.result = res[i]
        r.seconds += res[i][2]
        if res[i][0] == "proved":
            r.backends[res[i][1]] = r.backends.get(res[i][1], 0) + 1
        elif res[i][0] == "timeout":
            left.append(o)
        else:
            r.failed.append(o)
    r.undecided = left
    r.status = "failed" if r.failed else ("undecided" if left else "proved")


def report(r, verbose=True):
    print(f"{r.fs.id}: {r.status} {r.reason}  obligations={len(r.obls)} failed={len(r.failed)} timeout={len(r.undecided)} solver={r.seconds:.1f}s")
    if verbose:
        for o in r.failed + r.undecided:
            print(f"   - line {o.line} [{o.kind}] {o.name[:170]} :: {o.result[0]} {o.result[3][-60:]}")
        import os
        if os.environ.get("PYVC_SLOW"):
            for o in sorted(r.obls, key=lambda o: -o.result[2] if o.result else 0)[:12]:
                print(f"   slow {o.result[2] if o.result else 0:.1f}s {o.result[1] if o.result else ''} line {o.line} [{o.kind}] {o.name[:150]}")
        if r.ext:
            print("   assumed:", r.ext)
