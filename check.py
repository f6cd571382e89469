#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current tree.

1. Deductive part: every function under contract for the property (and every contract those rely on) is extracted from
   /repo's current source, its obligations are generated and discharged by z3/cvc5.
2. Concrete part: the property's statement is evaluated against the real code on generated inputs; it finds the
   failing inputs for (1) and stands in, labelled bounded, for the functions the verifier does not reach.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken.
"""
import importlib
import json
import os
import pkgutil
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
VENV_PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
OUTDIR = os.path.join(VERIF, "build")
os.makedirs(OUTDIR, exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
T0 = time.time()
CFG = json.load(open(os.path.join(VERIF, "checks.json")))[PID]


def run_harness(budget, seed, workers):
    h = os.path.join(VERIF, "harness", PID.lower() + ".py")
    if not os.path.exists(h):
        return None
    out = os.path.join(OUTDIR, f"harness-{PID}-{os.getpid()}-{seed}.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED=str(seed % 1000))
    try:
        p = subprocess.run([VENV_PY, h, "--seed", str(seed), "--budget", str(budget), "--workers", str(workers), "--out", out],
                           capture_output=True, text=True, timeout=min(840, budget + 420), env=env, cwd=VERIF)
        r = json.load(open(out))
        r["stderr"] = p.stderr[-500:] if p.returncode else ""
        return r
    except Exception:  # noqa
        return {"error": traceback.format_exc(limit=-3), "violations": [], "evaluations": 0}
    finally:
        if os.path.exists(out):
            os.unlink(out)


def load_contracts():
    import contracts
    from contracts.base import LIB
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    return LIB


def functions_for(lib, pid):
    """the functions under contract for the property; contracts they rely on are added as they are met"""
    return [fs for fs in lib.by_id.values() if pid in fs.props]


def run_proofs(box):
    try:
        from pyvc import verify, solve, engine
        lib = load_contracts()
        ld = verify.Loader()
        verify.prepare(lib, ld)
        deadline = T0 + (CFG.get("proof_s", 240) if TIER == "quick" else CFG.get("proof_s", 240) * 3)
        todo = functions_for(lib, PID)
        done = {}
        while todo:
            fs = todo.pop(0)
            if fs.id in done:
                continue
            r = verify.verify(lib, fs, budget=10 if TIER == "quick" else 40, workers=4, deadline=deadline, keep=True)
            if r.status == "undecided" and len(r.undecided) <= 6 and time.time() < deadline:    # a slow machine is no verdict
                verify.retry(r, budget=40, workers=4, deadline=deadline)
            done[fs.id] = r
            for c in r.called:
                if c in lib.by_id and c not in done:
                    todo.append(lib.by_id[c])
        lem = []
        if done:
            for n, h, g in lib.lemmas():
                lem.append((n,) + tuple(solve.decide(solve.to_smt2(h, g), 10)[:3]))
        box["results"] = done
        box["lemmas"] = lem
        box["drops"] = engine.DROPS
    except Exception:  # noqa
        box["error"] = traceback.format_exc()


def main():
    quick = TIER == "quick"
    hb = CFG.get("budget", 60) if quick else CFG.get("thorough_budget", 300)
    box = {}
    th = threading.Thread(target=run_proofs, args=(box,), daemon=True)
    th.start()
    h = run_harness(hb, SEED, CFG.get("workers", 5))
    th.join(max(1, 560 - (time.time() - T0)) if quick else 800)
    results, lemmas = box.get("results", {}), box.get("lemmas", [])
    base = {}
    bp = os.path.join(VERIF, "contracts", "baseline.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    violations = []
    if h:
        for v in h["violations"]:
            violations.append((v["path"], "", v["sig"], v["msg"]))
    # obligations that were discharged on the unchanged tree and are not any more
    changed_failed = []
    for fid, r in results.items():
        b = base.get(fid)
        if b and b["status"] == "proved" and r.status in ("failed", "undecided") and r.sha_all != b["sha"]:
            changed_failed.append(r)
    extra = None
    if changed_failed and not violations:
        extra = run_harness(hb if quick else 2 * hb, SEED + 7919, 7)   # intensified search for a failing input
        for v in (extra or {}).get("violations", []):
            violations.append((v["path"], "", v["sig"], v["msg"]))
    if changed_failed and not violations:
        for r in changed_failed:
            path = os.path.join(OUTDIR, "replay", f"{PID}-obligation-{r.fs.id.replace('/', '_')}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            bad = (r.failed + r.undecided)
            json.dump({"property": PID, "function": r.fs.id, "file": r.fs.file,
                       "failed_obligations": [{"line": o.line, "kind": o.kind, "obligation": o.name, "solver": o.result[3]} for o in bad],
                       "smt2_of_first": getattr(bad[0], "text", "")[:200000],
                       "how": f"VERIF_SEED={SEED} python3-vt {VERIF}/check.py {PID}"}, open(path, "w"), indent=1)
            violations.append((path, " no-failing-input-found", r.fs.id, "; ".join(o.name for o in bad[:5])))
    # ---------------------------------------------------------------- evidence
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
    known = [k for k in kf if k["property"] == PID and k["status"] == "known"]
    fns, nobl, ndis, secs, backends, ext = [], 0, 0, 0.0, {}, set()
    for fid, r in results.items():
        n, f = len(r.obls), len(r.failed) + len(r.undecided)
        ok = r.status in ("proved", "failed", "undecided")
        nobl += n
        ndis += (n - f) if ok else 0
        secs += r.seconds
        for k, v in r.backends.items():
            backends[k] = backends.get(k, 0) + v
        ext.update(r.ext)
        fns.append({"function": f"{r.fs.file}:{r.fs.qual}", "contract": fid, "status": r.status, "reason": r.reason[:300], "obligations": n, "discharged": n - f,
                    "solver_s": round(r.seconds, 2), "source_sha": r.sha_all, "relies_on_contracts": r.called, "inlined": r.inlined,
                    "assumed_externals": r.ext, "undischarged": [o.name for o in r.failed + r.undecided][:10]})
    nobl += len(lemmas)
    ndis += sum(1 for x in lemmas if x[1] == "proved")
    cov = {
        "evaluations": (h or {}).get("evaluations", 0) + (extra or {}).get("evaluations", 0),
        "distinct_nontrivial": (h or {}).get("distinct_nontrivial", 0),
        "rule": (h or {}).get("rule", "") or "none",
        "samples": (h or {}).get("samples", []) or ["none"],
        "functions_under_contract": fns,
        "lemma_schemes": [{"lemma": x[0], "status": x[1], "by": x[2]} for x in lemmas],
        "discharged_by": backends,
        "solver_s": round(secs, 2),
        "functions_proved": sum(f["status"] == "proved" for f in fns),
        "bounded_stand_in": {"what": CFG.get("bounded", ""), "cases_per_group": (h or {}).get("per_group", {}), "skipped": (h or {}).get("skips", 0),
                             "skip_reasons": (h or {}).get("skipmsgs", {}), "errors": [x for x in [(h or {}).get("error"), box.get("error")] if x],
                             "worker_errors": (h or {}).get("worker_errors", []), "unconfirmed": (h or {}).get("unconfirmed", [])},
        "known_findings_seen": sorted((h or {}).get("known", {})),
        "explanation": CFG.get("bounded", "") or "see functions_under_contract",
    }
    if nobl:
        cov.update({"obligations": nobl, "discharged": ndis, "checker_cmd": f"python3-vt /verif/check.py {PID}",
                    "trusted_base": TRUSTED + sorted("external: " + x for x in ext) + ["extraction drops: " + d for d in box.get("drops", [])]})
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": CFG["level"], "coverage": cov,
          "assumptions": CFG.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    tmp = os.path.join(VERIF, "evidence", f".{PID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{PID}.json"))
    for k in known:
        seen = k["sig"] in (h or {}).get("known", {})
        print(f"KNOWN-FINDING: property={PID} {k['what']}" + ("" if seen else " (not reproduced in this run)"))
    for fn in fns:
        print(f"  contract {fn['contract']}: {fn['status']} {fn['discharged']}/{fn['obligations']} {fn['reason'][:200]}")
    if box.get("error"):
        print("  proof part error:", box["error"][-1500:])
    if h:
        print(f"  concrete: {h.get('evaluations')} cases, {h.get('skips')} skipped, {len(h['violations'])} violations {h.get('error', '')}")
    for path, tail, sig, msg in violations[:4]:
        print(f"  violated: {sig}: {msg[:600]}")
        print(f"VIOLATION property={PID} replay={path}{tail}")
    sys.stdout.flush()
    os._exit(1 if violations else 0)


TRUSTED = [
    "pyvc (the verification condition generator in /verif/pyvc) and the SMT solvers z3 5.3 / cvc5 1.1",
    "Python integers are mathematical integers (exact); floats are modelled as mathematical reals (rounding not modelled; the concrete part runs with real floats)",
    "MixtureKey values used as keys of one dictionary are pairwise unequal and compare equal only to themselves (an uninterpreted sort)",
    "sorting and shuffling permute their input, so sums over all elements do not change",
    "CPython executes the statements with the semantics encoded in pyvc (mutation tests in DESIGN.md)",
]

if __name__ == "__main__":
    main()
