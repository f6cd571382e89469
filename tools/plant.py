"""plant.py <spec.py>... : makes a planted bug from a spec (PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO), confirms it in
scratch copies and stores it under /verif/seeded/<name of spec>.   plant.py --check <id>... : runs the property's check against it."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = "/verif"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy_repo(d):
    sh(f"cp -a /repo {d}")


def blame_ok(repo, files):
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
    diff = sh("git diff -U0", repo).stdout
    bad, touched, f = [], 0, None
    for ln in diff.splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", ln)
        if m:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                bl = sh(f"git blame -l -s -L {a},{a+n-1} HEAD -- {f}", repo).stdout
                for b in bl.splitlines():
                    if b.lstrip("^").split()[0][:30] not in base and not base.startswith(b.lstrip("^").split()[0]):
                        bad.append(b[:140])
                    else:
                        touched += 1
    return bad, touched


def tests(repo):
    out = tempfile.mktemp(suffix=".xml", dir="/tmp")
    res = out + ".json"
    p = sh(f"timeout 400 {PY} -m pytest -q -p no:cacheprovider -o addopts= -o python_files='test_*.py text_*.py' --ignore-glob='*/__init__.py' --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out} mixtera",
           repo, {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
    q = sh(f"/usr/bin/python3 /opt/vp/results.py {res} junit:{out}")
    try:
        r = json.load(open(res))
        miss = sorted(STABLE - set(r["passed"]))
    except Exception as e:
        miss = ["NO RESULTS " + str(e) + p.stdout[-500:] + q.stderr[-500:]]
    for x in (out, res):
        if os.path.exists(x):
            os.unlink(x)
    return miss


def demo(repo, d):
    t = tempfile.mkdtemp(dir="/tmp", prefix="demo-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), t)
    try:
        p = sh(f"timeout 280 bash {t}/demo.sh", repo)
        return p.returncode, (p.stdout + p.stderr)[-600:]
    finally:
        shutil.rmtree(t)


def make(spec):
    bid = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    out = f"/tmp/plant/{bid}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = f"/tmp/wt-{bid}"
    if os.path.exists(w):
        shutil.rmtree(w)
    copy_repo(w)
    try:
        open(out + "/demo.sh", "w").write(s.get("DEMO_SH", '#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'))
        open(out + "/demo.py", "w").write(s["DEMO"])
        rc, o = demo(w, out)
        if rc != 0:
            return f"{bid}: DEMO FAILS ON UNCHANGED TREE rc={rc} {o}"
        for f, old, new in s["EDITS"]:
            t = open(f"{w}/{f}").read()
            if t.count(old) != 1:
                return f"{bid}: edit matches {t.count(old)} times in {f}: {old[:80]!r}"
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        bad, n = blame_ok(w, None)
        if bad or not n:
            return f"{bid}: touches non-base lines {bad} (base lines {n})"
        rc, o = demo(w, out)
        if rc == 0:
            return f"{bid}: DEMO PASSES WITH PATCH {o}"
        why = o.strip().splitlines()[-1:] if o.strip() else ""
        miss = tests(w)
        if miss:
            return f"{bid}: TESTS FAIL {miss[:5]}"
        open(out + "/patch.diff", "w").write(sh("git diff", w).stdout)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(f"{V}/seeded/{bid}", ignore_errors=True)
        shutil.copytree(out, f"{V}/seeded/{bid}")
        c = run_check(s["PROP"], w, os.environ.get("SEEDS", "1"))
        return f"{bid}: KEPT demo={why} {c}"
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def run_check(prop, w, seeds="1"):
    rs = []
    for sd in seeds.split(","):
        p = sh(f"python3-vt {V}/check.py {prop}", V, {"VERIF_REPO": w, "VERIF_SEED": sd, "VERIF_TIER": "quick"})
        m = [x for x in p.stdout.splitlines() if "VIOLATION" in x or "violated:" in x]
        rs.append(("CAUGHT " if p.returncode == 1 and any("VIOLATION" in x for x in m) else f"MISSED rc={p.returncode} ") + (m[0].strip()[:220] if m else p.stdout[-300:] + p.stderr[-300:]) + (" NFI" if any("no-failing" in x for x in m) else ""))
    return " | ".join(rs)


def recheck(bid):
    meta = json.load(open(f"{V}/seeded/{bid}/meta.json"))
    w = f"/tmp/wt-{bid}"
    if os.path.exists(w):
        shutil.rmtree(w)
    copy_repo(w)
    try:
        p = sh(f"git apply {V}/seeded/{bid}/patch.diff", w)
        if p.returncode:
            return f"{bid}: PATCH DOES NOT APPLY {p.stderr}"
        return f"{bid} [{meta['property']}]: " + run_check(meta["property"], w, os.environ.get("SEEDS", "1"))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def note(bid, txt):
    f = f"{V}/tools/plant_results.json"
    d = json.load(open(f)) if os.path.exists(f) else {}
    if "CAUGHT" in txt or "MISSED" in txt:
        sig = re.search(r"violated: ([^:]+:?[^:]*)", txt)
        d[bid] = "missed" if "MISSED" in txt else "caught" + (": " + sig.group(1).strip()[:60] if sig else "") + (" (failed obligation, no input)" if "NFI" in txt else "")
        json.dump(d, open(f, "w"), indent=1, sort_keys=True)
    print(txt, flush=True)


if __name__ == "__main__":
    os.makedirs("/tmp/plant", exist_ok=True)
    if sys.argv[1] == "--check":
        for b in sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")):
            note(b, recheck(b))
    else:
        for s in sys.argv[1:]:
            note(os.path.basename(s)[:-3], make(s))
