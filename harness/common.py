"""Runs concrete cases against the real code.

A harness module defines GROUPS: each group generates JSON-able cases from a seeded random source and runs one
case, raising Violation when the property is broken on it.  Every violation is replayed in a fresh process before it
is reported.  Exceptions that start in the harness itself (a private name that no longer exists, say) make the case
a skip, never an alarm; exceptions out of the code under test on a valid case are violations.
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"


class Violation(Exception):
    def __init__(self, sig, msg=""):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, str(msg)[:1500]


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def check(cond, sig, msg=""):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


def expect_raises(excs, fn, sig, msg=""):
    try:
        r = fn()
    except excs:
        return
    raise Violation(sig, f"{msg} (returned {r!r:.200})")


class Group:
    def __init__(self, name, gen, run, fixed=(), weight=1.0, timeout=60, cost=None):
        self.name, self.gen, self.run, self.fixed, self.weight, self.timeout = name, gen, run, list(fixed), weight, timeout


def in_repo(tb):
    """does the exception come out of the code under test (rather than out of the harness)?"""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        if f.filename.startswith(REPO + os.sep):
            return True
        if f.filename.startswith(VERIF + os.sep):
            return False
    return False


def run_case(g, case, timeout=None):
    """-> ('ok', info) | ('violation', sig, msg) | ('skip', why)"""
    to = timeout or g.timeout

    def onalarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, to)
    try:
        info = g.run(case)
        return ("ok", info)
    except Violation as v:
        return ("violation", v.sig, v.msg)
    except Skip as s:
        return ("skip", str(s))
    except CaseTimeout:
        return ("violation", f"{g.name}:hang", f"no result after {to} s")
    except Exception as e:  # noqa
        tb = traceback.format_exc(limit=-8)
        if in_repo(e.__traceback__):
            return ("violation", f"{g.name}:exception:{type(e).__name__}", tb)
        return ("skip", "harness: " + tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(wid, nworkers, groups, seed, deadline, maxcases, path, known):
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    res = {"evals": 0, "nontrivial": 0, "skips": 0, "violations": [], "samples": [], "skipmsgs": {}, "keys": [], "per_group": {}, "known": {}}
    keys = set()

    def handle(g, case):
        r = run_case(g, case)
        pg = res["per_group"].setdefault(g.name, [0, 0])
        res["evals"] += 1
        pg[0] += 1
        if r[0] == "violation":
            if r[1] in known:
                res["known"].setdefault(r[1], {"group": g.name, "case": case, "msg": r[2][:300]})
                return
            if sum(v["sig"] == r[1] for v in res["violations"]) < 3:
                res["violations"].append({"group": g.name, "sig": r[1], "msg": r[2], "case": case})
        elif r[0] == "skip":
            res["skips"] += 1
            pg[1] += 1
            k = f"{g.name}: {r[1]}"
            if len(res["skipmsgs"]) < 5 or k in res["skipmsgs"]:
                res["skipmsgs"][k] = res["skipmsgs"].get(k, 0) + 1
        else:
            info = r[1] if isinstance(r[1], dict) else {}
            if info.get("nontrivial", True):
                key = hash(json.dumps([g.name, case], sort_keys=True, default=str))
                if key not in keys:
                    keys.add(key)
                    if sum(s["group"] == g.name for s in res["samples"]) < 1:
                        res["samples"].append({"group": g.name, "case": case})

    def dump():
        res["nontrivial"] = len(keys)
        res["keys"] = list(keys)
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, path)

    fixed = [(g, c) for g in groups for c in g.fixed]
    for i, (g, c) in enumerate(fixed):
        if i % nworkers == wid:
            if time.time() > deadline + 60:
                break
            handle(g, c)
    dump()
    rngs = {g.name: random.Random(f"{seed}/{wid}/{g.name}") for g in groups}
    spent = {g.name: 0.0 for g in groups}
    n = 0
    last = time.time()
    live = [g for g in groups if g.gen is not None]
    while live and time.time() < deadline and (maxcases is None or n < maxcases):
        if len(res["violations"]) >= 6:
            break
        g = min(live, key=lambda g: spent[g.name] / g.weight)
        t0 = time.time()
        try:
            case = g.gen(rngs[g.name])
        except Exception as e:  # noqa
            res["skipmsgs"]["generator " + g.name + traceback.format_exc(limit=-3)] = 1
            live = [x for x in live if x is not g]
            continue
        if case is not None:
            handle(g, case)
        spent[g.name] += time.time() - t0 + 1e-5
        n += 1
        if time.time() - last > 5:
            dump()
            last = time.time()
    dump()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "known"]


def main(pid, groups, setup=None, rule=""):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--group", default=None)
    ap.add_argument("--max", type=int, default=None)
    a = ap.parse_args()
    if setup is not None:
        try:
            setup()
        except Exception:  # noqa
            out = {"error": traceback.format_exc(limit=-8), "evaluations": 0, "violations": []}
            if a.out:
                json.dump(out, open(a.out, "w"))
            print(out["error"])
            sys.exit(3)
    known = {k["sig"] for k in load_known(pid)}
    if a.replay:
        d = json.load(open(a.replay))
        g = next(g for g in groups if g.name == d["group"])
        r = run_case(g, d["case"], timeout=g.timeout * 2)
        print(json.dumps(r, default=str)[:3000])
        sys.stdout.flush()
        os._exit(1 if r[0] == "violation" else 0)
    if a.group:
        groups = [g for g in groups if g.name in a.group.split(",")]
    t0 = time.time()
    deadline = t0 + a.budget
    work = os.path.join(VERIF, "build", f"run-{pid}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    os.environ["TMPDIR"] = work
    import tempfile
    tempfile.tempdir = work
    ctx = mp.get_context("fork")
    procs = []
    for w in range(a.workers):
        path = os.path.join(work, f"w{w}.json")
        p = ctx.Process(target=_worker, args=(w, a.workers, groups, a.seed, deadline, a.max, path, known))
        p.start()
        procs.append((p, path))
    maxto = max([g.timeout for g in groups] + [10])
    for p, _ in procs:
        p.join(max(0.1, deadline + maxto + 20 - time.time()))
    dead = []
    for p, _ in procs:
        if p.is_alive():
            p.kill()
            p.join()
            dead.append("a worker did not finish and was ended")
        elif p.exitcode != 0:
            dead.append(f"a worker ended with exit code {p.exitcode}")
    tot = {"evaluations": 0, "skips": 0, "violations": [], "samples": [], "skipmsgs": {}, "per_group": {}, "known": {}, "worker_errors": dead}
    keys = set()
    for _, path in procs:
        if not os.path.exists(path):
            continue
        r = json.load(open(path))
        tot["evaluations"] += r["evals"]
        tot["skips"] += r["skips"]
        tot["violations"] += r["violations"]
        tot["known"].update(r["known"])
        keys.update(r["keys"])
        for s in r["samples"]:
            if sum(x["group"] == s["group"] for x in tot["samples"]) < 1:
                tot["samples"].append(s)
        for k, v in r["skipmsgs"].items():
            tot["skipmsgs"][k] = tot["skipmsgs"].get(k, 0) + v
        for k, v in r["per_group"].items():
            o = tot["per_group"].setdefault(k, [0, 0])
            o[0] += v[0]
            o[1] += v[1]
    tot["distinct_nontrivial"] = len(keys)
    tot["rule"] = rule
    # replay the smallest case of each signature in a fresh process
    best = {}
    for v in tot["violations"]:
        size = len(json.dumps(v["case"], default=str))
        best.setdefault(v["sig"], []).append((size, v))
    confirmed, unconfirmed = [], []
    rd = os.path.join(VERIF, "build", "replay")
    os.makedirs(rd, exist_ok=True)
    for i, (sig, vs) in enumerate(sorted(best.items())):
        if len(confirmed) >= 4:
            break
        vs.sort(key=lambda x: x[0])
        ok = False
        for j, (_, v) in enumerate(vs[:3]):
            path = os.path.join(rd, f"{pid}-{i}-{j}.json")
            v["property"] = pid
            v["how"] = f"{VENV_PY} {sys.argv[0]} --replay {path}"
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            try:
                p = subprocess.run([VENV_PY, sys.argv[0], "--replay", path], capture_output=True, text=True, timeout=2 * maxto + 60,
                                   env=dict(os.environ))
                out = p.stdout[-1500:]
                good = p.returncode == 1
            except subprocess.TimeoutExpired:
                good, out = True, "the replay hung"
            v["replayed"] = out
            if good:
                v["path"] = path
                confirmed.append({k: v[k] for k in ("group", "sig", "msg", "path", "case")})
                ok = True
                break
        if not ok:
            unconfirmed.append({"sig": sig, "msg": vs[0][1]["msg"], "case": vs[0][1]["case"]})
    tot["violations"], tot["unconfirmed"] = confirmed, unconfirmed
    tot["wall_s"] = time.time() - t0
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    if a.out:
        json.dump(tot, open(a.out, "w"), default=str)
    else:
        print(json.dumps({k: v for k, v in tot.items() if k != "samples"}, indent=1, default=str)[:6000])
    sys.stdout.flush()
    os._exit(0)
