"""Discharges obligations with external solvers (hard time limits, several in parallel)."""
from __future__ import annotations
import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import z3

Z3 = "z3-new"
CVC5 = "cvc5"


def to_smt2(hyps, goal, extra=()):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    for h in extra:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def run_solver(cmd, text, timeout):
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        t0 = time.time()
        try:
            p = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 5)
            out = p.stdout.strip()
        except subprocess.TimeoutExpired:
            out = "timeout"
        dt = time.time() - t0
    finally:
        os.unlink(path)
    first = out.split("\n")[0] if out else "error"
    if first not in ("sat", "unsat", "unknown", "timeout"):
        first = "error"
    return first, out, dt


def decide(texts, budget=10):
    """texts: the same obligation with different (sound) sets of hypotheses
    -> (status, backend, seconds, detail); status in proved / refuted / unknown / timeout"""
    if isinstance(texts, str):
        texts = [texts]
    total = 0.0
    details = []
    full = texts[min(1, len(texts) - 1)]
    zc = lambda b: [Z3, f"-T:{int(b)}"]
    cc = lambda b: [CVC5, f"--tlimit={int(b * 1000)}", "--full-saturate-quant"]
    attempts = [("z3", zc(2), texts[0], 2)]
    if len(texts) > 1:
        attempts.append(("z3", zc(3), texts[1], 3))
    if len(texts) > 2:
        attempts.append(("z3", zc(2), texts[2], 2))
    attempts += [
        ("z3/no-extensionality", zc(4) + ["smt.mbqi=false", "smt.array.extensional=false"], full, 4),
        ("cvc5", cc(budget / 2), full, budget / 2),
        ("z3/ematching", zc(budget) + ["smt.mbqi=false", "smt.random_seed=7"], full, budget),
        ("z3/plain", zc(budget) + ["auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.relevancy=0"], full, budget),
        ("z3", zc(budget), full, budget),
        ("cvc5/enum", [CVC5, f"--tlimit={int(budget * 1000)}", "--enum-inst"], texts[0], budget),
    ]
    refuted = False
    for name, cmd, t, b in attempts:
        if name.startswith("cvc5"):
            t = "(set-logic ALL)\n" + t
        st, out, dt = run_solver(cmd, t, b)
        total += dt
        details.append(f"{name}: {st} ({dt:.1f}s)" + (f" {out[:200]}" if st == "error" and "timeout" not in out else ""))
        if st == "unsat":
            return "proved", name, total, "; ".join(details)
        if st == "sat" and t is full and name == "z3":
            return "refuted", name, total, "; ".join(details)
    if any(": unknown" in d for d in details):
        return "unknown", "", total, "; ".join(details)
    return "timeout", "", total, "; ".join(details)


def decide_all(items, budget=10, workers=8, deadline=None):
    """items: list of (key, smt2 text); -> {key: result}"""
    out = {}

    def one(it):
        k, text = it
        if k == "pre":      # the vacuity guard: not meant to succeed, so not worth the whole ladder
            st, _, dt = run_solver([Z3, "-T:5"], text[0], 5)
            return k, ("proved" if st == "unsat" else st, "z3", dt, st)
        if deadline is not None and time.time() > deadline:
            return k, ("timeout", "", 0.0, "overall time limit reached")
        return k, decide(text, budget)
    with ThreadPoolExecutor(workers) as ex:
        for k, r in ex.map(one, items):
            out[k] = r
    return out
