"""C18: property calculation gives every sample exactly one result."""
import bz2
import gzip
import lzma
import os
import shutil
import subprocess
import tempfile

from common import Group, check, expect_raises, main

ALPHA = ["a", "b", " ", "\t", "é", "\U0001f600", "x y", '"', "\\", "{", "日本"]


def setup():
    from rt import realenv
    realenv.activate()
    import mixtera.core.datacollection  # noqa
    import mixtera.core.processing.property_calculation  # noqa


def text(rng):
    return "".join(rng.choice(ALPHA) for _ in range(rng.choice([0, 0, 1, 2, 5, rng.randrange(0, 30)])))


def gen_exec(rng):
    files = []
    ids = rng.sample(range(0, 60), 6)
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        n = rng.choice([0, 1, 2, 3, 4, 7, rng.randrange(0, 30)])
        files.append({"id": ids[i], "ds": rng.choice([0, 1, 2, 77]), "lines": [text(rng) for _ in range(n)], "ext": rng.choice(["jsonl"] * 5 + ["jsonl.gz", "jsonl.bz2", "jsonl.xz", "jsonl.zst"]), "lastnl": rng.random() < 0.6,
                      "crlf": rng.random() < 0.1})
    if len(files) > 1 and rng.random() < 0.1:
        files[-1]["id"] = files[0]["id"]
        files[-1]["ds"] = files[0]["ds"] + 1
    return {"files": files, "batch": rng.choice([1, 1, 2, 3, 4, 7, 10, 1000]), "kind": rng.choice(["str", "int", "float", "list", "np"]), "wrong": rng.choice([None] * 6 + [-1, 1, "first"]),
            "twice": rng.random() < 0.15, "via": rng.random() < 0.5}


def write(d, i, f):
    nl = "\r\n" if f["crlf"] else "\n"
    t = nl.join(f["lines"]) + (nl if f["lastnl"] and f["lines"] else "")
    raw = t.encode("utf-8")
    p = os.path.join(d, f"f{i}.{f['ext']}")
    c = f["ext"].split(".")[-1]
    if c == "zst":
        r = subprocess.run(["zstd", "-q", "-c"], input=raw, capture_output=True)
        raw = r.stdout
    else:
        raw = {"gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress}.get(c, lambda x: x)(raw)
    with open(p, "wb") as fh:
        fh.write(raw)
    # the lines a text reader sees; a last line without content and without line end does not exist
    lines = list(f["lines"])
    if lines and not f["lastnl"] and lines[-1] == "":
        lines.pop()
    return p, lines


def run_exec(c):
    from mixtera.core.datacollection.datasets import JSONLDataset
    from mixtera.core.processing import ExecutionMode
    from mixtera.core.processing.property_calculation import LocalPropertyCalculationExecutor, PropertyCalculationExecutor
    d = tempfile.mkdtemp()
    try:
        want, spec = [], []
        for i, f in enumerate(c["files"]):
            p, lines = write(d, i, f)
            spec.append((f["id"], f["ds"], JSONLDataset, p))
            for j, ln in enumerate(lines):
                want.append((f["ds"], f["id"], j, ln.rstrip()))
        sizes, setups = [], []

        def val(s):
            s = str(s)
            return {"str": "v:" + s, "int": len(s) * 7 + 1, "float": len(s) + 0.5, "list": [s, "w"], "np": "v:" + s}[c["kind"]]

        def calc(ex, batch):
            check(ex.marker == 5, "exec:state of the setup function", "")
            n = len(batch["data"])
            sizes.append(n)
            check(n >= 1 and n <= c["batch"], "exec:batch size", lambda: f"{n} for {c['batch']}")
            check(all(len(batch[k]) == n for k in ("file_id", "line_id", "dataset_id")), "exec:batch columns", lambda: f"{batch}")
            r = [val(s) for s in batch["data"]]
            if c["wrong"] == -1:
                r = r[:-1]
            elif c["wrong"] == 1:
                r = r + r[:1]
            elif c["wrong"] == "first" and len(sizes) == 1:
                r = []
            return r

        def setup_fn(ex):
            setups.append(1)
            ex.marker = 5
        if c["via"]:
            ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, c["batch"], setup_fn, calc)
        else:
            ex = LocalPropertyCalculationExecutor(1, c["batch"], setup_fn, calc)
        ex.load_data(spec, True)
        if c["twice"]:
            ex.load_data([(fid + 1000, ds, t, p) for fid, ds, t, p in spec], True)
            want = want + [(a, b + 1000, j, s) for a, b, j, s in want]
        if c["wrong"] is not None and want:
            expect_raises(RuntimeError, ex.run, "exec:wrong number of values accepted", f"{c}")
            return
        res = ex.run()
        for run in (1, 2):
            got = sorted((int(r["dataset_id"]), int(r["file_id"]), int(r["sample_id"])) for r in res)
            check(got == sorted(w[:3] for w in want), "exec:samples", lambda: f"run {run}: results for {got[:40]} instead of {sorted(w[:3] for w in want)[:40]}: {c}")
            by = {w[:3]: w[3] for w in want}
            for r in res:
                k = (int(r["dataset_id"]), int(r["file_id"]), int(r["sample_id"]))
                check(r["property_value"] == val(by[k]), "exec:value", lambda: f"{k}: {r['property_value']!r} instead of {val(by[k])!r}: {c}")
            if run == 1:
                res = ex.run()
        return {"nontrivial": len(want) > 1}
    finally:
        shutil.rmtree(d, ignore_errors=True)


GROUPS = [Group("exec", gen_exec, run_exec, timeout=20)]
if __name__ == "__main__":
    main("C18", GROUPS, setup, "random jsonl files (plain and compressed), batch sizes and value types; non-trivial: at least two lines")
