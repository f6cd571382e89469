"""C07: the same query over the same data always gives the same order."""
import json
import os
import random
import subprocess
import sys

from common import Group, Skip, Violation, check, main, VENV_PY
import gen
import qr as Q

NATIVE = {}


def setup():
    from rt import realenv
    realenv.activate()


def gen_same(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([20, 80]))
    ops = []
    m = Q.rand_mixture(rng, ix, kinds=("static", "static", "static", "arbitrary", "inferring", "inferring"))
    for _ in range(rng.randrange(1, 10)):
        ops.append(["next"] if rng.random() < 0.85 else ["mix", Q.rand_mixture(rng, ix)])
    return {"index": ix, "mix": m, "ops": ops, "shuffle": rng.randrange(1 << 30), "mode": rng.choice(["simple", "window"]), "win": rng.choice([2, 3, 5, 10])}


def permuted(spec, seed):
    """the same index with its tables filled in another order"""
    r = random.Random(seed)
    out = [[p, [list(e) for e in es]] for p, es in spec]
    out = [[{k: r.sample(p[k], len(p[k])) for k in r.sample(sorted(p), len(p))}, r.sample(es, len(es))] for p, es in out]
    r.shuffle(out)
    return out


def execute(index, c, noise=0):
    if noise:
        random.seed(noise)
        for _ in range(noise % 17):
            random.random()
        import numpy as np
        np.random.seed(noise % 1000)
    qr = Q.real_qr(Q.build_index(index), Q.mk_mixture(c["mix"]), meta=Q.fake_meta(index))
    res = []
    for op in c["ops"]:
        if op[0] == "mix":
            qr.update_mixture(Q.mk_mixture(op[1]))
            continue
        try:
            ch = next(qr)
        except StopIteration:
            res.append(None)
            continue
        content = sorted([str(k), sorted(v)] for k, v in Q.samples_of(ch._result_index).items())
        mix = sorted([str(gen.kid(k)), int(v)] for k, v in (ch._mixture or {}).items())
        reads = []
        for i in range(2):
            if noise:
                random.seed(noise + i)
            ch.configure_result_streaming(None, Q.stream_args(chunk_reading_mixture_type=c["mode"], chunk_reading_window_size=c["win"]))
            reads.append([list(x) for x in ch])
        check(reads[0] == reads[1], "same:second reading differs", lambda: f"{reads[0][:5]} / {reads[1][:5]}; {c}")
        res.append([content, mix, reads[0]])
    return res


def run_same(c):
    a = execute(c["index"], c)
    b = execute(c["index"], c, noise=c["shuffle"])
    same(a, b, "same:random numbers", c)
    d = execute(permuted(c["index"], c["shuffle"]), c, noise=c["shuffle"] // 3 + 1)
    same(a, d, "same:table order", c)
    return {"nontrivial": any(a) and len(c["index"]) > 1}


def same(a, b, sig, c):
    for i, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            raise Violation(sig + " (end)", f"chunk {i}; {c}")
        if x is None:
            continue
        check(x[0] == y[0], sig + " (chunk)", lambda: f"chunk {i}: {x[0]} / {y[0]}; {c}")
        check(x[1] == y[1], sig + " (mixture)", lambda: f"chunk {i}: {x[1]} / {y[1]}; {c}")
        check(x[2] == y[2], sig + " (samples)", lambda: f"chunk {i}: {x[2][:6]} / {y[2][:6]}; {c}")


def gen_proc(rng):
    return {"cases": [gen_same(rng) for _ in range(12)], "hashseed": rng.randrange(1, 5000)}


def run_proc(c):
    """another process with another hash seed"""
    p = subprocess.run([VENV_PY, os.path.abspath(__file__), "--digest"], input=json.dumps(c["cases"]), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(c["hashseed"])), timeout=100)
    if p.returncode != 0:
        raise Skip("subprocess: " + p.stderr[-300:])
    other = json.loads(p.stdout.strip().splitlines()[-1])
    for case, o in zip(c["cases"], other):
        mine = json.loads(json.dumps(execute(case["index"], case)))
        same(mine, o, "process", case)
    return {}


def gen_native(rng):
    rows = []
    for f in range(rng.randrange(1, 4)):
        pos = 0
        for _ in range(rng.randrange(1, 40)):
            n = rng.randrange(1, 6)
            rows.append([1, f, pos, pos + n, rng.choice(["en", "de", "fr"]), rng.choice([["a"], ["b"], ["a", "b"], ["b;c,", "x:"], ["b;c"], []])])
            pos += n + rng.randrange(0, 2)
    return {"rows": rows, "threads": [rng.randrange(1, 9) for _ in range(2)], "seed": rng.randrange(1000)}


def run_native(c):
    """the real C++ chunker with different numbers of threads, then the chunks"""
    cpp = native()
    import pyarrow as pa
    cols = list(zip(*c["rows"]))
    t = pa.table({"dataset_id": pa.array(cols[0], pa.int32()), "file_id": pa.array(cols[1], pa.int32()), "interval_start": pa.array(cols[2], pa.int64()),
                  "interval_end": pa.array(cols[3], pa.int64()), "language": pa.array(cols[4]), "topic": pa.array(cols[5], pa.list_(pa.string()))})
    res = []
    for th in [1] + c["threads"]:
        ix = cpp(t, th)
        from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture
        one = []
        for m in (ArbitraryMixture(7), InferringMixture(5)):
            meta = {"dataset_type": {1: Q.FakeDataset}, "parsing_func": {1: Q.fake_parse}, "file_path": {f: f"F{f}" for f in range(9)}, "total_length": 0}
            qr = Q.real_qr(ix, m, meta=meta)
            for ch in qr:
                ch.configure_result_streaming(None, Q.stream_args(chunk_reading_mixture_type="simple"))
                one.append([sorted([str(k), sorted(v)] for k, v in Q.samples_of(ch._result_index).items()), [list(x) for x in ch]])
        res.append(one)
    for th, r in zip(c["threads"], res[1:]):
        check(r == res[0], "native:threads", lambda: f"1 and {th} threads give different sequences; {c}")
    return {"nontrivial": len(c["rows"]) > 3}


def native():
    if "f" not in NATIVE:
        from rt import realenv
        import importlib.util
        so, err = realenv.build_extension()
        if so is None:
            NATIVE["f"] = None
        else:
            spec = importlib.util.spec_from_file_location(realenv.EXT_NAME, so)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            NATIVE["f"] = m.create_chunker_index_cpp
    if NATIVE["f"] is None:
        raise Skip("chunker extension does not compile")
    return NATIVE["f"]


def setup_all():
    setup()
    try:
        native()
    except Skip:
        pass


GROUPS = [Group("same", gen_same, run_same, weight=3, timeout=30), Group("process", gen_proc, run_proc, weight=1.5, timeout=120),
          Group("native", gen_native, run_native, weight=1, timeout=60)]
if __name__ == "__main__":
    if "--digest" in sys.argv:
        setup()
        import logging
        logging.disable(logging.CRITICAL)
        print(json.dumps([execute(c["index"], c) for c in json.load(sys.stdin)]))
        sys.stdout.flush()
        os._exit(0)
    main("C07", GROUPS, setup_all, "random indexes with permuted tables, noisy random state, other processes and hash seeds, C++ chunker with 1-8 threads")
