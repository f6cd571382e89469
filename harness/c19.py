"""C19: saved query results load back unchanged."""
import os
import shutil
import tempfile

from common import Group, Violation, check, main
import gen


def setup():
    from rt import realenv
    realenv.activate()
    import mixtera.core.query.mixture  # noqa


def gen_index(rng):
    keys, seen = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 12])):
        p = {}
        for q in rng.sample(gen.PROPS, rng.choice([1, 1, 2, 3])):
            vals = list(gen.VALS[q]) + ["x_1", "a/b", "dataset_3", "", "é"]
            p[q] = rng.sample(vals, rng.choice([1, 1, 2]))
        kid = gen.keyid(p)
        if kid in seen:
            continue
        seen.add(kid)
        ds = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            fs = {}
            for _ in range(rng.choice([1, 1, 2, 4])):
                pos, iv = rng.choice([0, 0, 3, 2 ** 31 - 2, 2 ** 40]), []
                for _ in range(rng.choice([1, 1, 2, 5, 30])):
                    pos += rng.randrange(0, 5)
                    e = pos + rng.choice([1, 1, 2, 100, 10 ** 6])
                    iv.append([pos, e])
                    pos = e
                fs[str(rng.choice([1, 2, 10, 11, 12, 0, 123456]))] = iv
            ds[str(rng.choice([1, 2, 10, 11, 21, 999]))] = fs
        keys.append([p, ds])
    return keys


def gen_case(rng):
    return {"index": gen_index(rng), "other": gen_index(rng) if rng.random() < 0.3 else None, "cpus": rng.choice([1, 2, 5, 6, 8, 8, 12]), "cpus2": rng.choice([1, 5, 8]), "dummy": rng.random() < 0.75,
            "tuples": rng.random() < 0.5, "str": rng.random() < 0.5, "nested": rng.random() < 0.2, "junk": rng.random() < 0.2}


def mk(idx, tuples):
    from mixtera.core.query.mixture import MixtureKey
    return {MixtureKey({k: list(v) for k, v in p.items()}): {int(d): {int(f): [tuple(x) if tuples else list(x) for x in iv] for f, iv in fs.items()} for d, fs in ds.items()} for p, ds in idx}


def norm(index):
    """order of components kept"""
    out = []
    for k, ds in index.items():
        out.append([{a: list(b) for a, b in k.properties.items()}, {d: {f: [list(x) for x in iv] for f, iv in fs.items()} for d, fs in ds.items()}])
    return out


def tree(p):
    r = {}
    for d, _, fs in os.walk(p):
        r[d] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                r[os.path.join(d, f)] = fh.read()
    return r


def run_case(c):
    from mixtera.utils import utils as U
    d = tempfile.mkdtemp()
    old = os.cpu_count, os.environ.get("PYTEST_CURRENT_TEST")
    try:
        if c["dummy"]:
            os.environ["PYTEST_CURRENT_TEST"] = "x"
        else:
            os.environ.pop("PYTEST_CURRENT_TEST", None)
        os.cpu_count = lambda: c["cpus"]
        idx = mk(c["index"], c["tuples"])
        before = norm(idx)
        out = os.path.join(d, "a", "b", "ci") if c["nested"] else os.path.join(d, "ci")
        from pathlib import Path
        P = (lambda x: str(x)) if c["str"] else Path
        U.serialize_chunker_index(idx, P(out))
        check(norm(idx) == before, "index:input changed", lambda: f"{before} {norm(idx)}")
        os.cpu_count = lambda: c["cpus2"]
        got = U.deserialize_chunker_index(P(out))
        g = norm(got)
        check(g == before, "index:round trip", lambda: f"{before} loaded as {g}")
        for k in idx:
            check(any(k is not x and hash(k) == hash(x) and str(k) == str(x) for x in got) and got[k] is not None, "index:lookup", lambda: f"{k} not found after loading")
        for ds in got.values():
            for dd, fs in ds.items():
                check(isinstance(dd, int) and all(isinstance(f, int) for f in fs), "index:ids", lambda: f"{ds}")
                for iv in fs.values():
                    check(all(type(x) is int for r in iv for x in r), "index:row numbers", lambda: f"{iv}")
        if c["other"] is not None or c["junk"]:
            t = tree(out)
            try:
                U.serialize_chunker_index(mk(c["other"] or c["index"], c["tuples"]), P(out))
                raised = False
            except OSError:
                raised = True
            if not raised:
                g = norm(U.deserialize_chunker_index(P(out)))
                raise Violation("index:existing data not refused", f"{c} now loads as {g}")
            check(tree(out) == t, "index:existing data changed", lambda: f"{c}")
        return {"nontrivial": len(c["index"]) > 0}
    finally:
        os.cpu_count = old[0]
        if old[1] is None:
            os.environ.pop("PYTEST_CURRENT_TEST", None)
        else:
            os.environ["PYTEST_CURRENT_TEST"] = old[1]
        shutil.rmtree(d, ignore_errors=True)


GROUPS = [Group("index", gen_case, run_case, timeout=40)]
if __name__ == "__main__":
    main("C19", GROUPS, setup, "random indexes written and read with in-process pools and with 1 to 8 worker processes; non-trivial: at least one component")
