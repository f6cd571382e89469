"""C11: a query selects exactly the samples that satisfy its conditions."""
import os

from common import Group, Skip, Violation, check, main
import db
import gen


def setup():
    from rt import realenv
    realenv.activate(native=True)
    import mixtera.core.query  # noqa: F401
    os.environ["PYTEST_CURRENT_TEST"] = "harness"       # registering without a process pool
    redirect()


def redirect():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)


OPS = ["==", "==", "==", "!=", "!=", ">", "<", ">=", "<="]


def rand_cond(rng, props, fields=None):
    p = rng.choice(props)
    op = rng.choice(OPS)
    typ, multi = db.SCHEMA[p]
    if multi or typ == "ENUM":
        op = rng.choice(["==", "==", "!="])
    r = rng.random()
    if r < 0.08:
        return [p, rng.choice(["==", "!="]), None]
    pool = db.POOL[p] if typ == "ENUM" else db.POOL[p] + ["other"]
    if r < 0.45:
        return [p, op, rng.sample(pool, rng.choice([1, 2, 2, 3]))]
    return [p, op, rng.choice(pool)]


def gen_case(rng):
    props = rng.sample(sorted(db.SCHEMA), rng.choice([1, 2, 2, 3]))
    ds = [db.rand_dataset(rng, props) for _ in range(rng.choice([1, 1, 2]))]
    qs = []
    for _ in range(3):
        sel = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if rng.random() < 0.12:
                sel.append(None)
            else:
                sel.append([rand_cond(rng, props) for _ in range(rng.choice([1, 1, 2, 3]))])
        qs.append({"sel": sel, "batch": rng.choice([0, 0, 1, 2, 5]), "threads": rng.choice([1, 2, 3, 4, 9])})
    return {"props": props, "datasets": ds, "queries": qs}


def sat(cond, m):
    p, op, v = cond
    multi = db.SCHEMA[p][1]
    x = m.get(p)
    if v is None:
        return (x is None) == (op == "==")
    if x is None:
        return False        # nothing is known about the value
    vs = v if isinstance(v, list) else [v]
    if multi:
        hit = any(w in x for w in vs)
        return hit if op == "==" else not hit
    if op == "==":
        return x in vs
    if op == "!=":
        return x not in vs
    f = {">": lambda a, b: a > b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b}[op]
    enc = lambda s: s.encode("utf-8")
    return any(f(enc(x), enc(w)) for w in vs)


def selected(sel, m):
    return any(s is None or all(sat(c, m) for c in s) for s in sel)


def run_case(c):
    from pathlib import Path
    from mixtera.core.datacollection import MixteraDataCollection
    from mixtera.core.datacollection.datasets.jsonl_dataset import JSONLDataset
    from mixtera.core.query import Query
    from mixtera.core.query.mixture import ArbitraryMixture
    with db.tmpdir() as d:
        mdc = MixteraDataCollection(Path(d))
        mdc._metadata_factory.add_parser("H", db.make_parser(c["props"]))
        want = {}
        for k, files in enumerate(c["datasets"]):
            paths = db.write_dataset(os.path.join(d, f"data{k}"), files)
            ok = mdc.register_dataset(f"d{k}", os.path.join(d, f"data{k}"), JSONLDataset, db.parse_text, "H")
            check(ok, "query:registration", lambda: f"{c}")
            want.update(paths)
        n = 0
        for q in c["queries"]:
            n += one(mdc, q, want, c, Query, ArbitraryMixture)
        mdc._connection.close()
    return {"nontrivial": n > 0}


def one(mdc, q, want, c, Query, ArbitraryMixture):
    import pyarrow as pa
    from mixtera.core.query import query_result as qrm
    query = Query.for_job("j")
    for s in q["sel"]:
        query.select(None if s is None else [tuple(x) for x in s] if len(s) > 1 else tuple(s[0]))
    orig = getattr(qrm, "cpp_create", None)
    if orig is not None and q["batch"]:
        def create(table, n):
            return orig(pa.Table.from_batches(table.to_batches(max_chunksize=q["batch"]), schema=table.schema), q["threads"])
        qrm.cpp_create = create
    try:
        query.execute(mdc, ArbitraryMixture(10))
    finally:
        if orig is not None:
            qrm.cpp_create = orig
    r = query.results
    exp = {}
    for path, rows in want.items():
        for i, m in enumerate(rows):
            if selected(q["sel"], m):
                key = tuple(sorted((p, db.norm(m.get(p), p)) for p in c["props"] if m.get(p) is not None))
                exp.setdefault(key, {}).setdefault(path, []).append(i)
    ivs = {}
    for k, fs in exp.items():
        for f, l in fs.items():
            out = []
            for i in l:
                if out and out[-1][1] == i:
                    out[-1][1] = i + 1
                else:
                    out.append([i, i + 1])
            ivs.setdefault(k, {})[f] = out
    got = {}
    for key, dss in r._chunker_index.items():
        kk = tuple(sorted((p, tuple(sorted(v))) for p, v in key.properties.items()))
        check(kk not in got, "query:component twice", lambda: f"{kk}; {q}; {c}")
        for did, fs in dss.items():
            for fid, l in fs.items():
                if not l:
                    continue
                path = r.file_path[fid]
                check(path in want, "query:file", lambda: f"{path}; {c}")
                check(f"/data{want_ds(path)}/" in path and path not in got.get(kk, {}), "query:file", lambda: f"{path} twice; {c}")
                got.setdefault(kk, {})[path] = [list(x) for x in l]
                check(r.parsing_func[did]('{"i": 41}') == 41, "query:parsing function", lambda: f"{c}")
    g = {k: {os.path.relpath(p, "/").split("/", 2)[-1]: v for p, v in x.items()} for k, x in got.items()}
    if got != ivs:
        gs = {(k, f, i) for k, x in got.items() for f, l in x.items() for a, b in l for i in range(a, b)}
        es = {(k, f, i) for k, x in ivs.items() for f, l in x.items() for a, b in l for i in range(a, b)}
        flat = lambda s: {(os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f), i) for _, f, i in s}
        check(flat(gs) >= flat(es), "query:lost samples", lambda: f"{sorted(flat(es) - flat(gs))[:5]} for {q['sel']}; {c}")
        check(flat(gs) <= flat(es), "query:foreign samples", lambda: f"{sorted(flat(gs) - flat(es))[:5]} for {q['sel']}; {c}")
        check(gs == es, "query:component", lambda: f"{[ (x[0], x[2]) for x in sorted(gs - es)][:3]} instead of {[(x[0], x[2]) for x in sorted(es - gs)][:3]}; {c}")
        raise Violation("query:intervals", f"{got} instead of {ivs}; {q}; {c}")
    return sum(len(l) for x in ivs.values() for l in x.values())


def want_ds(path):
    return os.path.basename(os.path.dirname(path))[4:]


GROUPS = [Group("query", gen_case, run_case, timeout=60)]
if __name__ == "__main__":
    main("C11", GROUPS, setup, "random datasets, conditions and chained selections through the real database and the compiled extension, with random batch sizes and thread counts; non-trivial: at least one interval selected")
