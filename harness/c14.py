"""C14: the dataset registry and its sample metadata stay consistent."""
import gzip
import json
import os

from common import Group, Skip, Violation, check, main
import db

NAMES = ["d0", "D0", "it's", "ü ; DROP", "d%", ""]


def setup():
    import c11
    c11.setup()


def schema_for(rng, props, variant):
    out = {}
    for p in props:
        dt, mu = db.SCHEMA[p]
        en = db.ENUMS.get(p)
        if variant and rng.random() < 0.6:
            r = rng.random()
            if r < 0.5:
                mu = not mu
            elif r < 0.75 and en:
                en = en[:2]
            else:
                dt, en = ("STRING", None) if dt == "ENUM" else ("ENUM", db.POOL[p])
        out[p] = [dt, mu, en]
    return out


def gen_case(rng):
    props = rng.sample(sorted(db.SCHEMA), rng.choice([1, 2, 3]))
    src = []
    for k in range(rng.choice([2, 3])):
        mine = rng.sample(props, rng.choice([1, len(props)]))
        variant = rng.random() < 0.2
        bad = rng.choice([None, None, None, None, "row", "json", "empty", "missing", "parser", "enum"])
        kind = rng.choice(["jsonl", "jsonl", "jsonl.gz", "parquet"])
        files = db.rand_dataset(rng, mine, maxrows=12)
        sch = schema_for(rng, mine, variant)
        for rows in files:
            for m in rows:
                for p in mine:
                    if p in m and m[p] is not None and sch[p][1] != isinstance(m[p], list):
                        m[p] = [m[p]] if sch[p][1] else (m[p][0] if m[p] else None)
        src.append({"schema": sch, "variant": variant, "bad": bad, "kind": kind, "files": files, "single": rng.random() < 0.15, "stray": rng.random() < 0.3})
    ops = []
    for _ in range(rng.choice([4, 7, 10])):
        r = rng.random()
        nm = rng.randrange(len(NAMES)) if rng.random() < 0.2 else rng.randrange(3)
        if r < 0.55:
            ops.append(["reg", nm, rng.randrange(len(src))])
        elif r < 0.8:
            ops.append(["rm", nm])
        elif r < 0.9:
            ops.append(["reopen"])
        else:
            ops.append(["dtype", nm, rng.randrange(len(src))])
    return {"src": src, "ops": ops}


def make_parser(schema, bad):
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty

    class HarnessParser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=p, dtype=s[0], multiple=s[1], nullable=True, enum_options=set(s[2]) if s[2] else None) for p, s in schema.items()]

        def parse(self, line_number, payload, **kw):
            if payload.get("boom"):
                raise ValueError("boom")
            m = payload["m"]
            if isinstance(m, str):
                m = json.loads(m)
            self.add_metadata(sample_id=line_number, **m)
    return HarnessParser


def write_src(d, k, s):
    """-> (location, {file: rows})"""
    root = os.path.join(d, f"data {k}'")
    os.makedirs(root)
    if s["bad"] == "missing":
        return os.path.join(root, "nothing"), {}
    out = {}
    files = [] if s["bad"] == "empty" else s["files"]
    for j, rows in enumerate(files):
        f = os.path.join(root, f"f{j}.{s['kind']}")
        recs = [{"m": m, "i": i} for i, m in enumerate(rows)]
        if j == len(files) - 1 and recs:
            if s["bad"] == "row":
                recs[-1]["boom"] = True
            if s["bad"] == "enum":
                en = [p for p, x in s["schema"].items() if x[0] == "ENUM"]
                if en:
                    recs[-1] = {"m": dict(recs[-1]["m"], **{en[0]: ["not allowed"] if s["schema"][en[0]][1] else "not allowed"}), "i": 0}
        if s["kind"] == "parquet":
            import pyarrow as pa
            import pyarrow.parquet as pq
            pq.write_table(pa.table({"m": pa.array([json.dumps(r["m"]) for r in recs], pa.string()), "boom": pa.array([bool(r.get("boom")) for r in recs], pa.bool_())}), f, row_group_size=4)
        else:
            op = gzip.open if s["kind"].endswith("gz") else open
            with op(f, "wt", encoding="utf-8") as fh:
                for r in recs:
                    fh.write(json.dumps(r, ensure_ascii=False) + "\n")
                if s["bad"] == "json" and j == len(files) - 1:
                    fh.write("{no json\n")
        out[f] = rows
    if s["stray"]:
        open(os.path.join(root, "README.txt"), "w").write("{no json}")
    if s["single"] and len(out) == 1:
        return next(iter(out)), out
    return root, out


def must_fail(s):
    if s["bad"] in ("missing", "empty", "parser"):
        return True
    if s["bad"] == "row":
        return bool(s["files"][-1])
    if s["bad"] == "json":
        return s["kind"] != "parquet"
    if s["bad"] == "enum":
        return bool(s["files"][-1]) and any(x[0] == "ENUM" for x in s["schema"].values())
    # values outside the options of an ENUM
    for rows in s["files"]:
        for m in rows:
            for p, (dt, mu, en) in s["schema"].items():
                v = m.get(p)
                if dt == "ENUM" and v is not None and any(x not in en for x in (v if mu else [v])):
                    return True
    return False


def snapshot(st):
    cur = st._mdc._connection.cursor()
    ds = {r[1]: (r[0], r[2], r[3]) for r in cur.execute("SELECT id, name, location, type FROM datasets").fetchall()}
    nds = cur.execute("SELECT COUNT(*) FROM datasets").fetchone()[0]
    files = cur.execute("SELECT id, dataset_id, location FROM files").fetchall()
    cols = [r[0] for r in cur.execute("SELECT name FROM pragma_table_info('samples')").fetchall()]
    rows = cur.execute("SELECT * FROM samples").fetchall()
    return ds, nds, files, cols, [dict(zip(cols, r)) for r in rows]


def run_case(c):
    from mixtera.core.client.local.local_stub import LocalStub
    from mixtera.core.datacollection.datasets.dataset import Dataset
    from mixtera.core.datacollection.datasets.jsonl_dataset import JSONLDataset
    from mixtera.core.datacollection.datasets.parquet_dataset import ParquetDataset
    with db.tmpdir() as d:
        srcs = [write_src(d, k, s) for k, s in enumerate(c["src"])]

        def mk():
            st = LocalStub(d)
            for k, s in enumerate(c["src"]):
                if s["bad"] != "parser":
                    st.register_metadata_parser(f"P{k}", make_parser(s["schema"], s["bad"]))
            return st
        st = mk()
        reg = {}
        used_ds, used_f = {}, {}
        plain = True
        versions = [st._mdc.get_db_version()]
        for n, o in enumerate(c["ops"]):
            changed = False
            if o[0] in ("reg", "dtype"):
                name, s = NAMES[o[1]], c["src"][o[2]]
                loc, files = srcs[o[2]]
                dt = Dataset if o[0] == "dtype" else ParquetDataset if s["kind"] == "parquet" else JSONLDataset
                kk = n
                try:
                    ok = st.register_dataset(name, loc, dt, (lambda kk: (lambda x: (kk, x)))(kk), f"P{o[2]}")
                except Exception as e:  # noqa
                    ok = False
                    if name not in reg and not must_fail(s) and o[0] == "reg" and plain and not s["variant"]:
                        raise
                check(ok in (True, False), "registry:result", lambda: f"{ok!r}; {c}")
                if name in reg or o[0] == "dtype" or must_fail(s):
                    check(not ok, "registry:accepted", lambda: f"{o} should have been refused; {c}")
                elif plain and not s["variant"]:
                    check(ok, "registry:refused", lambda: f"{o}; {c}")
                if ok:
                    reg[name] = (o[2], kk)
                    changed = True
                if s["variant"]:
                    plain = False       # columns of another type may exist now; later registrations may be refused
            elif o[0] == "rm":
                name = NAMES[o[1]]
                ok = st.remove_dataset(name)
                check(bool(ok) == (name in reg), "registry:removal", lambda: f"{o} returned {ok}; {c}")
                changed = name in reg
                reg.pop(name, None)
            else:
                st._mdc._connection.close()
                st = mk()
            v = st._mdc.get_db_version()
            check(v >= versions[-1], "version:decreased", lambda: f"{versions} {v}; {c}")
            if changed:
                check(v not in versions, "version:unchanged", lambda: f"{o}: {versions} {v}; {c}")
            versions.append(v)
            # ---- compare with the reference
            check(sorted(st.list_datasets()) == sorted(reg), "registry:list", lambda: f"after {o}: {sorted(st.list_datasets())} instead of {sorted(reg)}; {c}")
            for nm in NAMES:
                check(st.check_dataset_exists(nm) is (nm in reg), "registry:exists", lambda: f"{nm!r}; {c}")
            ds, nds, frows, cols, rows = snapshot(st)
            check(nds == len(reg) and set(ds) == set(reg), "tables:datasets", lambda: f"{ds}; {c}")
            for nm, (i, loc, typ) in ds.items():
                k, kk = reg[nm]
                check(used_ds.setdefault(i, (nm, kk)) == (nm, kk), "ids:dataset", lambda: f"{i} {nm} {used_ds}; {c}")
                check(st._mdc._get_dataset_func_by_id(i)("x") == (kk, "x"), "tables:parsing function", lambda: f"{c}")
                want = ParquetDataset if c["src"][k]["kind"] == "parquet" else JSONLDataset
                check(st._mdc._get_dataset_type_by_id(i) is want, "tables:type", lambda: f"{c}")
            byid = {v[0]: nm for nm, v in ds.items()}
            got = {}
            for fid, did, loc in frows:
                check(did in byid, "tables:file without dataset", lambda: f"{fid, did, loc} after {o}; {c}")
                key = (byid[did], reg[byid[did]][1], loc)
                check(used_f.setdefault(fid, key) == key, "ids:file", lambda: f"{fid} {key} {used_f}; {c}")
                check((byid[did], loc) not in got, "tables:file twice", lambda: f"{loc}; {c}")
                got[byid[did], loc] = (fid, did)
                check(st._mdc._get_file_path_by_id(fid) == loc, "tables:path", lambda: f"{c}")
            want = {(nm, f) for nm, (k, _) in reg.items() for f in srcs[k][1]}
            check(set(got) == want, "tables:files", lambda: f"after {o}: {sorted(got)} instead of {sorted(want)}; {c}")
            have = {}
            for r in rows:
                key = (r["dataset_id"], r["file_id"], r["sample_id"])
                check(key not in have, "tables:sample twice", lambda: f"{r}; {c}")
                have[key] = r
            total = 0
            for (nm, f), (fid, did) in got.items():
                k = reg[nm][0]
                s = c["src"][k]
                for i, m in enumerate(srcs[k][1][f]):
                    total += 1
                    r = have.get((did, fid, i))
                    check(r is not None, "tables:sample missing", lambda: f"{nm} {f} row {i} after {o}; {c}")
                    for col in cols[3:]:
                        w = m.get(col) if col in s["schema"] else None
                        if w is not None and s["schema"][col][1] and not isinstance(w, list):
                            w = [w]
                        check(r[col] == w, "tables:value", lambda: f"{nm} {f} row {i} {col}: {r[col]!r} instead of {w!r} after {o}; {c}")
            check(len(have) == total, "tables:extra samples", lambda: f"{len(have)} records for {total} rows after {o}; {c}")
        st._mdc._connection.close()
    return {"nontrivial": len(versions) > 3}


GROUPS = [Group("registry", gen_case, run_case, timeout=60)]
if __name__ == "__main__":
    main("C14", GROUPS, setup, "random histories of registrations (some of which must fail), removals and reopenings, every table compared with a reference after every step; non-trivial: more than two operations")
