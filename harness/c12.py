"""C12: the query cache returns the right result or none."""
import os
import shutil
import sys

from common import Group, Skip, Violation, check, main
import c05
import c11
import db
import gen
import qr as Q

HOOK = {"on": False, "left": 0, "empty": False, "root": "", "busy": False, "fired": False}


class Crash(BaseException):
    """the process stops here"""


def audit(event, args):
    if not HOOK["on"] or HOOK["busy"]:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)) or not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return
    elif event in ("os.mkdir", "os.rename"):
        path = args[0]
    else:
        return
    if not os.fspath(path).startswith(HOOK["root"]) if isinstance(path, (str, os.PathLike)) else True:
        return
    if HOOK["left"] > 0:
        HOOK["left"] -= 1
        return
    HOOK["on"] = False
    HOOK["fired"] = True
    if event == "open" and HOOK["empty"]:
        open(path, "wb").close()
    raise Crash()


def setup():
    c11.setup()
    sys.addaudithook(audit)


def gen_case(rng):
    props = rng.sample(sorted(db.SCHEMA), rng.choice([1, 2]))
    ds = [db.rand_dataset(rng, props, maxrows=15) for _ in range(rng.choice([2, 3]))]
    qs = []
    for _ in range(rng.choice([1, 2, 3])):
        sel = [None if rng.random() < 0.3 else [c11.rand_cond(rng, props) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))]
        qs.append(sel)
    if len(qs) > 1 and rng.random() < 0.4 and qs[0][0]:
        # nearly the same text
        qs[1] = [[[p, op, v] for p, op, v in s] if s else None for s in qs[0]]
        p, op, v = qs[1][0][0]
        qs[1][0][0] = [p, op, rng.choice(db.POOL[p])]
    ops = [["reg", 0]]
    for _ in range(rng.choice([3, 5, 8])):
        r = rng.random()
        if r < 0.7:
            crash = [rng.randrange(0, 14), rng.random() < 0.5] if rng.random() < 0.25 else None
            ops.append(["exec", rng.randrange(len(qs)), rng.choice(["arbitrary", "arbitrary", "inferring"]), rng.choice([1, 3, 7]), crash])
        elif r < 0.85:
            ops.append(["reg", rng.randrange(len(ds))])
        elif r < 0.93:
            ops.append(["rm", rng.randrange(len(ds))])
        else:
            ops.append(["reopen"])
    if rng.random() < 0.25:       # the database is put back as it was at some point; the cache directory stays
        at = rng.randrange(1, len(ops) + 1)
        ops = ops[:at] + [["snap"]] + ops[at:] + [["restore"]]
        ops += [["exec", rng.randrange(len(qs)), rng.choice(["arbitrary", "inferring"]), rng.choice([1, 3]), None] for _ in range(2)]
    return {"props": props, "datasets": ds, "queries": qs, "ops": ops, "samehash": rng.random() < 0.3}


def mkq(sel, job):
    from mixtera.core.query import Query
    q = Query.for_job(job)
    for s in sel:
        q.select(None if s is None else [tuple(x) for x in s] if len(s) > 1 else tuple(s[0]))
    return q


def norm_index(ix):
    return {gen.kid(k): {d: {f: [tuple(x) for x in l] for f, l in fs.items() if l} for d, fs in ds.items()} for k, ds in ix.items()}


def drain(cd):
    out = []
    while len(out) < 30:
        try:
            ch = cd.next_chunk_for(0, 0, 0, False)
        except StopIteration:
            break
        out.append(c05.canon(c05.load(ch)))
    return out


def run_case(c):
    import pathlib
    from mixtera.core.client.local.local_stub import LocalStub
    from mixtera.core.client.mixtera_client import QueryExecutionArgs
    from mixtera.core.datacollection.datasets.jsonl_dataset import JSONLDataset
    from mixtera.core.query.chunk_distributor import ChunkDistributor
    with db.tmpdir() as d:
        paths = {}
        for k, files in enumerate(c["datasets"]):
            db.write_dataset(os.path.join(d, f"data{k}"), files)

        def mkstub():
            st = LocalStub(d)
            st.register_metadata_parser("H", db.make_parser(c["props"]))
            if c["samehash"] and hasattr(st._query_cache, "_get_query_hash"):
                st._query_cache._get_query_hash = lambda q: "samehash"
            return st
        st = mkstub()
        n = hits = 0
        for o in c["ops"]:
            if o[0] == "reg":
                k = o[1]
                st.register_dataset(f"d{k}", os.path.join(d, f"data{k}"), JSONLDataset, (lambda kk: (lambda x: (kk, db.parse_text(x))))(k), "H")
            elif o[0] == "rm":
                st.remove_dataset(f"d{o[1]}")
            elif o[0] in ("snap", "restore"):
                st._mdc._connection.close()
                for f in os.listdir(d):
                    p, keep = os.path.join(d, f), os.path.join(d, "kept-" + f)
                    if o[0] == "snap" and os.path.isfile(p):
                        shutil.copy(p, keep)
                    elif o[0] == "restore" and os.path.isfile(keep):
                        shutil.copy(keep, p)
                st = mkstub()
            elif o[0] == "reopen":
                st._mdc._connection.close()
                st = mkstub()
            else:
                _, qi, kind, size, crash = o
                if not st.list_datasets():
                    continue
                n += 1
                job = f"job{n}"
                fresh = mkq(c["queries"][qi], "fresh")
                spec = {"kind": kind, "chunk": size, "strict": False}
                fresh_mix = Q.mk_mixture(spec)
                fresh.execute(st._mdc, fresh_mix)
                want_ix = norm_index(fresh.results._chunker_index)
                if not want_ix and kind == "inferring":
                    continue
                q = mkq(c["queries"][qi], job)
                if crash:
                    HOOK.update(on=True, left=crash[0], empty=crash[1], root=os.path.join(d, "querycache"), fired=False)
                try:
                    ok = st.execute_query(q, QueryExecutionArgs(mixture=Q.mk_mixture(spec), dp_groups=1, nodes_per_group=1, num_workers=0))
                except Crash:
                    continue
                finally:
                    HOOK["on"] = False
                check(ok, "cache:refused", lambda: f"{o}; {c}")
                r = st._get_query_result(job)
                got_ix = norm_index(r._chunker_index)
                check(got_ix == want_ix, "cache:index", lambda: f"{o}: {got_ix} instead of {want_ix}; {c}")
                f = fresh.results
                check(dict(r.file_path) == dict(f.file_path), "cache:files", lambda: f"{r.file_path} / {f.file_path}; {c}")
                check(dict(r.dataset_type) == dict(f.dataset_type), "cache:dataset types", lambda: f"{c}")
                check(set(r.parsing_func) == set(f.parsing_func), "cache:parsing functions", lambda: f"{c}")
                for k in f.parsing_func:
                    a, b = r.parsing_func[k]('{"i": 5}'), f.parsing_func[k]('{"i": 5}')
                    check(a == b, "cache:parsing functions", lambda: f"dataset {k}: {a} instead of {b}; {c}")
                want = drain(ChunkDistributor(1, 1, 0, f, "fresh"))
                got = drain(st._get_query_chunk_distributor(job))
                check(got == want, "cache:chunks", lambda: f"{o}: {got[:3]} instead of {want[:3]}; {c}")
                hits += 1
        st._mdc._connection.close()
    return {"nontrivial": hits > 1}


GROUPS = [Group("cache", gen_case, run_case, timeout=60)]
if __name__ == "__main__":
    main("C12", GROUPS, setup, "random histories of registrations, removals, query executions (some interrupted while the cache entry is written) and reopenings against fresh executions; non-trivial: more than one execution compared")
