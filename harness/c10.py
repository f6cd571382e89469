"""C10: dataset readers return exactly the requested rows in order."""
import bz2
import gzip
import io
import json
import lzma
import os
import random
import shutil
import subprocess
import tarfile
import tempfile
from contextlib import contextmanager

from common import Group, Skip, Violation, check, main
import gen


def setup():
    from rt import realenv
    realenv.activate()
    import mixtera.core.datacollection.datasets.web_dataset  # noqa: F401


@contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix="c10-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rand_ranges(rng, n):
    """sorted, non-overlapping, possibly adjacent ranges within [0, n]"""
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(2 * rng.choice([0, 1, 1, 2, 3, 6])))
    out = []
    style = rng.random()
    for a, b in zip(cuts[::2], cuts[1::2]):
        if a == b and rng.random() < 0.7:
            continue
        if style < 0.3 and b - a > 1:
            m = rng.randrange(a + 1, b)
            out += [[a, m], [m, b]]
        else:
            out.append([a, b])
    if style > 0.9 and n:
        out = [[0, n]]
    if style > 0.97:
        out = [[i, i + 1] for i in range(n)]
    return out


def bad_ranges(rng, n):
    """a list that is unsorted or overlapping in at least one place (no empty ranges)"""
    for _ in range(50):
        k = rng.choice([2, 2, 3, 4])
        rs = []
        for _ in range(k):
            a = rng.randrange(0, n)
            rs.append([a, rng.randrange(a + 1, n + 1)])
        if rng.random() < 0.5:
            rs.sort()
        if any(x[1] > y[0] for x, y in zip(rs, rs[1:])):
            return rs
    return [[0, 1], [0, 1]]


WORDS = ["", "x", "äöü", "\u2028", "\x85", "日本", "a\\n", "END", "null", "0", "line", "\U0001f600", "\x0b", "\x0c", "\x1c"]


def row(seed, i):
    r = random.Random(f"{seed}/{i}")
    return {"i": i, "text": " ".join(r.choice(WORDS) for _ in range(r.randrange(0, 5)))}


def write_jsonl(path, rows, nl):
    def dump(r):
        s = json.dumps(r, ensure_ascii=False)
        for ch in ("\x0b", "\x0c", "\x1c"):
            s = s.replace(ch, "\\u%04x" % ord(ch))
        return s
    data = "\n".join(dump(r) for r in rows)
    if nl and rows:
        data += "\n"
    data = data.encode("utf-8")
    if path.endswith(".gz"):
        data = gzip.compress(data)
    elif path.endswith(".bz2"):
        data = bz2.compress(data)
    elif path.endswith(".xz"):
        data = lzma.compress(data)
    elif path.endswith(".zst"):
        data = subprocess.run(["zstd", "-q", "-c"], input=data, capture_output=True, check=True).stdout
    with open(path, "wb") as f:
        f.write(data)


def rec_parser():
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return []

        def parse(self, line_number, payload, **kw):
            self.metadata.append((line_number, payload))
    return P(1, 1)


SERVER = None


def connection():
    """a server connection whose peer (a thread of this process) answers file requests as the server does"""
    global SERVER
    import asyncio
    import threading
    from mixtera.network import NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES
    from mixtera.network.connection import ServerConnection
    from mixtera.network.network_utils import read_int, read_utf8_string, write_utf8_string
    from mixtera.core.filesystem import FileSystem
    if SERVER is None or SERVER[0] != os.getpid():
        ready = threading.Event()
        port = []

        async def answer(reader, writer):
            await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
            path = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
            await write_utf8_string("".join(FileSystem.from_path(path).get_file_iterable(path)), NUM_BYTES_FOR_SIZES, writer)
            writer.close()

        async def serve():
            s = await asyncio.start_server(answer, "127.0.0.1", 0)
            port.append(s.sockets[0].getsockname()[1])
            ready.set()
            await s.serve_forever()
        threading.Thread(target=lambda: asyncio.run(serve()), daemon=True).start()
        if not ready.wait(20):
            raise Skip("no loopback server")
        SERVER = (os.getpid(), port[0])
    return ServerConnection("127.0.0.1", SERVER[1])


def gen_jsonl(rng):
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 10, rng.randrange(1, 60)])
        fs.append({"n": n, "seed": rng.randrange(10 ** 6), "nl": rng.random() < 0.6,
                   "ext": rng.choice(["", "", "", ".gz", ".bz2", ".xz", ".zst"]) if rng.random() < 0.5 else "",
                   "ranges": rand_ranges(rng, n)})
    return {"files": fs, "bad": None if rng.random() < 0.75 else bad_ranges(rng, fs[0]["n"]), "tunnel": rng.random() < 0.25}


def read_all(cls, per_file, conn=None):
    """reads through the public entry point; every parsed value must be handed out"""
    calls = []

    def parse(x):
        calls.append(x)
        return ("parsed", len(calls) - 1, x)
    out = list(cls.read_ranges_from_files(per_file, parse, conn))
    return out, calls


def compare(cls, per_file, want, conv, c, conn=None):
    out, calls = read_all(cls, per_file, conn)
    check(all(isinstance(o, tuple) and len(o) == 3 and o[0] == "parsed" for o in out), "read:not parsed", lambda: f"{out[:2]}; {c}")
    got = [conv(o[2]) for o in out]
    check(got == want, "read:rows", lambda: f"{len(got)} rows instead of {len(want)}: {[g for g, w in zip(got, want) if g != w][:2]} instead of {[w for g, w in zip(got, want) if g != w][:2]}; {c}")
    check([o[1] for o in out] == list(range(len(calls))), "read:parsing function", lambda: f"{[o[1] for o in out][:9]} of {len(calls)} calls; {c}")


def numbering(cls, path, rows, conv, c):
    p = rec_parser()
    cls.inform_metadata_parser(path, p)
    check([n for n, _ in p.metadata] == list(range(len(rows))), "index:row numbers", lambda: f"{[n for n, _ in p.metadata][:10]}; {c}")
    got = [conv(x) for _, x in p.metadata]
    check(got == rows, "index:rows", lambda: f"{[g for g, w in zip(got, rows) if g != w][:2]}; {c}")


def run_jsonl(c):
    from mixtera.core.datacollection.datasets.jsonl_dataset import JSONLDataset
    with tmpdir() as d:
        per, want = {}, []
        for k, f in enumerate(c["files"]):
            rows = [row(f["seed"], i) for i in range(f["n"])]
            p = os.path.join(d, f"{k}.jsonl{f['ext']}")
            write_jsonl(p, rows, f["nl"])
            numbering(JSONLDataset, p, rows, lambda x: x, c)
            per[p] = [tuple(r) for r in f["ranges"]]
            want += [rows[i] for a, b in f["ranges"] for i in range(a, b)]
        compare(JSONLDataset, per, want, json.loads, c)
        if c.get("tunnel"):       # through a server the rows are the same
            compare(JSONLDataset, per, want, json.loads, c, connection())
        if c["bad"]:
            try:
                out, _ = read_all(JSONLDataset, {p0: [tuple(r) for r in c["bad"]] for p0 in list(per)[:1]})
            except Exception:  # noqa
                pass
            else:
                raise Violation("read:bad ranges accepted", f"{c['bad']} -> {out[:3]}; {c}")
        # the ranges are not used up or changed by reading
        check(per == {os.path.join(d, f"{k}.jsonl{f['ext']}"): [tuple(r) for r in f["ranges"]] for k, f in enumerate(c["files"])}, "read:ranges changed", lambda: f"{c}")
    return {"nontrivial": bool(want)}


def gen_parquet(rng):
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 5, 12, rng.randrange(1, 80)])
        fs.append({"n": n, "seed": rng.randrange(10 ** 6), "rg": rng.choice([1, 2, 3, 5, 7, n, n + 1, max(1, n // 2)]), "ranges": rand_ranges(rng, n),
                   "comp": rng.choice(["none", "snappy", "gzip", "zstd"])})
        if rng.random() < 0.35:       # row groups of any sizes, also empty ones
            left, groups = n, []
            while left or rng.random() < 0.3:
                groups.append(0 if rng.random() < 0.35 else rng.randrange(0, left + 1))
                left -= groups[-1]
            fs[-1]["groups"] = groups
    return {"files": fs}


def run_parquet(c):
    import pyarrow as pa
    import pyarrow.parquet as pq
    from mixtera.core.datacollection.datasets.parquet_dataset import ParquetDataset
    with tmpdir() as d:
        per, want = {}, []
        for k, f in enumerate(c["files"]):
            if f.get("big"):
                rows = [{"i": i} for i in range(f["n"])]
                t = pa.table({"i": list(range(f["n"]))})
            else:
                rows = [dict(row(f["seed"], i), l=[i, None, i * 2][: i % 4], o=None if i % 3 else {"a": i}) for i in range(f["n"])]
                t = pa.Table.from_pylist(rows, schema=pa.schema([("i", pa.int64()), ("text", pa.string()), ("l", pa.list_(pa.int64())), ("o", pa.struct([("a", pa.int64())]))]))
            p = os.path.join(d, f"{k}.parquet")
            if f.get("groups") is not None:
                at = 0
                with pq.ParquetWriter(p, t.schema, compression=f.get("comp", "none")) as w:
                    for g in f["groups"]:
                        w.write_table(t.slice(at, g), row_group_size=max(g, 1))
                        at += g
            else:
                pq.write_table(t, p, row_group_size=f["rg"], compression=f.get("comp", "none"))
            numbering(ParquetDataset, p, rows, lambda x: x, c)
            per[p] = [tuple(r) for r in f["ranges"]]
            want += [rows[i] for a, b in f["ranges"] for i in range(a, b)]
        compare(ParquetDataset, per, want, lambda x: x, c)
    return {"nontrivial": bool(want)}


def gen_web(rng):
    fs = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 2, 5, rng.randrange(1, 25)])
        fs.append({"n": n, "seed": rng.randrange(10 ** 6), "ranges": rand_ranges(rng, n), "exts": rng.sample(["txt", "cls", "json", "txt.gz", "bin", "pkl"], rng.choice([1, 2, 3])),
                   "dir": rng.random() < 0.3})
    return {"files": fs, "bad": None if rng.random() < 0.8 else bad_ranges(rng, fs[0]["n"])}


def web_sample(seed, i, exts, isdir):
    import pickle
    r = random.Random(f"{seed}/{i}")
    key = f"{'part/' if isdir else ''}s{i:05d}"
    files, want = [], {"__key__": key}
    for e in exts:
        if e == "txt":
            v = r.choice(WORDS) + str(i)
            files.append((key + ".txt", v.encode()))
            want[".txt"] = v
        elif e == "txt.gz":
            v = r.choice(WORDS) + str(i)
            files.append((key + ".txt.gz", gzip.compress(v.encode())))
            want[".txt.gz"] = v
        elif e == "cls":
            files.append((key + ".cls", str(i * 3).encode()))
            want[".cls"] = i * 3
        elif e == "json":
            files.append((key + ".json", json.dumps({"i": i}).encode()))
            want[".json"] = {"i": i}
        elif e == "pkl":
            files.append((key + ".pkl", pickle.dumps([i, "p"])))
            want[".pkl"] = [i, "p"]
        else:
            files.append((key + "." + e, bytes([i % 256, 0, 255])))
            want["." + e] = bytes([i % 256, 0, 255])
    return files, want


def conv_web(s):
    return {k: (v.getvalue() if isinstance(v, io.BytesIO) else v.read() if hasattr(v, "read") else bytes(v) if isinstance(v, memoryview) else v) for k, v in s.items()}


def run_web(c):
    from mixtera.core.datacollection.datasets.web_dataset import WebDataset
    with tmpdir() as d:
        per, want = {}, []
        for k, f in enumerate(c["files"]):
            p = os.path.join(d, f"{k}.tar")
            rows = []
            with tarfile.open(p, "w") as t:
                for i in range(f["n"]):
                    files, w = web_sample(f["seed"], i, f["exts"], f["dir"])
                    rows.append(w)
                    for name, data in files:
                        ti = tarfile.TarInfo(name)
                        ti.size = len(data)
                        t.addfile(ti, io.BytesIO(data))
            pz = rec_parser()
            # values of the streams must be read while the file is open
            seen = []
            pz.parse = lambda line_number, payload, **kw: seen.append((line_number, conv_web(payload)))
            WebDataset.inform_metadata_parser(p, pz)
            check([n for n, _ in seen] == list(range(len(rows))), "index:row numbers", lambda: f"{[n for n, _ in seen][:10]}; {c}")
            check([x for _, x in seen] == rows, "index:rows", lambda: f"{[(a, b) for (_, a), b in zip(seen, rows) if a != b][:1]}; {c}")
            per[p] = [tuple(r) for r in f["ranges"]]
            want += [rows[i] for a, b in f["ranges"] for i in range(a, b)]
        calls = []

        def parse(x):
            calls.append(1)
            return ("parsed", len(calls) - 1, conv_web(x))
        out = list(WebDataset.read_ranges_from_files(per, parse, None))
        got = [o[2] for o in out]
        check(got == want, "read:rows", lambda: f"{len(got)} rows instead of {len(want)}: {[(a, b) for a, b in zip(got, want) if a != b][:1]}; {c}")
        check([o[1] for o in out] == list(range(len(calls))), "read:parsing function", lambda: f"{c}")
        if c["bad"]:
            try:
                out = list(WebDataset.read_ranges_from_files({p0: [tuple(r) for r in c["bad"]] for p0 in list(per)[:1]}, lambda x: x["__key__"], None))
            except Exception:  # noqa
                pass
            else:
                raise Violation("read:bad ranges accepted", f"{c['bad']} -> {out[:3]}; {c}")
    return {"nontrivial": bool(want)}


GROUPS = [
    Group("jsonl", gen_jsonl, run_jsonl, weight=2, timeout=30),
    Group("parquet", gen_parquet, run_parquet, weight=2, timeout=30,
          fixed=[{"files": [{"n": 70000, "big": True, "seed": 0, "rg": 40000, "ranges": [[0, 3], [31990, 32020], [39990, 40010], [64000, 66000], [69999, 70000]]}]},
                 {"files": [{"n": 70000, "big": True, "seed": 0, "rg": 70000, "ranges": [[10, 69990]]}]}]),
    Group("web", gen_web, run_web, weight=1, timeout=30),
]
if __name__ == "__main__":
    main("C10", GROUPS, setup, "random files, compressions, row groups and range lists; non-trivial: at least one row requested")
