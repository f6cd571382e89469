"""C13: messages arrive exactly as sent, however the network splits them; server and local client agree."""
import asyncio
import json
import math
import os
import random
import socket
import struct
import sys
import time
import traceback

from common import Group, Skip, Violation, check, main
import db
import qr as Q
from rt import realenv

NU = None
MISSING = "<nothing>"


def setup():
    global NU
    realenv.activate(native=True)
    import c11
    import mixtera.core.query  # noqa: F401
    import mixtera.network.network_utils as NU_
    NU = NU_
    import parsers13  # noqa: F401
    os.environ["PYTEST_CURRENT_TEST"] = "harness"       # registering without a process pool
    c11.redirect()


class Writer:
    def __init__(self):
        self.b = bytearray()
        self.drained = 0

    def write(self, x):
        self.b += x

    async def drain(self):
        self.drained += 1


def arr(spec):
    import numpy as np
    if spec is None:
        return None
    return np.array(spec["data"], dtype=spec["dtype"]).reshape(spec["shape"])


def rand_obj(rng, depth=0):
    r = rng.random()
    if r < 0.3 or depth > 2:
        return rng.choice([None, True, 0, -1, 2 ** 70, 1.5, "ü\n", "", "x" * rng.choice([0, 10, 300])])
    if r < 0.65:
        return [rand_obj(rng, depth + 1) for _ in range(rng.choice([0, 1, 3]))]
    return {f"k{i}": rand_obj(rng, depth + 1) for i in range(rng.choice([0, 1, 3]))}


def gen_msg(rng):
    k = rng.choice(["int", "float", "utf8", "bytes", "obj", "array", "raw"])
    sz = rng.choice([1, 2, 4, 8, 8, 16])
    if k == "int":
        lo = -(1 << (8 * sz - 1))
        v = rng.choice([0, 1, -1, lo, -lo - 1, rng.randrange(lo, -lo), rng.randrange(-130, 130) if sz > 1 else 5])
        return {"k": k, "v": str(v), "size": sz}
    if k == "float":
        return {"k": k, "v": rng.choice([0.0, -0.0, 1.5, -math.pi, 1e308, 5e-324, rng.uniform(-10, 10)]), "special": rng.choice([None, None, None, "nan", "inf", "-inf"])}
    maxlen = 100 if sz == 1 else 700
    if k == "utf8":
        return {"k": k, "v": "".join(rng.choice("ab \n\0ü日€😀") for _ in range(rng.choice([0, 1, 5, rng.randrange(30)]))), "size": sz}
    if k in ("bytes", "raw"):
        n = rng.choice([1, 2, 7, rng.randrange(1, maxlen)])
        return {"k": k, "v": bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)).hex() if (k == "raw" or rng.random() < 0.85) else None, "size": sz}
    if k == "obj":
        return {"k": k, "v": rand_obj(rng), "size": rng.choice([4, 8, 16])}
    if rng.random() < 0.15:
        return {"k": "array", "v": None, "size": 16, "ids": 8}
    shape = rng.choice([[0], [1], [3], [2, 3], [1, 0, 2]])
    n = 1
    for x in shape:
        n *= x
    dt = rng.choice(["float32", "float64", "int64", "int32", "bool"])
    return {"k": "array", "v": {"data": [rng.randrange(0, 100) for _ in range(n)], "dtype": dt, "shape": shape}, "size": rng.choice([8, 16]), "ids": rng.choice([1, 8])}


def gen_wire(rng):
    msgs = [gen_msg(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"msgs": msgs, "split": rng.choice(["one", "all", "random", "random"]), "seed": rng.randrange(1 << 30),
            "cut": rng.choice([None, None, rng.random(), rng.random(), 0.0]), "trail": rng.randrange(0, 4), "drain": rng.random() < 0.5}


def value(m):
    if m["k"] == "int":
        return int(m["v"])
    if m["k"] == "float":
        return float(m["special"]) if m.get("special") else m["v"]
    if m["k"] in ("bytes", "raw"):
        return None if m["v"] is None else bytes.fromhex(m["v"])
    if m["k"] == "array":
        return arr(m["v"])
    return m["v"]


async def write(m, w, drain):
    v = value(m)
    if m["k"] == "int":
        await NU.write_int(v, m["size"], w, drain=drain)
    elif m["k"] == "float":
        await NU.write_float(v, w, drain=drain)
    elif m["k"] == "utf8":
        await NU.write_utf8_string(v, m["size"], w, drain=drain)
    elif m["k"] == "bytes":
        await NU.write_bytes_obj(v, m["size"], w, drain=drain)
    elif m["k"] == "raw":
        w.write(v)
    elif m["k"] == "obj":
        await NU.write_pickeled_object(v, m["size"], w, drain=drain)
    elif m["k"] == "array":
        await NU.write_numpy_array(v, m["ids"], m["size"], w, drain=drain)


async def read(m, r):
    if m["k"] == "int":
        return await NU.read_int(m["size"], r)
    if m["k"] == "float":
        return await NU.read_float(r)
    if m["k"] == "utf8":
        return await NU.read_utf8_string(m["size"], r)
    if m["k"] == "bytes":
        return await NU.read_bytes_obj(m["size"], r)
    if m["k"] == "raw":
        return await NU.read_bytes(len(m["v"]) // 2, r)
    if m["k"] == "obj":
        return await NU.read_pickeled_object(m["size"], r)
    return await NU.read_numpy_array(m["ids"], m["size"], r)


def same(m, got):
    import numpy as np
    want = value(m)
    if want is None or got is None:
        return want is None and got is None
    if m["k"] == "array":
        return isinstance(got, np.ndarray) and got.dtype == want.dtype and got.shape == want.shape and bool((got == want).all())
    if m["k"] == "float":
        return struct.pack(">d", got) == struct.pack(">d", want) or (math.isnan(got) and math.isnan(want))
    if m["k"] in ("bytes", "raw"):
        return bytes(got) == want
    return type(got) is type(want) and got == want


def run_wire(c):
    async def go():
        w = Writer()
        ends = []
        for m in c["msgs"]:
            await write(m, w, c["drain"])
            ends.append(len(w.b))
        data = bytes(w.b)
        trail = bytes(range(c["trail"]))
        total = len(data)
        # the connection ends after `cut` bytes, or stays open with further bytes behind the messages
        cut = None if c["cut"] is None else int(c["cut"] * total)
        feed = data + trail if cut is None else data[:cut]
        rng = random.Random(c["seed"])
        r = asyncio.StreamReader()

        async def feeder():
            i = 0
            while i < len(feed):
                n = len(feed) if c["split"] == "all" else 1 if c["split"] == "one" and len(feed) < 400 else rng.choice([1, 1, 2, 3, 8, 17, 64, 500])
                r.feed_data(feed[i:i + n])
                i += n
                for _ in range(rng.choice([1, 1, 2])):
                    await asyncio.sleep(0)
            if cut is not None or c["trail"] == 0:
                r.feed_eof()
        t = asyncio.ensure_future(feeder())
        for k, m in enumerate(c["msgs"]):
            start = ends[k - 1] if k else 0
            if cut is None or cut >= ends[k]:
                got = await read(m, r)
                check(same(m, got), "wire:value:" + m["k"], lambda: f"read {got!r:.300} instead of {value(m)!r:.300}; {c}")
                continue
            try:
                got = await read(m, r)
            except Exception as e:  # noqa
                check(cut > start, "wire:error before the first byte:" + m["k"], lambda: f"{e!r}; cut {cut}, message from {start}; {c}")
            else:
                check(cut == start, "wire:truncated:" + m["k"], lambda: f"returned {got!r:.300} although the connection ended inside the message (cut {cut}, message {start}..{ends[k]}); {c}")
                check(got is None, "wire:absence:" + m["k"], lambda: f"returned {got!r:.300}; {c}")
            break
        else:
            if cut is None:
                rest = await asyncio.wait_for(r.readexactly(c["trail"]), 2) if c["trail"] else b""
                check(rest == trail, "wire:consumed", lambda: f"{rest!r} left instead of {trail!r}; {c}")
        t.cancel()
    asyncio.run(go())
    return {}


# ------------------------------------------------------------------------------------------------ server and local
def serve(directory, conn):
    die_with_parent()
    if os.environ.get("C13_LOG"):
        fd = os.open(os.environ["C13_LOG"] + str(os.getpid()), os.O_WRONLY | os.O_CREAT)
        os.dup2(fd, 2)
        from loguru import logger
        logger.add(sys.stderr, level="ERROR")
    orig = asyncio.start_server

    async def start(*a, **k):
        s = await orig(*a, **k)
        conn.send(s.sockets[0].getsockname()[1])
        return s
    asyncio.start_server = start
    import logging
    from pathlib import Path
    from mixtera.network.server.server import MixteraServer
    logging.disable(logging.CRITICAL)
    MixteraServer(Path(directory), "127.0.0.1", 0).run()


def die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def zygote(conn, mine):
    """forks servers from a process that has not started any threads"""
    import multiprocessing as mp
    import signal
    mine.close()
    die_with_parent()
    ctx = mp.get_context("fork")
    live = []
    while True:
        try:
            d = conn.recv()
        except EOFError:
            os._exit(0)
        for p in live:
            p.kill()
            p.join()
        live = []
        if d is None:
            conn.send(None)
            continue
        here, there = ctx.Pipe()
        p = ctx.Process(target=serve, args=(d, there))
        p.start()
        live = [p]
        conn.send(here.recv() if here.poll(60) else None)


ZYG = None


def server_for(d):
    global ZYG
    if ZYG is None or ZYG[0] != os.getpid():
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        here, there = ctx.Pipe()
        p = ctx.Process(target=zygote, args=(there, here), daemon=False)
        p.start()
        there.close()
        import atexit
        import multiprocessing.util as mu
        mu.Finalize(None, p.kill, exitpriority=100)
        ZYG = (os.getpid(), here, p)
    ZYG[1].send(d)
    if not ZYG[1].poll(70):
        raise Skip("the server did not start")
    return ZYG[1].recv()


def gen_server(rng):
    ds = [db.rand_dataset(rng, ["language", "license"], maxrows=12) for _ in range(2)]
    ops = [["parser", "A"], ["reg", 0, "A"]]
    for _ in range(rng.choice([3, 5, 7])):
        r = rng.random()
        if r < 0.2:
            ops.append(["reg", rng.randrange(2), rng.choice(["A", "A", "B", "nope"])])
        elif r < 0.3:
            ops.append(["parser", rng.choice(["A", "B"])])
        elif r < 0.4:
            ops.append(["rm", rng.randrange(3)])
        elif r < 0.5:
            ops.append(["list"])
        elif r < 0.6:
            ops.append(["exists", rng.randrange(3)])
        elif r < 0.65:
            ops.append(["file", rng.randrange(2)])
        else:
            ops.append(["query", rng.choice([None, ["language", "==", rng.choice(db.POOL["language"][:4])], ["license", "!=", "MIT"]]),
                        rng.choice(["arbitrary", "inferring"]), rng.choice([1, 3, 10]), rng.choice([[1, 1, 0], [2, 1, 0], [1, 2, 0], [1, 1, 2]]),
                        rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3])
    return {"datasets": ds, "ops": ops}


def canon_meta(x):
    d, p, f = x
    return [sorted((k, v.__name__) for k, v in d.items()), sorted((k, v('{"i": 7}')) for k, v in p.items()), dict(f)]


def norm_path(x, d):
    return json.loads(json.dumps(x).replace(d, "DIR"))


def outcome(fn):
    try:
        return ["ok", fn()]
    except Exception as e:  # noqa
        return ["error", type(e).__name__ + (traceback.format_exc() if os.environ.get("C13_LOG") else "")]


def job(st, o, name, d, server):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.query import Query
    from mixtera.network.client.client_feedback import ClientFeedback
    import numpy as np
    _, cond, kind, size, (g, n, w), chk, tunnel, twice = o
    res = []
    q = Query.for_job(name)
    q.select(None if cond is None else tuple(cond))
    a = QueryExecutionArgs(mixture=Q.mk_mixture({"kind": kind, "chunk": size, "strict": False}), dp_groups=g, nodes_per_group=n, num_workers=w)
    try:
        ok = st.execute_query(q, a)
    except Exception:  # noqa
        ok = False
    ok = ok and st.wait_for_execution(name) if server else ok
    res.append(["executed", ok])
    if not ok:
        return res
    if twice:
        q2 = Query.for_job(name)
        q2.select(None)
        ok = st.execute_query(q2, a)
        ok = ok and st.wait_for_execution(name) if server else ok
        res.append(["executed again", ok])
        if server and not ok:
            pass
    res.append(["meta", norm_path(canon_meta(st._get_result_metadata(name)), d)])
    its = {}
    total = 0
    nworkers = max(w, 1)

    def it(gi, ni, wi):
        if (gi, ni, wi) not in its:
            its[gi, ni, wi] = st._stream_result_chunks(name, gi, ni, wi)
        return its[gi, ni, wi]
    seq = [(gi, ni, wi) for _ in range(2) for gi in range(g) for wi in range(nworkers) for ni in range(n)]
    import c05
    for k, key in enumerate(seq):
        ch = next(it(*key), None)
        res.append(["chunk", list(key), None if ch is None else [ch.mixture_id, c05.canon(ch)]])
        if k == 1:
            fb = ClientFeedback(training_steps=5, mixture_id=0, losses=np.array([1.5, 2.0], dtype=np.float32), counts=np.array([1, 2]))
            res.append(["feedback", st.process_feedback(name, fb), st.process_feedback("unknown job", fb)])
    if chk and (g > 1 or n > 1 or w == 0):       # a local client without a server refuses others
        ids = []
        for gi in range(g):
            for ni in range(n):
                ids.append(outcome(lambda: st.checkpoint(name, gi, ni, [0] * nworkers)))
        oks = [x[0] == "ok" and x[1] is not None for x in ids]
        res.append(["checkpoint", oks, len({x[1] for x, ok in zip(ids, oks) if ok})])
        good = [x[1] for x in ids if x[0] == "ok" and x[1]]
        if good:
            for _ in range(100):
                if st.checkpoint_completed(name, good[-1], True):
                    break
                time.sleep(0.05)
            else:
                res.append(["never completed"])
            st.restore_checkpoint(name, good[-1])
            if server:
                res.append(["restored", st.wait_for_execution(name)])
            else:
                res.append(["restored", True])
            for gi in range(g):
                ch = next(st._stream_result_chunks(name, gi, 0, 0), None)
                res.append(["after", gi, None if ch is None else c05.canon(ch)])
    sa = ResultStreamingArgs(job_id=name, dp_group_id=0, node_id=0, worker_id=0, tunnel_via_server=tunnel and server)
    res.append(["samples", [[int(a), int(b), c] for a, b, c in st.stream_results(sa)]])
    return res


def run_server(c):
    from mixtera.core.client.mixtera_client import MixteraClient
    from mixtera.core.datacollection.datasets.jsonl_dataset import JSONLDataset
    import parsers13
    with db.tmpdir() as d:
        for k, files in enumerate(c["datasets"]):
            db.write_dataset(os.path.join(d, f"data{k}"), files)
        dl, dr = os.path.join(d, "local"), os.path.join(d, "remote")
        os.mkdir(dl)
        os.mkdir(dr)
        try:
            port = server_for(dr)
            if port is None:
                raise Skip("the server did not start")
            loc, rem = MixteraClient.from_directory(dl), MixteraClient.from_remote("127.0.0.1", port)
            n = 0
            for o in c["ops"]:
                out = []
                for st, server in ((loc, False), (rem, True)):
                    if o[0] == "parser":
                        r = outcome(lambda: bool(st.register_metadata_parser(o[1], getattr(parsers13, "Parser" + o[1]))))
                    elif o[0] == "reg":
                        r = outcome(lambda: bool(st.register_dataset(f"d{o[1]}", os.path.join(d, f"data{o[1]}"), JSONLDataset, parsers13.text, o[2])))
                        if r[0] == "error" and not server:       # the server reports failures as False
                            r = ["ok", False]
                    elif o[0] == "rm":
                        r = outcome(lambda: st.remove_dataset(f"d{o[1]}"))
                    elif o[0] == "list":
                        r = outcome(lambda: sorted(st.list_datasets()))
                    elif o[0] == "exists":
                        r = outcome(lambda: st.check_dataset_exists(f"d{o[1]}"))
                    elif o[0] == "file":
                        path = os.path.join(d, f"data{o[1]}", "f0.jsonl")
                        text = open(path, encoding="utf-8").read()
                        r = ["ok", text if not server else "\n".join(st.server_connection.get_file_iterable(path))]
                    else:
                        n += not server
                        r = outcome(lambda: job(st, o, f"job{n}", d, server)) if os.environ.get("C13_SAFE") else ["ok", job(st, o, f"job{n}", d, server)]
                    out.append(r)
                check(out[0] == out[1], f"server:{o[0]}", lambda: f"{o}: {diff(out[0], out[1])}; {c}")
        finally:
            try:
                server_for(None)
                loc._mdc._connection.close()
            except Exception:  # noqa
                pass
    return {"nontrivial": n > 0}


def diff(a, b):
    if a[0] == b[0] == "ok" and isinstance(a[1], list) and isinstance(b[1], list):
        for x, y in zip(a[1], b[1]):
            if x != y:
                return f"local {x!r:.500}, server {y!r:.500}"
    return f"local {a!r:.500}, server {b!r:.500}"


GROUPS = [Group("wire", gen_wire, run_wire, timeout=30, weight=1.0), Group("server", gen_server, run_server, timeout=120, weight=1.5)]
if __name__ == "__main__":
    main("C13", GROUPS, setup, "wire: random messages in random splits, some with the connection ending at a random byte or with further bytes behind; server: random operations through a real server on the loopback interface and through a local client; all cases count")
