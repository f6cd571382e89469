"""C20: the training client sees every sample once and reports true progress."""
import copy
import itertools
import multiprocessing as mp
import os
import shutil
import tempfile
import time

from common import Group, Violation, check, main
import gen
import qr as Q

COUNT = itertools.count()


def setup():
    from rt import realenv
    realenv.activate()
    import torch
    torch.set_num_threads(1)
    import mixtera.torch  # noqa
    import mixtera.utils.checkpoint  # noqa
    import mixtera.utils.feedback  # noqa


# ------------------------------------------------------------------------------------------------ prefetch
ITEMS = ["a", "b", None, 0, "", False, "END_OF_STREAM", [1], [], {"x": None}]


class Boom(Exception):
    pass


def gen_pre(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    return {"items": [rng.choice(ITEMS) for _ in range(n)], "fail": rng.choice([None] * 4 + list(range(n + 1))), "delay": rng.choice([0, 0, 0, 0.001, 0.004]), "wait": rng.choice([0, 0, 0.003]),
            "kind": rng.choice(["list", "gen", "gen", "iter"]), "over": rng.randrange(0, 3), "err": rng.choice(["boom", "runtime", "key"])}


def run_pre(c):
    from mixtera.utils import PrefetchFirstItemIterator
    err = {"boom": Boom, "runtime": RuntimeError, "key": KeyError}[c["err"]]
    def g():
        for i, x in enumerate(c["items"]):
            if c["delay"]:
                time.sleep(c["delay"])
            if c["fail"] == i:
                raise err("x")
            yield x
        if c["fail"] == len(c["items"]):
            raise err("x")

    class It:
        def __init__(self):
            self.g = g()

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.g)
    items = c["items"]
    if c["kind"] == "list":
        it, fail = iter(items), None
    else:
        it, fail = (g() if c["kind"] == "gen" else It()), c["fail"]
    p = PrefetchFirstItemIterator(it)
    if c["wait"]:
        time.sleep(c["wait"])
    got, end = [], None
    while True:
        try:
            got.append(next(p))
        except StopIteration:
            end = "stop"
            break
        except err:
            end = "error"
            break
    want = items if fail is None else items[:fail]
    check(len(got) == len(want) and all(a is b or a == b and type(a) is type(b) for a, b in zip(got, want)), "prefetch:items", lambda: f"{got} instead of {want}: {c}")
    check(end == ("stop" if fail is None else "error"), "prefetch:end", lambda: f"{end}: {c}")
    for _ in range(c["over"]):
        try:
            x = next(p)
        except StopIteration:
            continue
        raise Violation("prefetch:item after the end", f"{x!r}: {c}")
    return {"nontrivial": len(items) > 1}


# ------------------------------------------------------------------------------------------------ data set
class FakeChunk:
    def __init__(self, spec, mid, log=None):
        self.spec, self.mixture_id, self.conf, self.log = spec, mid, None, log

    def configure_result_streaming(self, client, args):
        self.conf = args

    def __iter__(self):
        assert self.conf is not None
        for x in self.spec:
            yield tuple(x)


def mk_client(chunks, job):
    """chunks: {worker: list of chunk makers}"""
    from mixtera.core.client.mixtera_client import MixteraClient

    class Client(MixteraClient):
        def __new__(cls, *a):
            return object.__new__(cls)

        def __init__(self):
            super().__init__()
            self.calls = []
            self.ok = True
            self.fb = True

        def _stream_result_chunks(self, job_id, dp_group_id, node_id, worker_id):
            assert job_id == job
            for ch in chunks.get((dp_group_id, node_id, worker_id), []):
                yield ch()

        def execute_query(self, query, args):
            self.calls.append(("execute", query.job_id))
            return self.ok

        def wait_for_execution(self, job_id):
            self.calls.append(("wait", job_id))
            return True

        def restore_checkpoint(self, job_id, cid):
            self.calls.append(("restore", job_id, cid))

        def checkpoint(self, job_id, dp, node, status, server=False):
            self.calls.append(("checkpoint", job_id, dp, node, list(status) if status is not None else None))
            return "chk7"

        def checkpoint_completed(self, job_id, cid, on_disk):
            self.calls.append(("completed", job_id, cid, on_disk))
            return sum(x[0] == "completed" for x in self.calls) >= 2

        def process_feedback(self, job_id, feedback):
            self.calls.append(("feedback", job_id, feedback))
            return self.fb
    for n in list(Client.__abstractmethods__):
        setattr(Client, n, lambda self, *a, **k: (_ for _ in ()).throw(AssertionError("not available")))
    Client.__abstractmethods__ = frozenset()
    return Client()


class Job:
    def __init__(self, job):
        self.job_id = job


def mk_ds(client, job, c, dp=0, node=0, ckpt=None, **kw):
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.query.mixture import ArbitraryMixture
    from mixtera.torch import MixteraTorchDataset
    q = QueryExecutionArgs(mixture=ArbitraryMixture(4), dp_groups=c.get("dps", 1), nodes_per_group=c.get("nodes", 1), num_workers=c["workers"])
    r = ResultStreamingArgs(job, dp_group_id=dp, node_id=node, **kw)
    return MixteraTorchDataset(client, Job(job), q, r, checkpoint_path=ckpt, return_key_id=c.get("kid", False))


def gen_stream(rng):
    w = rng.choice([0, 0, 0, 0, 1, 2, 3])
    dps, nodes = rng.choice([(1, 1), (1, 1), (2, 1), (2, 2), (3, 2)])
    per = {}
    for wk in range(max(w, 1)):
        mid, chs = -1, []
        for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
            mid = mid + rng.choice([0, 1, 1, 3]) if mid >= 0 else rng.randrange(0, 4)
            skip = rng.choice([0, 0, 0, 1, 5]) if i == 0 else 0
            n = rng.choice([0, 1, 1, 2, 3, 7, 20])
            chs.append([mid, [[skip + j, rng.randrange(0, 4), f"w{wk}c{i}s{skip + j}" if rng.random() < 0.9 else rng.choice(["", "END_OF_STREAM", "None"])] for j in range(n)]])
        per[str(wk)] = chs
    return {"workers": w, "dps": dps, "nodes": nodes, "dp": rng.randrange(dps), "node": rng.randrange(nodes), "kid": rng.random() < 0.5, "chunks": per, "restore": rng.random() < 0.25,
            "refuse": rng.random() < 0.05, "break": rng.choice([None, None, None, 1, 3])}


def cleanup_ds(ds):
    import mixtera.torch.mixtera_torch_dataset as M
    for s in (ds._status_shm, ds._comp_shm):
        if s is not None:
            try:
                s.close()
            except Exception:  # noqa
                pass
            try:
                s.unlink()
            except Exception:  # noqa
                pass
    ds._status_shm = ds._comp_shm = None
    for n in (ds.status_shm_name, ds.comp_shm_name):
        M._shared_memory_names.discard(n)


def run_stream(c):
    import torch
    from torch.utils.data import DataLoader, IterableDataset, get_worker_info
    mp.current_process().name = "MainProcess"
    job = f"v{os.getpid()}x{next(COUNT)}"
    dp, node = c["dp"], c["node"]
    specs = {(dp, node, int(w)): [(lambda s=s: FakeChunk(s[1], s[0])) for s in chs] for w, chs in c["chunks"].items()}
    other = {(d, n, w): [lambda: FakeChunk([[0, 0, "other"]], 9)] for d in range(c["dps"]) for n in range(c["nodes"]) for w in range(max(1, c["workers"])) if (d, n) != (dp, node)}
    client = mk_client({**other, **specs}, job)
    d = tempfile.mkdtemp()
    ds = None
    try:
        from pathlib import Path
        ck = None
        if c["restore"]:
            ck = Path(d)
            (ck / "mixtera.id").write_text("chk7\n")
        if c["refuse"] and not ck and dp == node == 0:
            client.ok = False
            try:
                ds = mk_ds(client, job, c, dp, node, ck)
            except RuntimeError:
                import mixtera.torch.mixtera_torch_dataset as M
                from multiprocessing import shared_memory
                for n in [n for n in M._shared_memory_names if n.endswith(job)]:
                    s = shared_memory.SharedMemory(name=n)
                    s.close()
                    s.unlink()
                    M._shared_memory_names.discard(n)
                return {"nontrivial": False}
            raise Violation("stream:failed query accepted", f"{c}")
        ds = mk_ds(client, job, c, dp, node, ck)
        first = [x[0] for x in client.calls]
        exp = ([("restore" if ck else "execute")] if dp == node == 0 else []) + ["wait"]
        check(first == exp, "stream:calls at construction", lambda: f"{client.calls} instead of {exp}: {c}")
        if ck and dp == node == 0:
            check(client.calls[0] == ("restore", job, "chk7"), "stream:restored checkpoint", lambda: f"{client.calls[0]}")
        W = max(1, c["workers"])
        want = {w: [(mid, i, k, s) for mid, ss in c["chunks"].get(str(w), []) for i, k, s in ss] for w in range(W)}
        tot = 0

        class Probe(IterableDataset):
            """reports, inside the worker, the status right after each sample"""

            def __init__(self, inner):
                self.inner = inner

            def __iter__(self):
                wi = get_worker_info()
                w = 0 if wi is None else wi.id
                for x in self.inner:
                    st = self.inner.worker_status
                    yield (w, x, st[w] if st is not None else None, self.inner._client.current_mixture_id)
        if c["workers"] == 0 and c["break"] is None:
            check(ds.worker_status == [0], "stream:status before the start", lambda: f"{ds.worker_status}")
        it = iter(DataLoader(Probe(ds), batch_size=None, num_workers=c["workers"], multiprocessing_context="fork" if c["workers"] else None, timeout=30 if c["workers"] else 0))
        seen = {w: 0 for w in range(W)}
        last = [0] * W
        lo = -1
        for w, x, st, mid in it:
            k = seen[w]
            check(k < len(want[w]), "stream:additional sample", lambda: f"worker {w}: {x!r} after all {k} samples: {c}")
            m, i, kid, s = want[w][k]
            e = (kid, s) if c["kid"] else s
            x = tuple(x) if isinstance(x, (list, tuple)) else x
            check(x == e and type(x) is type(e), "stream:sample", lambda: f"worker {w}, sample {k}: {x!r} instead of {e!r}: {c}")
            check(st == i, "stream:status", lambda: f"worker {w} reports position {st} at its sample {i}: {c}")
            if W == 1:
                lo = max(lo, m)
                check(mid == lo, "stream:mixture id", lambda: f"{mid} while reading mixture {lo}: {c}")
                if c["workers"] == 0:
                    check(ds.worker_status == [i], "stream:status", lambda: f"{ds.worker_status}, {i}")
                    check(client.current_mixture_id == lo, "stream:mixture id", lambda: f"{client.current_mixture_id}, {lo}")
            else:
                check(mid is None or 0 <= mid <= max([m for ch in c["chunks"].values() for m, _ in ch]), "stream:mixture id", lambda: f"{mid}: {c}")
            seen[w] += 1
            tot += 1
            last[w] = i
            if c["break"] is not None and tot == c["break"] and c["workers"] == 0:
                got = ds.worker_status
                check(got == last, "stream:status", lambda: f"{got} {last}: {c}")
                from mixtera.utils.checkpoint import handle_mixtera_checkpoint
                handle_mixtera_checkpoint(ds, d, dp, node, False)
                r = [x for x in client.calls if x[0] == "checkpoint"]
                check(r == [("checkpoint", job, dp, node, last)], "stream:checkpointed status", lambda: f"{r}: {last}: {c}")
                idf = os.path.join(d, "mixtera.id")
                if dp == node == 0:
                    check(open(idf).read().strip() == "chk7", "stream:checkpoint id", "")
                elif not ck:
                    check(not os.path.exists(idf), "stream:checkpoint id", "written by another node")
                check(client.calls[-1] == ("completed", job, "chk7", False), "stream:checkpoint completion", lambda: f"{client.calls[-1]}")
                return {"nontrivial": True}
        for w in range(W):
            check(seen[w] == len(want[w]), "stream:missing samples", lambda: f"worker {w}: {seen[w]} of {len(want[w])}: {c}")
        if c["workers"] == 0:
            check(client.current_mixture_id is None, "stream:mixture id after the end", lambda: f"{client.current_mixture_id}")
        del it
        return {"nontrivial": tot > 1}
    finally:
        if ds is not None:
            cleanup_ds(ds)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ real chunks
def gen_real(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([10, 40]))
    return {"index": ix, "mix": Q.rand_mixture(rng, ix), "workers": 0, "skip": rng.choice([0, 0, 1, 2, 5]), "mode": rng.choice(["simple", "window"]), "win": rng.choice([1, 2, 5, 8]), "pre": rng.random() < 0.5, "n": rng.choice([1, 2, 4])}


def run_real(c):
    mp.current_process().name = "MainProcess"
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["mix"]), meta=Q.fake_meta(c["index"]))
    chs = []
    for ch in qr:
        chs.append(ch)
        if len(chs) >= c["n"]:
            break
    if not chs:
        return {"nontrivial": False}
    args = {"chunk_reading_mixture_type": c["mode"], "chunk_reading_window_size": c["win"]}
    want = []
    for i, ch in enumerate(chs):
        x = copy.copy(ch)
        x.configure_result_streaming(None, Q.stream_args(chunk_reading_prefetch_first_sample=False, **args))
        seq = [(k, s) for _, k, s in x]
        sk = c["skip"] if i == 0 else 0
        want += [(j, k, s) for j, (k, s) in enumerate(seq) if j >= sk]
    chs[0]._samples_to_skip = c["skip"]
    job = f"v{os.getpid()}x{next(COUNT)}"
    client = mk_client({(0, 0, 0): [(lambda ch=ch: ch) for ch in chs]}, job)
    ds = mk_ds(client, job, {"workers": 0, "kid": True}, chunk_reading_prefetch_first_sample=c["pre"], **args)
    try:
        got = []
        for x in ds:
            got.append((ds.worker_status[0], *x))
        check(got == want, "real:samples and positions", lambda: f"{got[:30]} instead of {want[:30]}: {c}")
        return {"nontrivial": len(want) > 1}
    finally:
        cleanup_ds(ds)


# ------------------------------------------------------------------------------------------------ feedback
def gen_fb(rng):
    n = rng.choice([1, 2, 4])
    return {"workers": 0, "via": rng.choice(["ds", "dl", "gen", "attr", "none"]), "dp": rng.choice([0, 0, 0, 1, 2]), "tp": rng.choice([0, 0, 0, 1, 3]), "steps": rng.choice([0, 1, 17, 10 ** 7, -1]),
            "kind": rng.choice(["none", "list", "np", "torch", "tuple"]), "losses": [rng.randrange(0, 100) / 4 for _ in range(n)], "counts": [rng.randrange(0, 100) for _ in range(n)], "mid": rng.choice([0, 1, 5, 300]),
            "ack": rng.random() < 0.8, "times": rng.choice([1, 1, 2])}


def run_fb(c):
    import numpy as np
    import torch
    from torch.utils.data import DataLoader
    from mixtera.utils.feedback import handle_mixtera_feedback
    mp.current_process().name = "MainProcess"
    job = f"v{os.getpid()}x{next(COUNT)}"
    client = mk_client({(0, 0, 0): [lambda: FakeChunk([[0, 0, "a"], [1, 0, "b"]], c["mid"])]}, job)
    client.fb = c["ack"]
    ds = mk_ds(client, job, {"workers": 0})
    try:
        it = iter(ds)
        next(it)
        client.calls.clear()

        def g(dataloader):
            while True:
                yield 1

        class Holder:
            pass
        h = Holder()
        h.inner = Holder()
        h.inner.thing = ds
        gg = g(DataLoader(ds, batch_size=None))
        next(gg)
        obj = {"ds": ds, "dl": DataLoader(ds, batch_size=None), "gen": gg, "attr": h, "none": Holder()}[c["via"]]
        conv = {"none": lambda x, t: None, "list": lambda x, t: x, "tuple": lambda x, t: tuple(x), "np": lambda x, t: np.array(x, dtype=t), "torch": lambda x, t: torch.tensor(x)}[c["kind"]]
        if c["steps"] < 0:
            try:
                handle_mixtera_feedback(obj, c["steps"], None, None, 0, 0)
            except (AssertionError, ValueError):
                check(not client.calls, "feedback:invalid steps sent", lambda: f"{client.calls}")
                return {"nontrivial": False}
            raise Violation("feedback:invalid steps accepted", f"{c}")
        for t in range(c["times"]):
            client.calls.clear()
            handle_mixtera_feedback(obj, c["steps"] + t, conv(c["losses"], np.float32), conv(c["counts"], np.int64), c["dp"], c["tp"])
            send = c["dp"] == 0 and c["tp"] == 0 and c["via"] != "none"
            check(len(client.calls) == (1 if send else 0), "feedback:number of messages", lambda: f"{client.calls}: {c}")
            if send:
                k, j, fb = client.calls[0]
                check(k == "feedback" and j == job and fb.training_steps == c["steps"] + t and fb.mixture_id == c["mid"], "feedback:content", lambda: f"{client.calls}: {c}")
                for a, e in ((fb.losses, c["losses"]), (fb.counts, c["counts"])):
                    if c["kind"] == "none":
                        check(a is None, "feedback:content", lambda: f"{fb}: {c}")
                    else:
                        check(isinstance(a, np.ndarray) and a.tolist() == e, "feedback:content", lambda: f"{fb}: {c}")
        it.close()
        return {"nontrivial": True}
    finally:
        cleanup_ds(ds)


GROUPS = [Group("prefetch", gen_pre, run_pre, timeout=15, weight=0.5), Group("stream", gen_stream, run_stream, timeout=60, weight=2), Group("real", gen_real, run_real, timeout=30), Group("feedback", gen_fb, run_fb, timeout=15, weight=0.5)]
if __name__ == "__main__":
    main("C20", GROUPS, setup, "random chunk lists through the torch dataset with 0 to 3 data loader processes, real chunks, prefetched iterators, feedback from every rank; non-trivial: at least two samples or one feedback")
