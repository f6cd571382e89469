"""C05: restoring a checkpoint continues exactly where training stopped."""
import os
import shutil
import tempfile
import time

from common import Group, Skip, Violation, check, main
import gen
import qr as Q

STUB = {}


def setup():
    os.environ["PYTEST_CURRENT_TEST"] = "1"   # the index is (de)serialised without worker processes
    from rt import realenv
    realenv.activate()


def stub():
    """one local stub per process, in a scratch directory"""
    if STUB.get("pid") != os.getpid():
        from mixtera.core.client.local.local_stub import LocalStub
        d = tempfile.mkdtemp(prefix="c05-")
        STUB.update(pid=os.getpid(), dir=d, stub=LocalStub(d), n=0)
    STUB["n"] += 1
    return STUB["stub"]


class FQ:
    """a query whose result has the given index"""

    def __init__(self, job, text, spec):
        self.job_id, self.text, self.spec, self.results = job, text, spec, None

    def __str__(self):
        return self.text

    def execute(self, mdc, mixture, log_dir=None):
        self.results = Q.real_qr(Q.build_index(self.spec), mixture, meta=Q.fake_meta(self.spec), log_dir=log_dir)


def mk(spec):
    if spec["kind"] == "schedule":
        from mixtera.core.query.mixture import MixtureSchedule
        from mixtera.core.query.mixture.mixture_schedule import ScheduleEntry
        return MixtureSchedule(spec["chunk"], [ScheduleEntry(s, mk(m)) for s, m in spec["entries"]])
    if spec["kind"] == "dynamic":
        from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
        from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
        return DynamicMixture(spec["chunk"], mk(spec["init"]), SimpleAveragingAlgorithm(), strict=spec["strict"])
    return Q.mk_mixture(spec)


def rand_mix(rng, ix, initial):
    r = rng.random()
    if r < 0.25:
        ch = rng.choice([1, 2, 3, 5, 8])
        return {"kind": "schedule", "chunk": ch, "entries": [[s, Q.rand_mixture(rng, ix, chunk=ch, kinds=("static",))] for s in sorted(rng.sample(range(0, 9), rng.randrange(1, 4)))]}
    if r < 0.5 and initial:
        ch = rng.choice([2, 3, 5, 8])
        return {"kind": "dynamic", "chunk": ch, "init": Q.rand_mixture(rng, ix, chunk=ch, kinds=("static", "inferring")), "strict": rng.random() < 0.4}
    return Q.rand_mixture(rng, ix, chunk=rng.choice([1, 2, 3, 5, 8]))


def rand_ops(rng, n, dp, nodes, w, nmix, fb):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.08 and nmix:
            ops.append(["mix", rng.randrange(nmix)])
        elif r < 0.25 and fb:
            ops.append(["fb", rng.randrange(0, 10), [round(rng.random() * 5, 2) if rng.random() < 0.8 else 0.0 for _ in range(6)], [rng.randrange(0, 4) for _ in range(6)]])
        else:
            ops += [["ask", rng.randrange(dp), rng.randrange(nodes), rng.randrange(w)]] * rng.choice([1, 1, 1, 2])
    return ops


def gen_resume(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([40, 120]))
    dp, nodes, w = rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 2, 2, 3]), rng.choice([0, 1, 1, 2, 3])
    wn = max(w, 1)
    first = rand_mix(rng, ix, True)
    mixes = [first] + ([rand_mix(rng, ix, False) for _ in range(2)] if first["kind"] != "dynamic" and rng.random() < 0.4 else [])
    fb = any(m["kind"] in ("schedule", "dynamic") for m in mixes)
    nseg = rng.choice([2, 2, 3])
    segs = [rand_ops(rng, rng.choice([0, 3, 8, 15]) if i else rng.choice([1, 4, 8, 20]), dp, nodes, wn, len(mixes) if len(mixes) > 1 else 0, fb) for i in range(nseg)]
    return {"index": ix, "mixes": mixes, "dp": dp, "nodes": nodes, "workers": w, "segs": segs,
            "mid": rand_ops(rng, rng.choice([0, 4]), dp, nodes, wn, 0, fb),
            "status": [rng.randrange(0, 9) for _ in range(dp * nodes * wn * (nseg - 1))],
            "cachedby": rng.choice([None, None, "other"]), "cache": rng.choice(["on", "on", "on", "off", "lost"]), "index2": Q.rand_index(rng, maxrows=20), "restart": rng.random() < 0.5, "deser": rng.random() < 0.3, "server": rng.random() < 0.7,
            "reask": rng.random() < 0.7}


def norm_mix(m):
    return None if m is None else sorted((gen.kid(k), v) for k, v in m.items())


def canon(ch):
    ix = ch._result_index
    return {"samples": sorted((k, sorted(v)) for k, v in Q.samples_of(ix).items()), "mixture": norm_mix(ch._mixture),
            "ids": sorted((gen.kid(k), ch._key_id_map[k]) for k in ix), "mixture_id": ch.mixture_id, "strict": ch._strict_mixture}


def load(x):
    import dill
    return dill.loads(x) if isinstance(x, bytes) else x


class Run:
    """drives one job of the real stub"""

    def __init__(self, c, job):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs
        self.c, self.job, self.st = c, job, stub()
        self.w = max(c["workers"], 1)
        q = FQ(job, "query " + job.rsplit("#", 1)[0], c["index"])
        args = QueryExecutionArgs(mixture=mk(c["mixes"][0]), dp_groups=c["dp"], nodes_per_group=c["nodes"], num_workers=c["workers"])
        check(self.st.execute_query(q, args), "setup:execute", "execute_query refused a new job")

    def cd(self):
        return self.st._get_query_chunk_distributor(self.job)

    def ask(self, d, n, w):
        try:
            ch = self.cd().next_chunk_for(d, n, w, self.c["deser"])
        except StopIteration:
            return None
        return load(ch)

    def op(self, o):
        if o[0] == "ask":
            ch = self.ask(*o[1:])
            return None if ch is None else canon(ch)
        if o[0] == "mix":
            self.st._get_query_result(self.job).update_mixture(mk(self.c["mixes"][o[1]]))
            return "-"
        import numpy as np
        from mixtera.network.client.client_feedback import ClientFeedback
        ids = self.st._get_query_result(self.job)._key_id_map
        n = min(len(ids), 6)
        self.st.process_feedback(self.job, ClientFeedback(training_steps=o[1], losses=np.array(o[2][:n], dtype=np.float32), counts=np.array(o[3][:n], dtype=np.int64), mixture_id=0))
        return "-"

    def ops(self, ops):
        return [self.op(o) for o in ops]

    def drop(self):
        self.st._training_query_map.pop(self.job, None)


def counts(ops, res):
    n = {}
    for o, r in zip(ops, res):
        if o[0] == "ask" and r is not None:
            n[tuple(o[1:])] = n.get(tuple(o[1:]), 0) + 1
    return n


def catch_up(c, ops, res):
    n = counts(ops, res)
    out = []
    for d in range(c["dp"]):
        for w in range(max(c["workers"], 1)):
            m = max(n.get((d, k, w), 0) for k in range(c["nodes"]))
            for k in range(c["nodes"]):
                out += [["ask", d, k, w]] * (m - n.get((d, k, w), 0))
    return out


def reference(c, ops, job):
    r = Run(c, job)
    try:
        return r.ops(ops)
    finally:
        r.drop()


def wait_done(st, job, cid):
    t0 = time.time()
    while not st.checkpoint_completed(job, cid, True):
        if time.time() - t0 > 20:
            raise Violation("ckpt:never completes", f"{cid}")
        time.sleep(0.003)


def take(run, statuses, server):
    cid = None
    c = run.c
    order = [(d, n) for d in range(c["dp"]) for n in range(c["nodes"])]
    for d, n in order:
        cid = run.st.checkpoint(run.job, d, n, list(statuses[(d, n)]), server=server)
    return cid


def describe(c):
    return {k: c[k] for k in ("dp", "nodes", "workers", "segs", "mixes")}


def run_resume(c):
    server = c["server"] or (c["dp"] == 1 and c["nodes"] == 1 and c["workers"] > 0)
    base = f"j{os.getpid()}x{stub() and STUB['n']}"
    wn = max(c["workers"], 1)
    if c["cachedby"]:   # the query has been cached by another job with another mixture
        o = Run(dict(c, mixes=[{"kind": "arbitrary", "chunk": 7}]), base + "#cache")
        o.op(["ask", 0, 0, 0])
        o.drop()
    cache = getattr(stub(), "_query_cache", None)
    if c.get("cache") == "off" and hasattr(cache, "enabled"):
        cache.enabled = False
    try:
        run = Run(c, base + "#job")
    finally:
        if hasattr(cache, "enabled"):
            cache.enabled = True
    if c.get("cache") == "lost" and hasattr(run.st._mdc, "_db_incr_version"):
        # the data changes and another job runs (and caches) the same query, now with another result
        run.st._mdc._db_incr_version()
        o = Run(dict(c, index=c["index2"], mixes=[{"kind": "arbitrary", "chunk": 7}]), base + "#later")
        o.drop()
    restored_once = False
    hist, last_chunks = [], {}
    pending = {}
    sts = list(c["status"])
    failed_before_ckpt = False
    nontrivial = False
    try:
        for si, seg in enumerate(c["segs"]):
            ref = reference(c, hist + seg, base + f"r#{si}")
            seg = seg + catch_up(c, hist + seg, ref)
            ref = reference(c, hist + seg, base + f"r#{si}")
            want = ref[len(hist):]
            for i, o in enumerate(seg):
                if o[0] == "ask":
                    k = tuple(o[1:])
                    if k in pending:
                        exp, skip = pending.pop(k)
                        ch = run.ask(*k)
                        check(ch is not None, "resume:no current chunk", lambda: f"{k} after a restore; {describe(c)}")
                        check(canon(ch) == exp, "resume:wrong current chunk", lambda: f"{k}: got {canon(ch)}, was reading {exp}; {describe(c)}")
                        check(ch._samples_to_skip == skip, "resume:skip", lambda: f"{k}: {ch._samples_to_skip}, reported {skip}; {describe(c)}")
                got = run.op(o)
                if got != want[i]:
                    sig = "resume:after failed attempt" if failed_before_ckpt and restored_once else ("resume:diverges" if restored_once else "ckpt:cached query differs" if c["cachedby"] else "ckpt:not reproducible")
                    raise Violation(sig, f"segment {si} op {i} {o}: got {got}, uninterrupted run {want[i]}; {describe(c)}")
                if o[0] == "ask" and got is not None:
                    last_chunks[tuple(o[1:])] = got
            hist = hist + seg
            if si == len(c["segs"]) - 1:
                break
            if c["reask"]:
                for k in list(pending):
                    exp, skip = pending.pop(k)
                    ch = run.ask(*k)
                    check(ch is not None and canon(ch) == exp and ch._samples_to_skip == skip, "resume:wrong current chunk", lambda: f"{k}; {describe(c)}")
            else:  # all nodes of a group, or none, have asked for the chunk again
                for d, n, w in list(pending):
                    if any((d, m, w) not in pending for m in range(c["nodes"])):
                        exp, skip = pending.pop((d, n, w))
                        ch = run.ask(d, n, w)
                        check(ch is not None and canon(ch) == exp and ch._samples_to_skip == skip, "resume:wrong current chunk", lambda: f"{(d, n, w)}; {describe(c)}")
            failed_before_ckpt = failed_before_ckpt or any(o[0] == "ask" and r is None for o, r in zip(hist, ref))
            st = {(d, n): [sts.pop() if sts else 0 for _ in range(wn)] for d in range(c["dp"]) for n in range(c["nodes"])}
            for (d, n), l in st.items():
                for w in range(wn):
                    if (d, n, w) not in last_chunks or (d, n, w) in pending:
                        l[w] = 0
            old_pending = dict(pending)
            cid = take(run, st, server)
            if c["mid"]:   # the running job is not disturbed
                run2 = reference(c, hist + c["mid"], base + f"m#{si}")[len(hist):]
                if not pending:
                    got = run.ops(c["mid"])
                    check(got == run2 or failed_before_ckpt, "ckpt:disturbs the job", lambda: f"{got} vs {run2}; {describe(c)}")
            wait_done(run.st, run.job, cid)
            if c["restart"]:
                run.drop()
            try:
                run.st.restore_checkpoint(run.job, cid)
            except Exception as e:  # noqa
                if failed_before_ckpt:
                    raise Violation("resume:after failed attempt", f"restoring raised {e!r}; {describe(c)}") from e
                raise
            restored_once = True
            pending = {}
            for k, ch in last_chunks.items():
                if k in old_pending:
                    pending[k] = old_pending[k]
                else:
                    pending[k] = (ch, max(st[(k[0], n)][k[2]] for n in range(c["nodes"])))
            nontrivial = nontrivial or bool(last_chunks)
        return {"nontrivial": nontrivial}
    finally:
        run.drop()
        for d in ("checkpoints", "mixture_logs", "querycache"):
            p = os.path.join(STUB["dir"], d)
            for e in os.listdir(p):
                shutil.rmtree(os.path.join(p, e), ignore_errors=True)


def gen_refuse(rng):
    ix = Q.rand_index(rng, maxrows=100)
    dp, nodes, w = rng.choice([1, 2]), rng.choice([2, 2, 3]), rng.choice([0, 1, 2])
    wn = max(w, 1)
    ops = rand_ops(rng, rng.choice([1, 3, 8]), dp, nodes, wn, 0, False)
    return {"index": ix, "mixes": [{"kind": "arbitrary", "chunk": rng.choice([1, 2, 3])}], "dp": dp, "nodes": nodes, "workers": w, "ops": ops,
            "deser": False, "again": rng.random() < 0.5, "early": rng.random() < 0.5}


def run_refuse(c):
    base = f"j{os.getpid()}x{stub() and STUB['n']}"
    wn = max(c["workers"], 1)
    run = Run(c, base + "#job")
    ckdir = os.path.join(STUB["dir"], "checkpoints", run.job)

    def taken():
        return os.path.isdir(ckdir) and [x for x in os.listdir(ckdir) if x.startswith("chkpnt")]
    try:
        res = run.ops(c["ops"])
        n = counts(c["ops"], res)
        aligned = all(len({n.get((d, k, w), 0) for k in range(c["nodes"])}) == 1 for d in range(c["dp"]) for w in range(wn))
        order = [(d, k) for d in range(c["dp"]) for k in range(c["nodes"])]
        cid = None
        for d, k in order[:-1]:
            cid = run.st.checkpoint(run.job, d, k, [0] * wn, server=True)
            if c["again"]:
                try:
                    run.st.checkpoint(run.job, d, k, [0] * wn, server=True)
                except RuntimeError:
                    pass
                else:
                    raise Violation("refuse:reported twice", f"{(d, k)}; {c}")
            if c["early"]:
                for disk in (False, True):
                    check(run.st.checkpoint_completed(run.job, cid, disk) is False, "refuse:completed early", f"{c}")
        time.sleep(0.02)
        check(not taken(), "refuse:taken before all reported", f"{c}")
        d, k = order[-1]
        if aligned:
            cid = run.st.checkpoint(run.job, d, k, [0] * wn, server=True)
        else:
            try:
                cid = run.st.checkpoint(run.job, d, k, [0] * wn, server=True)
            except RuntimeError:
                pass
            else:
                raise Violation("refuse:misaligned accepted", f"received {n}; {c}")
            check(not taken(), "refuse:written though refused", f"{c}")
            up = catch_up(c, c["ops"], res)
            r2 = run.ops(up)
            check(None not in r2, "refuse:catch up", f"{c}")
            for d, k in order:
                cid = run.st.checkpoint(run.job, d, k, [0] * wn, server=True)
        wait_done(run.st, run.job, cid)
        check(taken() == [cid], "refuse:not written", lambda: f"{taken()} {cid}; {c}")
        run.drop()
        run.st.restore_checkpoint(run.job, cid)
        return {"nontrivial": not aligned}
    finally:
        run.drop()
        for d in ("checkpoints", "mixture_logs", "querycache"):
            p = os.path.join(STUB["dir"], d)
            for e in os.listdir(p):
                shutil.rmtree(os.path.join(p, e), ignore_errors=True)


GROUPS = [Group("resume", gen_resume, run_resume, weight=4, timeout=60), Group("refuse", gen_refuse, run_refuse, timeout=60)]
if __name__ == "__main__":
    main("C05", GROUPS, setup, "random data, mixtures (static, arbitrary, inferred, scheduled, dynamic), groups/nodes/workers, request and feedback histories with 1-2 checkpoint/restore points; non-trivial: a chunk was being read at the checkpoint (or nodes were misaligned)")
