"""C06: component identifiers are unique and never change."""
import os
import pickle
import shutil
import tempfile

from common import Group, Skip, Violation, check, main
import c05
import gen
import qr as Q

setup = c05.setup


def idmap(m):
    return {gen.kid(k): v for k, v in m.items()}


class Ids:
    """everything ever seen about identifiers in one job"""

    def __init__(self):
        self.ids = {}

    def see(self, m, c, where):
        items = [(gen.kid(k), v) for k, v in m.items()]
        mm = dict(items)
        check(len(items) == len(mm), "ids:one component twice", lambda: f"{where}: {items}; {c}")
        for k, v in items:
            check(isinstance(v, int) and v >= 0, "ids:not a non-negative integer", lambda: f"{where}: {k} -> {v!r}; {c}")
        check(len(set(mm.values())) == len(mm), "ids:shared", lambda: f"{where}: {mm}; {c}")
        for k, v in mm.items():
            check(self.ids.setdefault(k, v) == v, "ids:changed", lambda: f"{where}: {k} was {self.ids[k]}, is {v}; {c}")
        inv = {}
        for k, v in self.ids.items():
            check(inv.setdefault(v, k) == k, "ids:shared", lambda: f"{where}: {v} for {inv[v]} and {k}; {c}")


def see_chunk(ids, ch, ix, c):
    ids.see(ch._key_id_map, c, "chunk")
    m = idmap(ch._key_id_map)
    for k in ch._result_index:
        check(gen.kid(k) in m, "ids:component without id", lambda: f"{k}; {c}")
    if ch._mixture:
        for k in ch._mixture:
            check(gen.kid(k) in m, "ids:component without id", lambda: f"{k}; {c}")


def read_ids(ch, c):
    """the ids attached to the samples that are read are the ids of the components the samples were drawn for"""
    where = {}
    m = idmap(ch._key_id_map)
    for k, l in Q.samples_of(ch._result_index).items():
        for d, f, r in l:
            where.setdefault(f"F{f}:{r}", set()).add(m[k])
    ch.configure_result_streaming(None, Q.stream_args(tunnel_via_server=False, chunk_reading_degree_of_parallelism=1,
                                                      chunk_reading_mixture_type=c["mode"], chunk_reading_window_size=c["window"]))
    n = 0
    for t in ch:
        i, kid, s = t
        check(s in where and kid in where[s], "ids:sample with another id", lambda: f"sample {s} has id {kid}, drawn for {where.get(s)}; {c}")
        n += 1
    return n


def gen_history(rng):
    ix = Q.rand_index(rng, maxrows=150)
    mixes = [Q.rand_mixture(rng, ix, chunk=rng.choice([2, 3, 5, 9])) for _ in range(rng.choice([1, 2, 3, 4]))]
    ops = []
    for _ in range(rng.choice([3, 8, 15])):
        r = rng.random()
        if r < 0.5:
            ops.append(["next", rng.random() < 0.5])
        elif r < 0.75:
            ops.append(["mix", rng.randrange(len(mixes))])
        elif r < 0.9:
            ops.append(["cache"])
        else:
            ops.append(["pickle"])
    return {"index": ix, "mixes": mixes, "ops": ops, "mode": rng.choice(["simple", "simple", "window"]), "window": rng.choice([2, 5, 20])}


def run_history(c):
    """mixture updates, saving and loading of one query result"""
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["mixes"][0]), meta=Q.fake_meta(c["index"]), stop_on_none=True)
    ids = Ids()
    ids.see(qr._key_id_map, c, "start")
    all_ = {gen.keyid(p) for p, _ in c["index"]}
    have = set(idmap(qr._key_id_map))
    check(all_ <= have, "ids:component without id", lambda: f"data components {all_ - have}; {c}")
    n = reads = 0
    for o in c["ops"]:
        if o[0] == "next":
            try:
                ch = next(qr)
            except StopIteration:
                continue
            n += 1
            see_chunk(ids, ch, c["index"], c)
            if o[1]:
                if c["mode"] == "window" and not ch._mixture:
                    continue
                reads += read_ids(ch, c)
        elif o[0] == "mix":
            m = Q.mk_mixture(c["mixes"][o[1]])
            qr.update_mixture(m)
            mp_ = idmap(qr._key_id_map)
            for k in m.mixture_in_rows():
                check(gen.kid(k) in mp_, "ids:component without id", lambda: f"mixture component {k} after update; {c}")
        elif o[0] == "cache":
            d = tempfile.mkdtemp(prefix="c06-")
            try:
                from pathlib import Path
                qr.to_cache(Path(d))
                try:
                    qr = type(qr).from_cache(Path(d))
                except RuntimeError as e:
                    if "Generator exhausted during replay" in str(e):
                        raise Skip("failed attempts are not replayed (known finding of C05)")
                    raise
            finally:
                shutil.rmtree(d, ignore_errors=True)
        else:
            gone = n
            qr2 = pickle.loads(pickle.dumps(qr))
            ids.see(qr2._key_id_map, c, "unpickled")
            for k in qr._key_id_map:
                check(gen.kid(k) in idmap(qr2._key_id_map), "ids:lost", lambda: f"{k}; {c}")
        ids.see(qr._key_id_map, c, o[0])
        now = set(idmap(qr._key_id_map))
        check(have <= now, "ids:lost", lambda: f"{have - now} after {o}; {c}")
        have = now
    return {"nontrivial": n > 0 and len(ids.ids) > 1}


def gen_job(rng):
    c = c05.gen_resume(rng)
    c["status"] = [0] * len(c["status"])
    c["reask"] = True
    c["mid"] = []
    return c


def run_job(c):
    """a whole job of the stub: cached query, mixture updates and feedback, checkpoint and restore"""
    base = f"j{os.getpid()}x{c05.stub() and c05.STUB['n']}"
    wn = max(c["workers"], 1)
    if c["cachedby"]:
        o = c05.Run(dict(c, mixes=[{"kind": "static", "chunk": 3, "strict": False, "w": [[{"unknown": ["x"]}, 0.5], [c["index"][0][0], 0.5]]}]), base + "#cache")
        o.drop()
    run = c05.Run(c, base + "#job")
    ids = Ids()
    hist = res = None
    n = 0
    try:
        done, results = [], []
        for si, seg in enumerate(c["segs"]):
            def step(o):
                nonlocal n
                if o[0] == "ask":
                    ch = run.ask(*o[1:])
                    if ch is not None:
                        n += 1
                        see_chunk(ids, ch, c["index"], c)
                        return canon_ids(ch)
                    return None
                run.op(o)
                return "-"
            for o in seg:
                r = step(o)
                done.append(o)
                results.append(r)
                ids.see(run.st._get_query_result(run.job)._key_id_map, c, f"after {o}")
            for o in c05.catch_up(c, done, results):
                r = step(o)
                done.append(o)
                results.append(r)
            if si == len(c["segs"]) - 1:
                break
            if any(o[0] == "ask" and r is None for o, r in zip(done, results)):
                raise Skip("failed attempts are not replayed (known finding of C05)") if n == 0 else Stop()
            st = {(d, k): [0] * wn for d in range(c["dp"]) for k in range(c["nodes"])}
            cid = c05.take(run, st, c["server"] or (c["dp"] == 1 and c["nodes"] == 1 and c["workers"] > 0))
            c05.wait_done(run.st, run.job, cid)
            before = set(ids.ids)
            if c["restart"]:
                run.drop()
            run.st.restore_checkpoint(run.job, cid)
            m = run.st._get_query_result(run.job)._key_id_map
            ids.see(m, c, "restored")
            check(before <= set(idmap(m)), "ids:lost", lambda: f"{before - set(idmap(m))} after a restore; {c}")
            cnt = c05.counts(done, results)
            for k in cnt:   # the current chunks again
                ch = run.ask(*k)
                if ch is not None:
                    see_chunk(ids, ch, c["index"], c)
        return {"nontrivial": n > 0 and len(ids.ids) > 1}
    except Stop:
        return {"nontrivial": n > 0 and len(ids.ids) > 1}
    finally:
        run.drop()
        for d in ("checkpoints", "mixture_logs", "querycache"):
            p = os.path.join(c05.STUB["dir"], d)
            for e in os.listdir(p):
                shutil.rmtree(os.path.join(p, e), ignore_errors=True)


class Stop(Exception):
    pass


def canon_ids(ch):
    return sorted((gen.kid(k), ch._key_id_map[k]) for k in ch._result_index)


GROUPS = [Group("history", gen_history, run_history, weight=2), Group("job", gen_job, run_job, timeout=60)]
if __name__ == "__main__":
    main("C06", GROUPS, setup, "random histories of chunk requests, mixture updates, saving/loading, feedback, checkpoint/restore; non-trivial: a chunk was generated and there are at least two components")
