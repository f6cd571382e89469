"""C16: mixture schedules and feedback follow the training step."""
import random

from common import Group, Skip, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate(native="stub")
    import mixtera.core.query  # noqa: F401


def rand_steps(rng):
    n = rng.choice([1, 3, 8, 20])
    top = rng.choice([3, 30, 1000])
    s = [rng.randrange(0, top) for _ in range(n)]
    if rng.random() < 0.4:
        s.sort()
        for _ in range(rng.choice([0, 1, 3])):   # late reports
            i, j = rng.randrange(n), rng.randrange(n)
            s[i], s[j] = s[j], s[i]
    return s


def rand_schedule(rng, ix, chunk, kinds=("static", "static", "static", "inferring")):
    n = rng.choice([1, 2, 3, 5])
    top = rng.choice([4, 12, 40, 1000])
    starts = rng.sample(range(0, max(top, n)), n)
    if rng.random() < 0.6:
        starts[rng.randrange(n)] = 0
        starts = list(dict.fromkeys(starts))
    return [[s, Q.rand_mixture(rng, ix, kinds, chunk=chunk if rng.random() < 0.8 else None)] for s in starts]


def mk_schedule(entries, chunk):
    from mixtera.core.query.mixture import MixtureSchedule, ScheduleEntry
    return MixtureSchedule(chunk, [ScheduleEntry(s, Q.mk_mixture(m)) for s, m in entries])


def due(entries, step):
    best = None
    for s, m in entries:
        if s <= step and (best is None or s > best[0]):
            best = (s, m)
    return best if best is not None else min(entries, key=lambda e: e[0])


def fb(step, mid=0):
    from mixtera.network.client.client_feedback import ClientFeedback
    return ClientFeedback(training_steps=step, mixture_id=mid)


# -------------------------------------------------------------------------------------------------- the known step
def gen_step(rng):
    ix = Q.rand_index(rng, maxrows=20)
    kind = rng.choice(["static", "arbitrary", "inferring", "schedule", "dynamic", "hier"])
    return {"kind": kind, "index": ix, "mix": Q.rand_mixture(rng, ix, ("static",)), "sched": rand_schedule(rng, ix, 5), "steps": rand_steps(rng)}


def run_step(c):
    from mixtera.core.query.mixture import Component, HierarchicalStaticMixture, MixtureNode
    k = c["kind"]
    if k == "schedule":
        m = mk_schedule(c["sched"], 5)
    elif k == "dynamic":
        from mixtera.core.algo.ado.ado import AdoDynamicMixing
        from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
        m = DynamicMixture(4, Q.mk_mixture(dict(c["mix"], kind="inferring", chunk=4)), AdoDynamicMixing(variant="vanilla") if False else mk_alg())
    elif k == "hier":
        m = HierarchicalStaticMixture(4, MixtureNode("language", [Component(["en"], 0.5), Component(["de"], 0.5)]))
    else:
        m = Q.mk_mixture(dict(c["mix"], kind=k))
    top = 0
    check(m.current_step == 0, "step:initial", lambda: f"{m.current_step}; {c}")
    for s in c["steps"]:
        m.process_client_feedback(fb(s))
        top = max(top, s)
        check(m.current_step == top, "step", lambda: f"{m.current_step} instead of {top} after {c['steps']}; {k}")
    return {"nontrivial": len(c["steps"]) > 1}


def mk_alg():
    from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm

    class Alg(DynamicMixingAlgorithm):
        def calc_mixture(self, updated_at_client):
            return None

        def write_logs(self):
            pass
    return Alg()


# ------------------------------------------------------------------------------------------------------- schedules
def gen_sched(rng):
    ix = Q.rand_index(rng, maxrows=20)
    chunk = rng.choice([1, 3, 5, 8, 20])
    return {"index": ix, "chunk": chunk, "sched": rand_schedule(rng, ix, chunk, ("static", "static", "static", "inferring", "arbitrary")), "steps": rand_steps(rng), "index_at": rng.randrange(3)}


def expected_rows(entry, chunk, index):
    m = Q.mk_mixture(dict(entry[1], chunk=chunk))
    m.process_index(index)
    return Q.rows_of(m)


def run_sched(c):
    index = Q.build_index(c["index"])
    s = mk_schedule(c["sched"], c["chunk"])
    s.process_index(index)
    top = 0
    for i, st in enumerate([0] + c["steps"]):
        if i:
            s.process_client_feedback(fb(st))
        top = max(top, st)
        e = due(c["sched"], top)
        want = expected_rows(e, c["chunk"], index)
        check(Q.rows_of(s) == want, "schedule:rows", lambda: f"step {top}: {Q.rows_of(s)} instead of {want}; {c}")
        check(Q.rows_of(s.current_mixture) == want, "schedule:current mixture", lambda: f"step {top}; {c}")
        sm = {str(k): v for k, v in s.mixture_in_rows().items()}
        check(s.stringified_mixture() == sm, "schedule:text", lambda: f"{c}")
        if want:
            check(sum(want.values()) == c["chunk"], "schedule:chunk size", lambda: f"{want}; {c}")
    return {"nontrivial": len(c["sched"]) > 1}


# ------------------------------------------------------------------------------------------------------ whole jobs
def gen_job(rng):
    ix = Q.rand_index(rng, ncomp=rng.choice([2, 3]), maxrows=150)
    chunk = rng.choice([1, 2, 3, 5])
    sched = rand_schedule(rng, ix, chunk)
    top = max(s for s, _ in sched) + 3
    ops = []
    step = 0
    for _ in range(rng.choice([5, 12, 25])):
        if rng.random() < 0.6:
            ops.append(["next"])
        else:
            step = max(0, step + rng.randrange(-3, max(2, top // 4)))
            ops.append(["fb", step])
    return {"index": ix, "chunk": chunk, "sched": sched, "ops": ops, "via": rng.choice(["mixture", "stub"])}


def canon(ch):
    import json
    return json.dumps([sorted((str(gen.kid(k)), sorted((d, sorted((f, [list(x) for x in l]) for f, l in fs.items())) for d, fs in ds.items())) for k, ds in ch._result_index.items()),
                       sorted((str(gen.kid(k)), v) for k, v in (ch._mixture or {}).items()), ch.mixture_id])


def run_job(c):
    index = Q.build_index(c["index"])
    ref_index = Q.build_index(c["index"])
    mix = mk_schedule(c["sched"], c["chunk"])
    qr = Q.real_qr(index, mix, stop_on_none=True)
    stub = None
    if c["via"] == "stub":
        import threading
        from mixtera.core.client.local.local_stub import LocalStub
        from mixtera.core.query.chunk_distributor import ChunkDistributor
        stub = object.__new__(LocalStub)
        stub._training_query_map_lock = threading.Lock()
        stub._training_query_map = {"j": (ChunkDistributor(1, 1, 0, qr, "j"), None, mix)}
    top = 0
    out = []
    used = set()
    ids = {}
    for i, o in enumerate(c["ops"]):
        if o[0] == "fb":
            if stub:
                check(stub.process_feedback("j", fb(o[1])) is True, "job:feedback", lambda: f"{c}")
                check(stub.process_feedback("other", fb(10 ** 6)) is False, "job:feedback for unknown job", lambda: f"{c}")
            else:
                mix.process_client_feedback(fb(o[1]))
            top = max(top, o[1])
            continue
        try:
            ch = next(qr)
        except StopIteration:
            break
        if ch is None:
            break
        e = due(c["sched"], top)
        want = {k: v for k, v in expected_rows(e, c["chunk"], ref_index).items() if v}
        got = {k: len(v) for k, v in Q.samples_of(ch._result_index).items() if v}
        check(got == want, "job:chunk", lambda: f"op {i} at step {top}: chunk holds {got}, the entry due asks for {want}; {c}")
        att = {gen.kid(k): v for k, v in (ch._mixture or {}).items() if v}
        check(att == want, "job:attached mixture", lambda: f"op {i}: {att} {want}; {c}")
        out.append((ch, canon(ch)))
    for ch, s in out:
        check(canon(ch) == s, "job:earlier chunk changed", lambda: f"{s} / {canon(ch)}; {c}")
    return {"nontrivial": len(out) > 1}


GROUPS = [Group("step", gen_step, run_step, timeout=12, weight=0.6), Group("schedule", gen_sched, run_sched, timeout=12), Group("job", gen_job, run_job, timeout=30, weight=2)]
if __name__ == "__main__":
    main("C16", GROUPS, setup, "random step reports (also late and repeated ones) to every kind of mixture; random schedules in random entry order; chunk streams with feedback in between; non-trivial: several reports, entries or chunks")
