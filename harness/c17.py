"""C17: dynamic mixing accumulates losses exactly and yields distributions."""
import math
from types import SimpleNamespace

from common import Group, Violation, check, main
import gen
from gen import Fraction


def setup():
    from rt import realenv
    realenv.activate()
    import mixtera.core.algo.ado.ado  # noqa
    import mixtera.core.query.mixture.dynamic_mixture  # noqa


def num(rng):
    return rng.choice([0, rng.randrange(1, 40), rng.randrange(1, 400)]) / 4


def gen_reports(rng, n, k, first_full=False, grow=True):
    """k reports for up to n components; the loss is zero exactly if the count is"""
    out = []
    for i in range(k):
        m = n if (i == 0 and first_full) or not grow else rng.randrange(1, n + 1)
        cs = [rng.choice([0, rng.randrange(1, 50), rng.randrange(1, 5000)]) for _ in range(m)]
        ls = [num(rng) if c or rng.random() < 0.1 else 0.0 for c in cs]
        out.append([ls, cs, rng.randrange(0, 4 + i)])
    return out


def gen_acc(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    reps = gen_reports(rng, n, rng.randrange(1, 9))
    i32 = rng.random() < 0.2
    if not i32 and rng.random() < 0.3:       # long trainings
        for r in reps:
            r[1] = [x * rng.choice([1, 10 ** 4, 10 ** 7, 10 ** 10]) + (x and rng.randrange(0, 10)) for x in r[1]]
    return {"reps": [[*r, rng.random() < 0.12] for r in reps], "f64": rng.random() < 0.3, "i32": i32}


def mk_alg(record):
    import numpy as np
    from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm

    class Rec(DynamicMixingAlgorithm):
        def calc_mixture(self, updated_at_client):
            record.append((updated_at_client, self.losses.tolist(), self.counts.tolist()))
            return np.array([1.0])
    return Rec()


def run_acc(c):
    import numpy as np
    rec = []
    a = mk_alg(rec)
    L, C, top = [], [], -1
    for i, (ls, cs, mid, reset) in enumerate(c["reps"]):
        if reset:
            a.reset_state()
            L, C = [], []
            check(len(a.losses) == 0 and len(a.counts) == 0 or (not a.losses.any() and not a.counts.any()), "acc:reset", "state left after reset")
        la, ca = np.array(ls, dtype=np.float64 if c["f64"] else np.float32), np.array(cs, dtype=np.int32 if c["i32"] else np.int64)
        r = a.process_losses(la, ca, mid)
        check(la.tolist() == ls and ca.tolist() == cs, "acc:input changed", lambda: f"{ls} {cs}")
        for tot, new in ((L, ls), (C, cs)):
            tot.extend([0] * (len(new) - len(tot)))
            for j, x in enumerate(new):
                tot[j] += x
        la[:] = -77
        ca[:] = -77
        check(len(rec) == i + 1, "acc:calc_mixture calls", lambda: f"{len(rec)} after {i + 1} reports")
        upd, gl, gc = rec[-1]
        check(gl == L and gc == C, "acc:sums", lambda: f"report {i}: {gl} {gc} instead of {L} {C}: {c}")
        check(a.losses.tolist() == L and a.counts.tolist() == C, "acc:state", lambda: f"report {i}: {a.losses} {a.counts} instead of {L} {C}: {c}")
        check(bool(upd) == (mid > top), "acc:update signal", lambda: f"report {i} with mixture {mid} after {top}: {upd}: {c}")
        check(r is not None and r.tolist() == [1.0], "acc:mixture not returned", r)
        top = max(top, mid)
    return {"nontrivial": len(c["reps"]) > 1}


def check_dist(w, n, sig, msg):
    check(len(w) == n, sig + ":length", lambda: f"{w} for {n} components; {msg()}")
    check(all(math.isfinite(x) for x in w), sig + ":not finite", lambda: f"{w}; {msg()}")
    check(all(x >= 0 for x in w), sig + ":negative", lambda: f"{w}; {msg()}")
    check(abs(sum(float(x) for x in w) - 1) < 1e-4, sig + ":sum", lambda: f"{w} sums to {sum(w)}; {msg()}")


def gen_avg(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    return {"reps": [[*r, rng.random() < 0.1] for r in gen_reports(rng, n, rng.randrange(1, 7))]}


def run_avg(c):
    import numpy as np
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    a = SimpleAveragingAlgorithm()
    L, C = [], []
    seen = 0
    for i, (ls, cs, mid, reset) in enumerate(c["reps"]):
        if reset:
            a.reset_state()
            L, C = [], []
        w = a.process_losses(np.array(ls, dtype=np.float32), np.array(cs, dtype=np.int64), mid)
        for tot, new in ((L, ls), (C, cs)):
            tot.extend([0] * (len(new) - len(tot)))
            for j, x in enumerate(new):
                tot[j] += x
        if not any(C):
            check(w is None, "avg:mixture without data", lambda: f"{w}: {c}")
            continue
        seen += 1
        check(w is not None, "avg:no mixture", lambda: f"{L} {C}: {c}")
        w = [float(x) for x in w]
        check_dist(w, len(L), "avg", lambda: f"report {i}: {c}")
        avg = [Fraction(L[j]) / C[j] if C[j] else None for j in range(len(L))]
        tot = sum(x for x in avg if x is not None)
        for j, x in enumerate(avg):
            if x is None:
                check(w[j] == 0, "avg:weight without data", lambda: f"component {j} of {w}: {c}")
            elif tot > 0:
                check(abs(w[j] - float(x / tot)) < 1e-5, "avg:proportion", lambda: f"report {i}: component {j} has weight {w[j]} instead of {float(x / tot)}: {c}")
    return {"nontrivial": seen > 0}


def gen_ado(rng):
    n = rng.choice([1, 2, 3, 4])
    ignore = rng.choice([0, 1, 3])
    start = ignore + rng.choice([1, 2, 4])
    k = start + rng.choice([0, 1, 3, 8, 20])
    reps = gen_reports(rng, n, k, first_full=rng.random() < 0.7, grow=rng.random() < 0.4)
    for ls, cs, _ in reps:
        if not any(cs):
            cs[0] = 7
        for j, x in enumerate(cs):
            ls[j] = float(rng.randrange(1, 20)) * max(x, 0)
    for i, r in enumerate(reps):
        r[2] = rng.randrange(0, 1 + i)
    m = rng.randrange(1, n + 1) if rng.random() < 0.3 else n
    return {"n": n, "reps": reps, "init": gen.rand_weights(rng, m), "variant": rng.choice(["vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"]),
            "gamma1": rng.choice([0.0, 0.1, 0.5, 1.0]), "gamma2": rng.choice([0.0, 0.1, 0.5, 1.0]), "s": rng.choice([0.0, 0.5, 1.0]), "dmin": rng.choice([0.0, 0.01, 0.3]),
            "interval": rng.choice([1, 2, 5, 1000]), "sub": rng.choice([1, 2, 10]), "ignore": ignore, "start": start, "same": rng.random() < 0.5,
            "norm": rng.choice([None, 1, 1024]), "savgol": rng.random() < 0.5, "seed": rng.randrange(10 ** 6)}


def run_ado(c):
    import random
    import numpy as np
    import mixtera.core.algo.ado.ado as M

    rng = random.Random(c["seed"])

    class Pool:
        def __init__(self, *_a, **_k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *_):
            return False

        def map(self, f, xs):
            return [f(x) for x in xs]

        def imap(self, f, xs):
            return [f(x) for x in xs]

    def fit(_f, x0, args=(), **_):
        # any parameters the (external) optimiser could return: the mixture has to be a distribution for all of them
        return SimpleNamespace(success=True, fun=rng.random(), x=np.array([rng.uniform(-3, 7), rng.uniform(-3, 3), rng.choice([rng.uniform(0, 1), rng.uniform(-.2, 1.5)])]))
    old = M.minimize, M.mp
    M.minimize = fit
    M.mp = SimpleNamespace(Pool=Pool, get_context=lambda *_: SimpleNamespace(Pool=Pool))
    try:
        a = M.AdoDynamicMixing(variant=c["variant"], gamma1=c["gamma1"], gamma2=c["gamma2"], s=c["s"], delta_min=c["dmin"], scaling_law_update_interval=c["interval"],
                               subsampling_interval=c["sub"], ignore_initial_steps=c["ignore"], start_step=c["start"], savgol=c["savgol"], use_same_step_size=c["same"], count_normalizer=c["norm"])
        a.initial_mixture = np.array(c["init"], dtype=np.float32) / np.float32(sum(c["init"]))
        known = len(c["init"])
        L, C, out = [], [], 0
        for i, (ls, cs, mid) in enumerate(c["reps"]):
            w = a.process_losses(np.array(ls, dtype=np.float32), np.array(cs, dtype=np.int64), mid)
            known = max(known, len(ls))
            for tot, new in ((L, ls), (C, cs)):
                tot.extend([0] * (known - len(tot)))
                for j, x in enumerate(new):
                    tot[j] += x
            gl, gc = a.losses.tolist(), a.counts.tolist()
            check(len(gl) == len(gc) <= known and gc + [0] * (known - len(gc)) == C and np.allclose(gl + [0] * (known - len(gl)), L, rtol=1e-4), "ado:sums", lambda: f"report {i}: {gl} {gc} instead of {L} {C}: {c}")
            if i + 1 < c["start"]:
                check(w is None, "ado:mixture before the start step", lambda: f"report {i}: {w} {c}")
            elif i + 1 == c["start"] or c["variant"] != "adjusted_v3":
                check(w is not None, "ado:no mixture", lambda: f"report {i}: {c}")
            if w is not None:
                out += 1
                check_dist(w.tolist(), known, "ado", lambda: f"report {i}: {c}")
    finally:
        M.minimize, M.mp = old
    return {"nontrivial": out > 0}


def gen_mix(rng):
    n = rng.choice([1, 2, 3, 5])
    reps = gen_reports(rng, n, rng.randrange(1, 6))
    return {"chunk": rng.choice([1, 2, 7, 10, 100, 1000]), "n": n, "init": gen.rand_weights(rng, n), "reps": reps, "perm": rng.sample(range(n), n), "strict": rng.random() < 0.5, "nofb": rng.random() < 0.3}


def run_mix(c):
    """a dynamic mixture forwards exactly what is reported and uses exactly what the algorithm proposes"""
    import numpy as np
    from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
    from mixtera.core.query.mixture import MixtureKey, StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.network.client.client_feedback import ClientFeedback
    n = c["n"]
    got = []
    props = []

    class Alg(DynamicMixingAlgorithm):
        def calc_mixture(self, updated_at_client):
            got.append((bool(updated_at_client), self.losses.tolist(), self.counts.tolist(), self.initial_mixture.tolist()))
            return props[-1]
    keys = [MixtureKey({"language": [f"l{i}"]}) for i in range(n)]
    init = dict(zip(keys, c["init"]))
    m = DynamicMixture(c["chunk"], StaticMixture(c["chunk"], init, strict=c["strict"]), Alg(), strict=c["strict"])
    before = {gen.kid(k): v for k, v in m.mixture_in_rows().items()}
    ids = {keys[j]: c["perm"][j] for j in range(n)}
    m.process_id_map(ids)
    L, C, top = [], [], -1
    cur = before
    for i, (ls, cs, mid) in enumerate(c["reps"]):
        if c["nofb"]:
            m.process_client_feedback(ClientFeedback(training_steps=i, losses=None, counts=None, mixture_id=mid + 100))
            check(len(got) == i, "mixture:algorithm called without losses", lambda: f"{c}")
        raw = [((i + 3 * j) % 5) for j in range(n)]
        if not any(raw) or i % 4 == 3:
            props.append(None)
        else:
            props.append(np.array(raw, dtype=np.float64) / sum(raw))
        m.process_client_feedback(ClientFeedback(training_steps=i, losses=np.array(ls, dtype=np.float32), counts=np.array(cs, dtype=np.int64), mixture_id=mid))
        for tot, new in ((L, ls), (C, cs)):
            tot.extend([0] * (len(new) - len(tot)))
            for j, x in enumerate(new):
                tot[j] += x
        check(len(got) == i + 1, "mixture:calls", lambda: f"{len(got)}: {c}")
        upd, gl, gc, gi = got[-1]
        check(gl == L and gc == C, "mixture:sums", lambda: f"{gl} {gc} / {L} {C}: {c}")
        check(upd == (mid > top), "mixture:update signal", lambda: f"{upd} for {mid} after {top}: {c}")
        top = max(top, mid)
        tot = sum(before.values())
        for k, j in ids.items():
            check(abs(gi[j] - before.get(gen.kid(k), 0) / tot) < 1e-6, "mixture:initial mixture", lambda: f"{gi} for {before}: {c}")
        rows = {gen.kid(k): v for k, v in m.mixture_in_rows().items()}
        if props[-1] is None:
            check(rows == cur, "mixture:changed without proposal", lambda: f"{cur} -> {rows}: {c}")
        else:
            check(sum(rows.values()) == c["chunk"], "mixture:rows", lambda: f"{rows}: {c}")
            for k, j in ids.items():
                w = float(props[-1][j]) * c["chunk"]
                check(abs(rows.get(gen.kid(k), 0) - w) < 1 + 1e-6, "mixture:share", lambda: f"{k} has {rows.get(gen.kid(k), 0)} rows instead of {w}: {c}")
        cur = rows
    return {"nontrivial": len(c["reps"]) > 1}


GROUPS = [Group("accumulate", gen_acc, run_acc, timeout=12), Group("average", gen_avg, run_avg, timeout=12), Group("ado", gen_ado, run_ado, timeout=60, weight=2), Group("mixture", gen_mix, run_mix, timeout=12)]
if __name__ == "__main__":
    main("C17", GROUPS, setup, "random report sequences (growing and shrinking numbers of components, resets, repeated mixture numbers); ADO with arbitrary fitted parameters; non-trivial: several reports or at least one proposed mixture")
