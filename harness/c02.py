"""C02: every chunk honours the mixture it was requested for."""
from common import Group, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate()


def gen_hist(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([20, 60, 120]))
    kinds = ("static",) * 5 + ("inferring",)
    ops = [["mix", Q.rand_mixture(rng, ix, kinds)]]
    for _ in range(rng.randrange(1, 16)):
        ops.append(["next"] if rng.random() < 0.8 else ["mix", Q.rand_mixture(rng, ix, kinds + ("arbitrary",))])
    return {"index": ix, "ops": ops}


def gen_single(rng):
    """one mixture until nothing comes any more; many chunks, exhaustion of several components"""
    ix = Q.rand_index(rng, ncomp=rng.choice([2, 3, 4, 5]), maxrows=rng.choice([20, 60, 150]), multi=rng.random() < 0.3)
    m = Q.rand_mixture(rng, ix, ("static",) * 5 + ("inferring",), chunk=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16]))
    return {"index": ix, "ops": [["mix", m]] + [["next"]] * rng.choice([10, 40])}


def run_hist(c):
    comp = {}
    avail = {}
    props = {}
    for p, es in c["index"]:
        k = gen.keyid(p)
        props[k] = p
        avail[k] = 0
        for d, f, ivs in es:
            for a, b in ivs:
                avail[k] += b - a
                for r in range(a, b):
                    comp[(d, f, r)] = k
    mix = Q.mk_mixture(c["ops"][0][1])
    qr = Q.real_qr(Q.build_index(c["index"]), mix, stop_on_none=True)
    exact = True       # no failed attempt yet: 'avail' is what the generator still has
    produced = 0
    for i, op in enumerate(c["ops"]):
        if op[0] == "mix":
            if i:
                mix = Q.mk_mixture(op[1])
                qr.update_mixture(mix)
            mprops = {gen.kid(k): {a: list(b) for a, b in k.properties.items()} for k in mix.mixture_in_rows()}
            continue
        want = Q.rows_of(mix)
        total = sum(want.values())
        strict = mix.strict
        try:
            ch = next(qr)
        except StopIteration:
            ch = None
        # which components serve which mixture component; decided exactly only if none serves two
        serve = {k: [ck for ck in avail if Q.matches(mprops[k], props[ck])] for k in want}
        flat = [x for v in serve.values() for x in v]
        clean = len(flat) == len(set(flat))
        have = {k: sum(avail[x] for x in serve[k]) for k in want}
        if want and clean and exact:
            if strict:
                possible = all(have[k] >= n for k, n in want.items()) and total > 0
            else:
                possible = sum(have.values()) >= total and total > 0
            if ch is not None:
                check(possible, "mixture:chunk although impossible", lambda: f"op {i}: needs {want}, has {have}, strict={strict}; {c}")
            elif strict or all(n > 0 for n in want.values()):
                check(not possible, "mixture:no chunk although possible", lambda: f"op {i}: needs {want}, has {have}, strict={strict}; {c}")
        if ch is None:
            exact = False
            continue
        produced += 1
        sm = Q.samples_of(ch._result_index)
        if not want:
            for ss in sm.values():
                for s in ss:
                    avail[comp[s]] -= 1
            continue
        cnt = {k: len(v) for k, v in sm.items()}
        check(set(k for k, v in cnt.items() if v) <= set(want), "mixture:foreign component", lambda: f"op {i}: {cnt} for {want}; {c}")
        for k, ss in sm.items():
            for s in ss:
                check(Q.matches(mprops[k], props[comp[s]]), "mixture:data does not match", lambda: f"op {i}: {s} of {comp[s]} served for {k}; {c}")
        check(sum(cnt.values()) == total, "mixture:total", lambda: f"op {i}: {cnt}, mixture asks for {want}; {c}")
        if strict:
            check(all(cnt.get(k, 0) == n for k, n in want.items()), "mixture:strict counts", lambda: f"op {i}: {cnt} for {want}; {c}")
        elif clean and exact:
            for k, n in want.items():
                check(cnt.get(k, 0) >= min(n, have[k]), "mixture:share", lambda: f"op {i}: {k} gets {cnt.get(k, 0)}, wants {n}, has {have[k]}; {c}")
        att = {gen.kid(k): int(v) for k, v in (ch._mixture or {}).items()}
        check({k: v for k, v in att.items() if v} == {k: v for k, v in cnt.items() if v}, "mixture:attached", lambda: f"op {i}: attached {att}, holds {cnt}; {c}")
        for ss in sm.values():
            for s in ss:
                avail[comp[s]] -= 1
    return {"nontrivial": produced > 0}


def gen_dist(rng):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    w = gen.rand_weights(rng, n)
    if rng.random() < 0.5:
        k = [rng.randrange(0, 30) for _ in range(n)]
        k[0] += 1
        w = [x / sum(k) for x in k]
    return {"n": rng.choice([0, 1, 2, 3, 5, 10, 17, 100, 1000, 99999]), "w": w}


def run_dist(c):
    from mixtera.utils.utils import distribute_by_ratio
    from fractions import Fraction
    r = distribute_by_ratio(c["n"], list(c["w"]))
    check(len(r) == len(c["w"]) and sum(r) == c["n"], "distribute:sum", lambda: f"{c} -> {r}")
    for x, w in zip(r, c["w"]):
        check(x >= 0 and abs(x - Fraction(w) * c["n"]) < 1 + Fraction(1, 10 ** 6), "distribute:share", lambda: f"{c} -> {r}")


GROUPS = [Group("mixture", gen_hist, run_hist, weight=2), Group("exhaust", gen_single, run_hist, weight=2), Group("distribute", gen_dist, run_dist, weight=0.2)]
if __name__ == "__main__":
    main("C02", GROUPS, setup, "random indexes and mixture histories (strict and best effort, overlapping and exhausted components); non-trivial: at least one chunk")
