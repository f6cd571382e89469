"""C01: chunking never repeats, invents or loses selected samples."""
from common import Group, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate()


def universe(spec):
    own = {}
    for p, es in spec:
        for d, f, ivs in es:
            for a, b in ivs:
                for r in range(a, b):
                    own[(d, f, r)] = gen.keyid(p)
    return own


def gen_hist(rng):
    ix = Q.rand_index(rng)
    ops = [["mix", Q.rand_mixture(rng, ix)]]
    for _ in range(rng.randrange(1, 14)):
        ops.append(["next"] if rng.random() < 0.75 else ["mix", Q.rand_mixture(rng, ix)])
    return {"index": ix, "ops": ops, "stop": rng.random() < 0.5}


def run_hist(c):
    own = universe(c["index"])
    seen = set()
    mix = Q.mk_mixture(c["ops"][0][1])
    before = Q.build_index(c["index"])
    qr = Q.real_qr(Q.build_index(c["index"]), mix, stop_on_none=c["stop"])
    n = 0
    for i, op in enumerate(c["ops"][1:]):
        if op[0] == "mix":
            qr.update_mixture(Q.mk_mixture(op[1]))
            continue
        try:
            ch = next(qr)
        except StopIteration:
            ch = None
        if ch is None:
            continue
        n += 1
        for k, sm in Q.samples_of(ch._result_index).items():
            for s in sm:
                check(s in own, "history:invented sample", lambda: f"op {i}: {s} is not selected; {c}")
                check(s not in seen, "history:repeated sample", lambda: f"op {i}: {s} handed out twice; {c}")
                seen.add(s)
    return {"nontrivial": n > 1}


def gen_arb(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([10, 60, 200]))
    tot = sum(b - a for _, es in ix for _, _, ivs in es for a, b in ivs)
    ch = rng.choice([1, 2, 3, 5, 8, 10, 16, 50, rng.randrange(1, tot + 2)])
    return {"index": ix, "chunks": [ch] if rng.random() < 0.8 else [rng.randrange(1, 12) for _ in range(rng.randrange(2, 6))]}


def run_arb(c):
    """no mixture until the end: exact cover; with a constant chunk size only a component's last chunk is not full"""
    own = universe(c["index"])
    from mixtera.core.query.mixture import ArbitraryMixture
    qr = Q.real_qr(Q.build_index(c["index"]), ArbitraryMixture(c["chunks"][0]))
    seen = {}
    short = {}
    i = 0
    limit = len(own) + 20
    while True:
        size = c["chunks"][min(i, len(c["chunks"]) - 1)]
        if i:
            if i < len(c["chunks"]):
                qr.update_mixture(ArbitraryMixture(size))
        try:
            ch = next(qr)
        except StopIteration:
            break
        check(ch is not None, "nomix:none", "None although stop_on_none")
        sm = Q.samples_of(ch._result_index)
        check(len(sm) == 1, "nomix:components", lambda: f"chunk of {len(sm)} components")
        (k, ss), = sm.items()
        check(0 < len(ss) <= size, "nomix:size", lambda: f"{len(ss)} samples in a chunk of size {size}; {c}")
        check(not short.get(k), "nomix:full", lambda: f"chunk {i} comes from component {k} after a chunk of it that was not full; {c}")
        short[k] = len(ss) < size
        for s in ss:
            check(own.get(s) == k, "nomix:invented sample", lambda: f"{s} in {k}, is in {own.get(s)}; {c}")
            check(s not in seen, "nomix:repeated sample", lambda: f"{s} in chunks {seen.get(s)} and {i}; {c}")
            seen[s] = i
        i += 1
        check(i <= limit, "nomix:does not end", "")
    check(len(seen) == len(own), "nomix:lost sample", lambda: f"{sorted(set(own) - set(seen))[:5]} of {len(own)} never handed out; {c}")
    for _ in range(2):
        try:
            ch = next(qr)
        except StopIteration:
            continue
        check(ch is None or not any(Q.samples_of(ch._result_index).values()), "nomix:after end", "a chunk after the end")
    return {"nontrivial": i > 1}


def gen_drain(rng):
    ix = Q.rand_index(rng)

    def mix():
        if rng.random() < 0.5:
            return Q.rand_mixture(rng, ix, kinds=("arbitrary",))
        m = Q.rand_mixture(rng, ix, kinds=("static",))
        m["w"] = [[{"language": ["zz"]}, 1.0]]
        return m
    ops = [["mix", mix()]]
    for _ in range(rng.randrange(1, 10)):  # more than ten failed requests in a row end the result for good, as designed
        ops.append(["next"] if rng.random() < 0.6 else ["mix", mix()])
    return {"index": ix, "ops": ops, "stop": rng.random() < 0.3}


def run_drain(c):
    """requests for components without any data fail without using up anything: asking on without a mixture hands out everything"""
    from mixtera.core.query.mixture import ArbitraryMixture
    own = universe(c["index"])
    seen = set()
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["ops"][0][1]), stop_on_none=c["stop"])

    def take():
        try:
            ch = next(qr)
        except StopIteration:
            ch = None
        if ch is None:
            return False
        for k, sm in Q.samples_of(ch._result_index).items():
            for s in sm:
                check(s not in seen, "drain:repeated sample", lambda: f"{s} handed out twice; {c}")
                seen.add(s)
        return True
    fails = 0
    for op in c["ops"][1:]:
        if op[0] == "mix":
            qr.update_mixture(Q.mk_mixture(op[1]))
        elif not take():
            fails += 1
    qr.update_mixture(ArbitraryMixture(7))
    for _ in range(len(own) + 20):
        if not take():
            break
    check(seen == set(own), "drain:lost sample", lambda: f"{sorted(set(own) - seen)[:5]} of {len(own)} never handed out ({fails} failed requests); {c}")
    return {"nontrivial": fails > 0}


def gen_comp(rng):
    ents, rows = [], 0
    for f in rng.sample(range(9), rng.randrange(1, 4)):
        pos, iv = 0, []
        for _ in range(rng.randrange(1, 5)):
            pos += rng.randrange(0, 4)
            ln = rng.choice([1, 1, 2, 3, 10, rng.randrange(1, 40)])
            iv.append([pos, pos + ln])
            pos += ln
        ents.append([rng.randrange(1, 3), f, iv])
    return {"ents": ents, "sizes": [rng.choice([1, 1, 2, 3, 4, 5, 10, 17, rng.randrange(1, 60)]) for _ in range(rng.randrange(1, 40))]}


def run_comp(c):
    """the component coroutine alone: consecutive exact pieces, the last one may be short"""
    from mixtera.core.query.query_result import QueryResult
    f = getattr(QueryResult, "_generate_per_mixture_component_chunks", None)
    if f is None:
        raise Q.Skip("component coroutine renamed")
    ix = Q.build_index([[{"a": ["1"]}, c["ents"]]])
    key = next(iter(ix))
    want = [s for d in sorted(ix[key]) for fid in sorted(ix[key][d]) for a, b in ix[key][d][fid] for s in [(d, fid, r) for r in range(a, b)]]
    it = f(ix, key)
    next(it)
    pos = 0
    for i, size in enumerate(c["sizes"]):
        try:
            part = it.send(size)
        except StopIteration:
            check(pos == len(want), "component:stops early", lambda: f"stopped after {pos} of {len(want)} rows: {c}")
            return
        got = sorted(Q.samples_of({key: part}).popitem()[1])
        check(got == sorted(want[pos:pos + size]), "component:piece", lambda: f"piece {i} of {size}: {got[:8]}.. expected {sorted(want[pos:pos + size])[:8]}; {c}")
        for fs in part.values():
            for ivs in fs.values():
                check(all(a < b for a, b in ivs) and all(x[1] <= y[0] for x, y in zip(ivs, ivs[1:])), "component:intervals", lambda: f"{ivs}; {c}")
        pos += len(got)


def gen_merge(rng):
    def lst():
        pos, o = 0, []
        for _ in range(rng.randrange(0, 7)):
            pos += rng.randrange(0, 6)
            o.append([pos, pos + rng.randrange(1, 4)])
            pos = o[-1][1] if rng.random() < 0.7 else pos
        return o
    return {"a": lst(), "b": lst()}


def run_merge(c):
    from mixtera.utils.utils import merge_sorted_lists
    a, b = [tuple(x) for x in c["a"]], [tuple(x) for x in c["b"]]
    r = merge_sorted_lists(list(a), list(b))
    check(sorted(r) == sorted(a + b), "merge:elements", lambda: f"{a} + {b} -> {r}")
    check(all(x[0] <= y[0] for x, y in zip(r, r[1:])), "merge:order", lambda: f"{a} + {b} -> {r}")


GROUPS = [Group("history", gen_hist, run_hist, weight=3), Group("nomix", gen_arb, run_arb, weight=3), Group("drain", gen_drain, run_drain, weight=3), Group("component", gen_comp, run_comp),
          Group("merge", gen_merge, run_merge, weight=0.3)]
if __name__ == "__main__":
    main("C01", GROUPS, setup, "random interval indexes, mixtures, chunk sizes and request histories; non-trivial: more than one chunk")
