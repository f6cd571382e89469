"""C04: chunks are distributed consistently over data-parallel groups."""
from common import Group, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate()


class FakeQR:
    """a query result whose chunks are numbered; it may have nothing for a while (None) and continue later"""

    def __init__(self, script):
        self.script, self.i, self.n, self.fetched = script, 0, 0, []
        self.stop_on_none = True

    def __iter__(self):
        return self

    def __next__(self):
        s = self.script[self.i] if self.i < len(self.script) else "end"
        self.i += 1
        if s == "end":
            raise StopIteration
        if s == "none":
            return None
        self.n += 1
        self.fetched.append(self.n)
        return {"chunk": self.n, "data": list(range(self.n % 5))}


def gen_dist(rng):
    dp, nodes, w = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([0, 1, 2, 3])
    wn = max(w, 1)
    n = rng.choice([5, 20, 60])
    script = [("none" if rng.random() < 0.05 else "chunk") for _ in range(rng.randrange(1, 2 * n))]
    style = rng.randrange(3)
    ops = []
    fav = (rng.randrange(dp), rng.randrange(nodes), rng.randrange(wn))
    for i in range(n):
        if style == 0:
            ops.append([rng.randrange(dp), rng.randrange(nodes), rng.randrange(wn)])
        elif style == 1:   # one node runs ahead
            o = list(fav) if rng.random() < 0.6 else [rng.randrange(dp), rng.randrange(nodes), rng.randrange(wn)]
            ops.append(o)
        else:              # round robin with bursts
            b = [rng.randrange(dp), rng.randrange(nodes), rng.randrange(wn)]
            ops += [b] * rng.randrange(1, 4)
    return {"dp": dp, "nodes": nodes, "workers": w, "script": script, "ops": ops, "deser": rng.random() < 0.4, "drain": rng.random() < 0.7}


def load(x):
    import dill
    return dill.loads(x) if isinstance(x, bytes) else x


def run_dist(c):
    from mixtera.core.query.chunk_distributor import ChunkDistributor
    fq = FakeQR(c["script"])
    cd = ChunkDistributor(c["dp"], c["nodes"], c["workers"], fq, "job")
    wn = max(c["workers"], 1)
    seq = {(d, n, w): [] for d in range(c["dp"]) for n in range(c["nodes"]) for w in range(wn)}

    def ask(d, n, w):
        before = len(fq.fetched)
        try:
            r = cd.next_chunk_for(d, n, w, c["deser"])
        except StopIteration:
            check(len(fq.fetched) == before, "dist:dropped", lambda: f"chunk {fq.fetched[before:]} fetched but not handed out; {c}")
            return False
        check(isinstance(r, bytes) != c["deser"], "dist:serialization", lambda: f"{type(r)}, deserialize={c['deser']}")
        r = load(r)
        check(r["data"] == list(range(r["chunk"] % 5)), "dist:content", lambda: f"{r}")
        check(len(fq.fetched) <= before + 1, "dist:over-fetched", lambda: f"{fq.fetched[before:]}")
        if len(fq.fetched) > before:
            check(r["chunk"] == fq.fetched[-1], "dist:dropped", lambda: f"fetched {fq.fetched[-1]}, handed out {r['chunk']}; {c}")
        seq[(d, n, w)].append(r["chunk"])
        return True
    for d, n, w in c["ops"]:
        ask(d, n, w)
    if c["drain"]:   # every node catches up with the furthest node of its group
        for d in range(c["dp"]):
            for w in range(wn):
                m = max(len(seq[(d, n, w)]) for n in range(c["nodes"]))
                for n in range(c["nodes"]):
                    while len(seq[(d, n, w)]) < m:
                        check(ask(d, n, w), "dist:lost", lambda: f"node {n} of group {d} cannot get chunk {len(seq[(d, n, w)])} of worker {w} that another node received; {c}")
    owner = {}
    for d in range(c["dp"]):
        for w in range(wn):
            longest = max((seq[(d, n, w)] for n in range(c["nodes"])), key=len)
            for n in range(c["nodes"]):
                s = seq[(d, n, w)]
                check(s == longest[:len(s)], "dist:nodes differ", lambda: f"group {d} worker {w}: node {n} got {s}, another {longest}; {c}")
            check(len(set(longest)) == len(longest), "dist:repeated", lambda: f"{longest}; {c}")
            for x in longest:
                check(x not in owner, "dist:not disjoint", lambda: f"chunk {x} for {owner.get(x)} and {(d, w)}; {c}")
                owner[x] = (d, w)
    check(set(owner) == set(fq.fetched), "dist:dropped", lambda: f"fetched {fq.fetched}, handed out {sorted(owner)}; {c}")
    return {"nontrivial": len(owner) > 1 and (c["dp"] > 1 or c["nodes"] > 1 or wn > 1)}


def gen_real(rng):
    ix = Q.rand_index(rng, maxrows=80)
    m = Q.rand_mixture(rng, ix, chunk=rng.choice([1, 2, 3, 5]))
    dp, nodes, w = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([0, 1, 2])
    ops = [[rng.randrange(dp), rng.randrange(nodes), rng.randrange(max(w, 1))] for _ in range(rng.choice([6, 20]))]
    return {"index": ix, "mix": m, "dp": dp, "nodes": nodes, "workers": w, "ops": ops}


def run_real(c):
    """with real chunks: groups and workers never share a sample, the nodes of a group see the same samples"""
    from mixtera.core.query.chunk_distributor import ChunkDistributor
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["mix"]), meta=Q.fake_meta(c["index"]))
    cd = ChunkDistributor(c["dp"], c["nodes"], c["workers"], qr, "job")
    seq = {}
    for d, n, w in c["ops"]:
        try:
            r = load(cd.next_chunk_for(d, n, w, False))
        except StopIteration:
            continue
        sm = sorted((k, sorted(v)) for k, v in Q.samples_of(r._result_index).items())
        seq.setdefault((d, w), {}).setdefault(n, []).append(sm)
    own = {}
    for dw, per in seq.items():
        longest = max(per.values(), key=len)
        for n, s in per.items():
            check(s == longest[:len(s)], "real:nodes differ", lambda: f"{dw} node {n}; {c}")
        for i, sm in enumerate(longest):
            for k, ss in sm:
                for s in ss:
                    check(s not in own, "real:not disjoint", lambda: f"{s} for {own.get(s)} and {(dw, i)}; {c}")
                    own[s] = (dw, i)
    return {"nontrivial": len(own) > 1}


GROUPS = [Group("dist", gen_dist, run_dist, weight=3), Group("real", gen_real, run_real)]
if __name__ == "__main__":
    main("C04", GROUPS, setup, "random group/node/worker counts and request interleavings; non-trivial: several receivers and chunks")
