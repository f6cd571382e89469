"""C03: mixture weights become row counts that fill the chunk exactly."""
from common import Group, Violation, check, expect_raises, main
import gen
from gen import Fraction


def setup():
    import sys
    from rt import realenv
    realenv.activate()


def K(p):
    from mixtera.core.query.mixture import MixtureKey
    return MixtureKey({k: list(v) for k, v in p.items()})


def check_rows(rows, weights, chunk, sig, msg):
    """rows: {keyid: n}; weights: {keyid: Fraction-able}"""
    check(set(rows) == set(weights), sig + ":keys", lambda: f"{msg}: components {rows} vs weights {weights}")
    for k, n in rows.items():
        check(isinstance(n, int) and not isinstance(n, bool) or hasattr(n, "__index__"), sig + ":type", lambda: f"{msg}: {n!r}")
        check(n >= 0, sig + ":negative", lambda: f"{msg}: {rows}")
        d = abs(Fraction(int(n)) - Fraction(weights[k]) * chunk)
        check(d < 1 + Fraction(1, 10 ** 6) * max(1, chunk // 10 ** 4), sig + ":share", lambda: f"{msg}: {k} has {n} rows, wants {float(weights[k]) * chunk}")
    check(sum(rows.values()) == chunk, sig + ":sum", lambda: f"{msg}: rows {rows} add up to {sum(rows.values())}, chunk size {chunk}")


def gen_static(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 9])
    w = gen.rand_weights(rng, n)
    if rng.random() < 0.15:
        f = 1 + rng.uniform(-9e-4, 9e-4)
        w = [x * f for x in w]
    return {"chunk": gen.rand_chunk(rng), "w": w, "keys": rand_keys(rng, n), "strict": rng.random() < 0.5,
            "cls": rng.choice(["init", "init", "parse"])}


def rand_keys(rng, n):
    """n pairwise disjoint keys"""
    p = rng.choice(gen.PROPS)
    vals = gen.VALS[p] + [f"x{i}" for i in range(12)]
    rng.shuffle(vals)
    out = []
    extra = rng.random() < 0.3
    for i in range(n):
        d = {p: [vals.pop()]}
        if rng.random() < 0.2 and len(vals) > n - i:
            d[p].append(vals.pop())
        if extra:
            q = [x for x in gen.PROPS if x != p][0]
            d[q] = [rng.choice(gen.VALS[q])]
        out.append(d)
    return out


def run_static(c):
    from mixtera.core.query.mixture import StaticMixture
    m = {K(p): w for p, w in zip(c["keys"], c["w"])}
    before = dict(m)
    tot = sum(Fraction(w) for w in c["w"])
    if c["cls"] == "parse":
        s = sum(c["w"])
        mm = {k: v / s for k, v in m.items()}
        rows = StaticMixture.parse_user_mixture(c["chunk"], mm)
    else:
        mix = StaticMixture(c["chunk"], m, strict=c["strict"])
        rows = mix.mixture_in_rows()
        check(mix.chunk_size == c["chunk"], "static:chunk_size", mix.chunk_size)
        check(mix.strict == c["strict"], "static:strict", mix.strict)
    check(list(before.items()) == list(m.items()), "static:input changed", lambda: f"{before} -> {m}")
    check_rows({gen.kid(k): v for k, v in rows.items()}, {gen.keyid(p): Fraction(w) / tot for p, w in zip(c["keys"], c["w"])}, c["chunk"], "static", str(c))


def gen_refuse(rng):
    n = rng.choice([1, 2, 3, 4])
    w = gen.rand_weights(rng, n)
    f = rng.choice([0.0, 0.5, 0.9, 0.99, 0.997, 1.003, 1.01, 1.1, 2.0, 100.0])
    return {"chunk": gen.rand_chunk(rng), "w": [x * f for x in w], "keys": rand_keys(rng, n)}


def run_refuse(c):
    from mixtera.core.query.mixture import StaticMixture
    m = {K(p): w for p, w in zip(c["keys"], c["w"])}
    expect_raises((ValueError, ZeroDivisionError, AssertionError), lambda: StaticMixture(c["chunk"], m).mixture_in_rows(), "static:refuse", f"weights {c['w']} accepted")


def gen_infer(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    comps = []
    for p in rand_keys(rng, n):
        files = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            did, fid = rng.randrange(1, 3), rng.randrange(1, 5)
            pos, iv = 0, []
            for _ in range(rng.choice([1, 2, 4])):
                pos += rng.randrange(0, 5)
                ln = rng.choice([1, 1, 2, 7, 50, rng.randrange(1, 1000)])
                iv.append([pos, pos + ln])
                pos += ln
            files.setdefault(str(did), {})[str(fid)] = iv
        comps.append([p, files])
    return {"chunk": gen.rand_chunk(rng), "comps": comps, "twice": rng.random() < 0.2}


def mk_index(comps):
    return {K(p): {int(d): {int(f): [tuple(x) for x in iv] for f, iv in fs.items()} for d, fs in files.items()} for p, files in comps}


def run_infer(c):
    from mixtera.core.query.mixture import InferringMixture
    m = InferringMixture(c["chunk"])
    m.process_index(mk_index(c["comps"]))
    if c["twice"]:
        m.process_index(mk_index(c["comps"]))
    cnt = {gen.keyid(p): sum(b - a for fs in files.values() for iv in fs.values() for a, b in iv) for p, files in c["comps"]}
    tot = sum(cnt.values())
    check_rows({gen.kid(k): v for k, v in m.mixture_in_rows().items()}, {k: Fraction(v, tot) for k, v in cnt.items()}, c["chunk"], "inferring", str(c))
    m2 = InferringMixture(c["chunk"])
    m2.process_index({})
    check(m2.mixture_in_rows() == {}, "inferring:empty", m2.mixture_in_rows())


def gen_tree(rng, depth=0, props=None):
    props = props or rng.sample(gen.PROPS, 3)
    n = rng.choice([1, 2, 2, 3, 4])
    w = gen.rand_weights(rng, n)
    vals = list(gen.VALS[props[depth]])
    rng.shuffle(vals)
    comps = []
    for i in range(min(n, len(vals))):
        sub = gen_tree(rng, depth + 1, props) if depth < 2 and rng.random() < (0.5 if depth == 0 else 0.35) else None
        comps.append([[vals[i]], w[i], sub])
    if len(comps) > 1 and rng.random() < 0.3:       # the same subtree below several components
        subs = [x[2] for x in comps if x[2]]
        for x in comps:
            if subs and rng.random() < 0.6:
                x[2] = rng.choice(subs)
    if n > len(vals) or rng.random() < 0.2:
        s = sum(x[1] for x in comps)
        if s > 0:
            comps = [[v, x / s, sub] for v, x, sub in comps]
    if sum(x[1] for x in comps) == 0:
        comps[0][1] = 1.0
    return [props[depth], comps]


def run_tree(c):
    from mixtera.core.query.mixture.hierarchical_static_mixture import Component, HierarchicalStaticMixture, MixtureNode

    made = {}

    def node(t):
        # equal subtrees may be one object in the user's program
        if c.get("share") and repr(t) in made:
            return made[repr(t)]
        made[repr(t)] = MixtureNode(t[0], [Component(list(v), w, node(s) if s else None) for v, w, s in t[1]])
        return made[repr(t)]
    leaves = []

    def walk(t, props, w):
        for v, x, s in t[1]:
            p = dict(props)
            p[t[0]] = v
            if s:
                walk(s, p, w * Fraction(x))
            else:
                leaves.append((gen.keyid(p), w * Fraction(x)))
    walk(c["tree"], {}, Fraction(1))
    tree = node(c["tree"])
    m = HierarchicalStaticMixture(c["chunk"], tree)
    if c.get("again") == "new":         # the user's description is not changed by using it
        m = HierarchicalStaticMixture(c["chunk"], tree)
    elif c.get("again") == "adjust":
        m.adjust_chunk_size(c["chunk"] + 7)
        m.adjust_chunk_size(c["chunk"])
    rows = m.mixture_in_rows()
    check(all(k in rows and rows[k] == v for k, v in rows.items()), "hierarchical:lookup", lambda: f"a component cannot be looked up: {rows} {c}")
    got = {gen.kid(k): v for k, v in rows.items()}
    check(set(got) == {k for k, _ in leaves} and len(got) == len(leaves), "hierarchical:keys", lambda: f"{got} vs {leaves}")
    check(sum(got.values()) == c["chunk"], "hierarchical:sum", lambda: f"{got} sums to {sum(got.values())} != {c['chunk']}")
    off = []
    eps = Fraction(1, 10 ** 9) * max(1, c["chunk"])
    for k, w in leaves:
        x = w * c["chunk"]
        lo, hi = (x - eps).__floor__(), (x + eps).__floor__()
        check(got[k] >= 0 and got[k] >= lo, "hierarchical:share", lambda: f"{k}: {got[k]} rows for weight {float(w)} of {c['chunk']}")
        if got[k] > hi:
            off.append(k)
    check(len(off) <= 1, "hierarchical:leftover", lambda: f"more than one component above its share: {off}: {got} {c}")


def gen_dyn(rng):
    n = rng.choice([1, 2, 3, 5])
    reps = []
    for _ in range(rng.randrange(1, 5)):
        m = rng.randrange(1, n + 1)
        reps.append([[rng.choice([0.0, rng.uniform(0.1, 10), rng.uniform(0.1, 1000)]) for _ in range(m)], [rng.choice([0, 1, rng.randrange(1, 500)]) for _ in range(m)]])
    return {"chunk": min(gen.rand_chunk(rng), 100000), "keys": rand_keys(rng, n), "w": gen.rand_weights(rng, n), "reps": reps}


def run_dyn(c):
    import numpy as np
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture import StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.network.client.client_feedback import ClientFeedback
    keys = [K(p) for p in c["keys"]]
    m = DynamicMixture(c["chunk"], StaticMixture(c["chunk"], dict(zip(keys, c["w"]))), SimpleAveragingAlgorithm())
    m.process_id_map({k: i for i, k in enumerate(keys)})
    n = len(keys)
    L, C = np.zeros(n, dtype=np.float64), np.zeros(n, dtype=np.int64)
    for i, (ls, cs) in enumerate(c["reps"]):
        m.process_client_feedback(ClientFeedback(training_steps=i, losses=np.array(ls, dtype=np.float32), counts=np.array(cs, dtype=np.int64), mixture_id=i))
        L[:len(ls)] += ls
        C[:len(cs)] += cs
        avg = [Fraction(float(L[j])) / int(C[j]) if C[j] > 0 else Fraction(0) for j in range(n)]
        if not any(x > 0 for x in C):
            continue
        tot = sum(avg)
        w = [a / tot if tot else (Fraction(1, int((C > 0).sum())) if C[j] > 0 else Fraction(0)) for j, a in enumerate(avg)]
        got = {gen.kid(k): v for k, v in m.mixture_in_rows().items()}
        check(sum(got.values()) == c["chunk"], "dynamic:sum", lambda: f"{got} {c}")
        for j in range(n):
            g = got.get(gen.keyid(c["keys"][j]), 0)
            check(g >= 0 and abs(Fraction(int(g)) - w[j] * c["chunk"]) < 1 + Fraction(c["chunk"], 10 ** 5), "dynamic:share",
                  lambda: f"{c['keys'][j]}: {g} rows for weight {float(w[j])} x {c['chunk']}")
        check(m.chunk_size == c["chunk"], "dynamic:chunk", m.chunk_size)


GROUPS = [
    Group("static", gen_static, run_static, weight=3, fixed=[
        {"chunk": ch, "w": w, "keys": [{"language": [x]} for x in "abcdefghij"[:len(w)]], "strict": True, "cls": "init"}
        for ch in (1, 2, 3, 5, 10, 11, 1000) for w in ([1.0], [.5, .5], [.3, .3, .4], [1 / 3] * 3, [.7, .2, .1], [0.0, 1.0], [.1] * 10, [.995, .005], [.0005, .9995], [1 / 7] * 7)]),
    Group("refuse", gen_refuse, run_refuse, weight=0.5),
    Group("inferring", gen_infer, run_infer),
    Group("hierarchical", lambda r: {"chunk": gen.rand_chunk(r), "tree": gen_tree(r), "share": r.random() < 0.5, "again": r.choice([None, None, "new", "adjust"])}, run_tree),
    Group("dynamic", gen_dyn, run_dyn),
]
if __name__ == "__main__":
    main("C03", GROUPS, setup, "random and fixed weights/chunk sizes through every mixture class; a case is distinct by its inputs")
