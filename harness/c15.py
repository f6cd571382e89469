"""C15: component keys match, order and hash by their property values."""
import itertools
import random
import subprocess
import sys
import json

from common import Group, Skip, Violation, check, main, VENV_PY

K = None


def setup():
    global K
    from rt import realenv
    realenv.activate(native="stub")
    from mixtera.core.query.mixture import MixtureKey
    K = MixtureKey


STR = ["a", "b", "c", "", "10", "9", "a:b", "b;c", "C++", "日", "A"]
INT = [0, 1, 2, 10, 9, -3]
FLT = [0.5, 1.25, -2.0]
PROPS = ["p", "q", "r", "a", "p:a", "ü"]


def rand_key(rng, pools):
    ps = rng.sample(PROPS[:rng.choice([2, 3, 6])], rng.choice([0, 1, 1, 2, 2]))
    out = []
    for p in ps:
        pool = pools[p]
        n = rng.choice([0, 1, 1, 1, 2, 2, 3])
        vs = [rng.choice(pool) for _ in range(n)] if rng.random() < 0.2 else rng.sample(pool, min(n, len(pool)))
        out.append([p, vs])
    return out


def gen_keys(rng):
    pools = {p: rng.choice([STR[:4], STR, STR[:2], STR, INT, FLT, ["a", "aa", "ab"]]) for p in PROPS}
    keys = [rand_key(rng, pools) for _ in range(rng.choice([2, 3, 4, 7]))]
    for _ in range(rng.choice([0, 1, 2])):   # the same key written differently
        k = rng.choice(keys)
        k2 = [[p, rng.sample(v, len(v))] for p, v in rng.sample(k, len(k))]
        keys.append(k2)
    rng.shuffle(keys)
    return {"keys": keys, "seed": rng.randrange(1 << 30)}


def ident(k):
    return tuple(sorted((p, tuple(sorted(map(str, v)))) for p, v in k))


def matches(a, b):
    db = dict((p, v) for p, v in b)
    for p, v in a:
        if p not in db:
            return False
        w = db[p]
        if not v and not w:
            continue
        if not (set(v) & set(w)):
            return False
    return True


def mk(k):
    return K({p: list(v) for p, v in k})


def run_keys(c):
    ks = c["keys"]
    objs = [mk(k) for k in ks]
    n = len(ks)
    for i in range(n):
        check(not (objs[i] < objs[i]), "order:irreflexive", lambda: f"{ks[i]}")
        for j in range(n):
            a, b = objs[i], objs[j]
            e = a == b
            check(e is matches(ks[i], ks[j]), "match", lambda: f"{ks[i]} == {ks[j]} is {e}")
            check((a != b) is (not e), "match:not equal", lambda: f"{ks[i]} {ks[j]}")
            s = ident(ks[i]) == ident(ks[j])
            lt, gt = a < b, b < a
            check(isinstance(lt, bool), "order:result", lambda: f"{lt!r}")
            if s:
                check(not lt and not gt, "order:same keys", lambda: f"{ks[i]} {ks[j]}")
                check(hash(a) == hash(b), "hash", lambda: f"{ks[i]} {ks[j]}")
                check(str(a) == str(b), "text", lambda: f"{str(a)!r} {str(b)!r}")
            else:
                check(lt != gt, "order:total", lambda: f"{ks[i]} {ks[j]}: {lt} {gt}")
            check((a > b) == gt, "order:greater", lambda: f"{ks[i]} {ks[j]}")
    for i, j, k in itertools.permutations(range(n), 3):
        if objs[i] < objs[j] and objs[j] < objs[k]:
            check(objs[i] < objs[k], "order:transitive", lambda: f"{ks[i]} {ks[j]} {ks[k]}")
    rng = random.Random(c["seed"])
    base = [ident(x) for x in [[(p, v) for p, v in o.properties.items()] for o in sorted(objs)]]
    for _ in range(3):
        p = list(objs)
        rng.shuffle(p)
        got = [ident(list(o.properties.items())) for o in sorted(p)]
        check(got == base, "order:sorting", lambda: f"{base} / {got}")
    # the hash survives changes of the key through its interface
    k = rng.choice(ks)
    o = mk(k)
    hash(o)
    o.add_property("new", ["x"])
    check(hash(o) == hash(mk([x for x in k if x[0] != "new"] + [["new", ["x"]]])), "hash:after adding a property", lambda: f"{k}")
    for i, k in enumerate(ks):
        check({p: sorted(map(str, v)) for p, v in objs[i].properties.items()} == {p: sorted(map(str, v)) for p, v in k}, "properties changed", lambda: f"{k}")
    # keys in dictionaries: the same key is found again
    d = {}
    for o in objs:
        d[o] = 1
    for k in ks:
        check(mk([[p, list(reversed(v))] for p, v in reversed(k)]) in d, "dict", lambda: f"{k} in {ks}")
    for other in (None, 3, "p:a", {"p": ["a"]}):
        check((objs[0] == other) is False, "match:other types", lambda: f"{other!r}")
    return {"nontrivial": n > 2}


CHILD = """
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
from rt import realenv
realenv.activate(native="stub")
from mixtera.core.query.mixture import MixtureKey
for l in sys.stdin:
    ks = json.loads(l)
    o = [MixtureKey({p: list(v) for p, v in k}) for k in ks]
    print(json.dumps([[hash(x) for x in o], [str(x) for x in o], [o.index(x) if False else [y is x for y in o].index(True) for x in sorted(o)]]), flush=True)
"""
PROC = None


def child():
    global PROC
    import os
    if PROC is None or PROC[0] != os.getpid():
        from common import VERIF, HERE
        env = dict(os.environ, PYTHONHASHSEED="4711")
        p = subprocess.Popen([VENV_PY, "-c", CHILD % (VERIF, HERE)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        PROC = (os.getpid(), p)
    return PROC[1]


def run_process(c):
    ks = c["keys"]
    p = child()
    p.stdin.write(json.dumps(ks) + "\n")
    p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        raise Skip("the other process ended")
    h, s, order = json.loads(l)
    o = [mk(k) for k in ks]
    check([hash(x) for x in o] == h, "hash:other process", lambda: f"{ks}")
    check([str(x) for x in o] == s, "text:other process", lambda: f"{ks}")
    mine = [[y is x for y in o].index(True) for x in sorted(o)]
    check(mine == order, "order:other process", lambda: f"{ks}")
    return {}


GROUPS = [Group("keys", gen_keys, run_keys, timeout=12), Group("process", gen_keys, run_process, timeout=60, weight=0.2)]
if __name__ == "__main__":
    main("C15", GROUPS, setup, "random sets of keys (some written twice in another order); non-trivial: at least three keys")
