"""C08: reading a chunk yields exactly its samples in the requested mixture."""
import multiprocessing as mp
from fractions import Fraction

from common import Group, Skip, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate()


def text_of(c, f, r):
    """the text of a sample; one of them may look like something special"""
    s = f"F{f}:{r}"
    return c["special"][1] if c.get("special") and c["special"][0] == s else s


def die(how):
    if how == "raise":
        raise ValueError("a sample that cannot be parsed")
    if how == "exit":
        raise SystemExit(0)
    import os
    os._exit(0 if how == "vanish" else 3)


def get_chunks(c):
    meta = Q.fake_meta(c["index"])
    if c.get("special"):
        a, b = c["special"]
        meta["parsing_func"] = {k: (lambda x: b if x == a else x) for k in meta["parsing_func"]}
    if c.get("dies"):
        a, how = c["dies"]
        meta["parsing_func"] = {k: (lambda x: die(how) if x == a else x) for k in meta["parsing_func"]}
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["mix"]), meta=meta)
    out = []
    for ch in qr:
        out.append(ch)
        if len(out) > c["which"]:
            break
    return out


def gen_read(rng, dop=(1,)):
    ix = Q.rand_index(rng, maxrows=rng.choice([10, 40, 120]))
    m = Q.rand_mixture(rng, ix)
    ch = m["chunk"]
    mode = rng.choice(["simple", "window", "window"])
    sp = None
    if rng.random() < 0.15:
        _, es = rng.choice(ix)
        _, f, ivs = rng.choice(es)
        sp = [f"F{f}:{rng.choice(ivs)[0]}", rng.choice(["END_OF_STREAM", "", "None", "0"])]
    return {"index": ix, "mix": m, "special": sp, "which": rng.choice([0, 0, 1, 3]), "mode": mode,
            "win": rng.choice([1, 2, 3, 4, 5, 8, 10, max(1, ch // 2), max(1, ch // 3), ch, ch + 3, 0, -1, 128]), "be": rng.random() < 0.65,
            "prefetch": rng.random() < 0.4, "dop": rng.choice(dop), "skip": rng.choice([0, 0, 1, 2, 3, 5, 10, rng.randrange(0, 40)])}


def gen_par(rng):
    c = gen_read(rng, dop=(2, 2, 3, 4, 7))
    return c


def read(c, chunk, **over):
    import copy
    chunk = copy.copy(chunk)
    a = {"chunk_reading_degree_of_parallelism": c["dop"], "chunk_reading_mixture_type": c["mode"], "chunk_reading_window_size": c["win"],
         "chunk_reading_window_best_effort": c["be"], "chunk_reading_prefetch_first_sample": c["prefetch"]}
    skip = over.pop("skip", 0)
    a.update(over)
    chunk.configure_result_streaming(None, Q.stream_args(**a))
    chunk._samples_to_skip = skip
    return [list(x) for x in chunk], chunk


def run_read(c):
    chunks = get_chunks(c)
    if not chunks:
        return {"nontrivial": False}
    ch = chunks[-1]
    counts = {gen.kid(k): int(v) for k, v in (ch._mixture or {}).items() if v}
    ids = {v: gen.kid(k) for k, v in ch._key_id_map.items()}
    want = {}
    for k, ss in Q.samples_of(ch._result_index).items():
        for d, f, r in ss:
            want[text_of(c, f, r)] = k
    seq, cc = read(c, ch)
    if not counts:
        counts = {}
        for k in want.values():
            counts[k] = counts.get(k, 0) + 1
    check([s[0] for s in seq] == list(range(len(seq))), "read:numbering", lambda: f"{[s[0] for s in seq][:20]}; {c}")
    seen = set()
    for _, kid, smp in seq:
        check(smp in want, "read:foreign sample", lambda: f"{smp}; {c}")
        check(smp not in seen, "read:repeated sample", lambda: f"{smp}; {c}")
        check(ids.get(kid) == want[smp], "read:component", lambda: f"{smp} of {want[smp]} served as {ids.get(kid)}; {c}")
        seen.add(smp)
    if c["mode"] == "simple" or c["be"]:
        check(seen == set(want), "read:lost sample", lambda: f"{sorted(set(want) - seen)[:5]}; {c}")
    if c["mode"] == "window":
        windows(c, seq, counts, ids, cc)
    # skipping
    if c["skip"]:
        seq2, _ = read(c, ch, skip=c["skip"])
        check(seq2 == seq[c["skip"]:], "read:skip", lambda: f"skip {c['skip']}: {seq2[:4]} instead of {seq[c['skip']:][:4]}; {c}")
    # prefetching and reading again never change the sequence
    seq3, _ = read(c, ch, chunk_reading_prefetch_first_sample=not c["prefetch"])
    check(seq3 == seq, "read:prefetch changes the sequence", lambda: f"{seq3[:4]} / {seq[:4]}; {c}")
    return {"nontrivial": len(want) > 1}


def gen_dies(rng):
    c = gen_read(rng, dop=(2, 3, 4))
    _, es = rng.choice(c["index"])
    _, f, ivs = rng.choice(es)
    iv = rng.choice(ivs)
    c.update(special=None, skip=0, mode="simple", which=0, dies=[f"F{f}:{rng.randrange(iv[0], max(iv[1], iv[0] + 1))}", rng.choice(["raise", "exit", "vanish", "crash"])])
    return c


def run_dies(c):
    """a reader process that ends before it delivered all its samples: reading does not end as if nothing was missing"""
    import mixtera.core.query.result_chunk as rc
    if not hasattr(rc, "MULTIPROCESSING_TIMEOUT"):
        raise Skip("the timeout cannot be shortened")
    chunks = get_chunks(c)
    if not chunks:
        return {"nontrivial": False}
    want = {text_of(c, f, r) for ss in Q.samples_of(chunks[0]._result_index).values() for _, f, r in ss}
    if c["dies"][0] not in want:
        return {"nontrivial": False}
    keep, rc.MULTIPROCESSING_TIMEOUT = rc.MULTIPROCESSING_TIMEOUT, 1
    try:
        seq, _ = read(c, chunks[0])
    except Exception:  # noqa
        return {}
    finally:
        rc.MULTIPROCESSING_TIMEOUT = keep
        for p in mp.active_children():
            p.kill()
    raise Violation("read:lost reader", f"a reader died of {c['dies']}; {len(seq)} of {len(want)} samples and no error; {c}")


def windows(c, seq, counts, ids, cc):
    size = c["win"]
    chunk_size = c["mix"]["chunk"]
    if size > chunk_size:
        size = chunk_size
    if size < 1:
        size = 128
    total = sum(counts.values())
    if total != chunk_size:
        return      # only the rest of one component: no shares to check
    share = {k: Fraction(size * v, chunk_size) for k, v in counts.items()}
    left = dict(counts)
    full = 0
    for w in range(0, len(seq), size):
        part = seq[w:w + size]
        got = {k: 0 for k in counts}
        for _, kid, _s in part:
            got[ids[kid]] += 1
        enough = all(left[k] >= share[k] + len(counts) + 1 for k in counts)
        if enough:
            check(len(part) == size, "window:short", lambda: f"window {w // size} has {len(part)} of {size}; {c}")
            odd = [k for k in counts if abs(got[k] - share[k]) >= 1]
            check(len(odd) <= 1, "window:shares", lambda: f"window {w // size}: {got} for shares { {k: float(v) for k, v in share.items()} }; {c}")
            for k in odd:
                check(share[k] <= got[k] <= share[k] + len(counts), "window:shares", lambda: f"window {w // size}: {got} for { {k: float(v) for k, v in share.items()} }; {c}")
            full += 1
        for k in counts:
            left[k] -= got[k]
    if not c["be"] and len(seq) > size:
        # no window may start after a component was found to have run out
        left = dict(counts)
        out_at = None
        for w in range(0, len(seq), size):
            check(out_at is None, "window:continues", lambda: f"window {w // size} starts although {out_at} ran out before; {c}")
            got = {k: 0 for k in counts}
            for _, kid, _s in seq[w:w + size]:
                got[ids[kid]] += 1
            for k in counts:
                fl = size * counts[k] // chunk_size
                if left[k] < fl:
                    out_at = k      # the window needs more of k than there is
                left[k] -= got[k]


GROUPS = [Group("read", gen_read, run_read, weight=3, timeout=12), Group("parallel", gen_par, run_read, weight=2, timeout=60), Group("dies", gen_dies, run_dies, weight=0.7, timeout=60)]
if __name__ == "__main__":
    main("C08", GROUPS, setup, "random chunks of random query results, window sizes, parallelism 1-7, prefetching and skips; non-trivial: more than one sample")
