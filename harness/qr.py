"""QueryResult objects over arbitrary chunker indexes, without a database; independent bookkeeping of their chunks."""
import multiprocessing as mp
import gen
from common import Skip, check


def K(p):
    from mixtera.core.query.mixture import MixtureKey
    return MixtureKey({k: list(v) for k, v in p.items()})


def build_index(spec):
    """spec: [[props, [[dataset, file, [[a,b],..]], ..]], ..] -> ChunkerIndex"""
    out = {}
    for p, ents in spec:
        d = out.setdefault(K(p), {})
        for did, fid, ivs in ents:
            d.setdefault(did, {}).setdefault(fid, []).extend(tuple(x) for x in ivs)
    return out


def make_qr(index, mixture, stop_on_none=True, meta=None, log_dir=None):
    from mixtera.core.query.query_result import QueryResult
    qr = QueryResult.__new__(QueryResult)
    qr._mixture = mixture
    qr.stop_on_none = stop_on_none
    qr._chunker_index = index
    mixture.process_index(index)
    qr._meta = meta or {"dataset_type": {}, "parsing_func": {}, "file_path": {}, "total_length": 0}
    qr._key_id_map = {}
    qr._update_key_id_map()
    qr._lock = mp.Lock()
    qr._index = mp.Value("i", 0)
    qr._generator = None
    qr._num_returns_gen = 0
    qr._mixture_log = []
    qr._query_log_dir = log_dir
    qr._is_replay = False
    return qr


def real_qr(index, mixture, stop_on_none=True, meta=None, log_dir=None):
    """through the real constructor; only the index construction and the database look-ups are replaced"""
    from mixtera.core.query import query_result as m
    QR = m.QueryResult
    meta = meta or {"dataset_type": {}, "parsing_func": {}, "file_path": {}, "total_length": 0}
    o1, o2 = QR.__dict__.get("_create_chunker_index"), QR.__dict__.get("_parse_meta")
    if o1 is None or o2 is None:
        return make_qr(index, mixture, stop_on_none, meta, log_dir)
    try:
        QR._create_chunker_index = staticmethod(lambda table: index)
        QR._parse_meta = lambda self, mdc, results: meta
        return QR(None, None, mixture, query_log_dir=log_dir, stop_on_none=stop_on_none)
    finally:
        QR._create_chunker_index, QR._parse_meta = o1, o2


def mk_mixture(spec):
    """spec: {"kind": static|arbitrary|inferring|hier, "chunk": n, "w": [[props, weight]..], "strict": bool}"""
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, StaticMixture
    k = spec["kind"]
    if k == "arbitrary":
        return ArbitraryMixture(spec["chunk"])
    if k == "inferring":
        return InferringMixture(spec["chunk"], strict=spec.get("strict", True))
    return StaticMixture(spec["chunk"], {K(p): w for p, w in spec["w"]}, strict=spec.get("strict", True))


def matches(mp_, cp):
    """does a component with properties cp serve the mixture component mp_ (own reading of the documentation)"""
    for k, v in mp_.items():
        if k not in cp:
            return False
        if not (set(v) & set(cp[k])) and (v or cp[k]):
            return False
    return True


def samples_of(result_index):
    """-> {keyid: [(dataset, file, row) ...]}"""
    out = {}
    for key, ds in result_index.items():
        l = out.setdefault(gen.kid(key), [])
        for did, fs in ds.items():
            for fid, ivs in fs.items():
                for iv in ivs:
                    a, b = iv[0], iv[1]
                    l.extend((did, fid, r) for r in range(a, b))
    return out


def rand_index(rng, ncomp=None, props=None, maxrows=60, single_file=False, multi=True):
    """components with pairwise different properties; every row of a file belongs to at most one component"""
    nprops = rng.choice([1, 1, 2, 2, 3])
    names = props or rng.sample(gen.PROPS, nprops)
    combos = []
    ncomp = ncomp or rng.choice([1, 2, 2, 3, 4, 5])
    for _ in range(ncomp * 3):
        d = {}
        for n in names:
            vs = [rng.choice(gen.VALS[n])]
            if multi and rng.random() < 0.12:
                v2 = rng.choice(gen.VALS[n])
                if v2 not in vs:
                    vs.append(v2)
            d[n] = sorted(vs)
        if all(gen.keyid(d) != gen.keyid(e) for e in combos):
            combos.append(d)
        if len(combos) == ncomp:
            break
    nfiles = 1 if single_file else rng.choice([1, 2, 2, 3, 4])
    files = [(rng.randrange(1, 3), f) for f in rng.sample(range(0, 12), nfiles)]
    ent = {i: {} for i in range(len(combos))}
    for did, fid in files:
        n = rng.choice([1, 3, 10, maxrows, rng.randrange(1, maxrows + 1)])
        pos = 0
        style = rng.random()
        while pos < n:
            ln = min(n - pos, rng.choice([1, 1, 2, 3, 5]) if style < 0.5 else rng.randrange(1, 25))
            c = rng.randrange(-1, len(combos)) if rng.random() < 0.3 else rng.randrange(len(combos))
            if c >= 0:
                ent[c].setdefault((did, fid), [])
                l = ent[c][(did, fid)]
                if l and l[-1][1] == pos:
                    l[-1][1] = pos + ln
                else:
                    l.append([pos, pos + ln])
            pos += ln
    spec = []
    for i, p in enumerate(combos):
        es = [[d, f, iv] for (d, f), iv in ent[i].items() if iv]
        rng.shuffle(es)
        if es:
            spec.append([p, es])
    rng.shuffle(spec)
    if not spec:
        spec = [[combos[0], [[1, 1, [[0, rng.randrange(1, 9)]]]]]]
    return spec


def rand_mixture(rng, index, kinds=("static",) * 4 + ("arbitrary", "inferring"), chunk=None, disjoint=None, zero_ok=False):
    """a mixture over the components of the index, possibly over fewer properties, possibly with unknown components"""
    k = rng.choice(kinds)
    total = sum(b - a for _, es in index for _, _, ivs in es for a, b in ivs)
    ch = chunk or rng.choice([1, 2, 3, 4, 5, 7, 8, 10, max(1, total // 2), max(1, total // 5), rng.randrange(1, max(2, total))])
    m = {"kind": k, "chunk": ch, "strict": rng.random() < 0.5}
    if k == "static":
        cand = []
        for p, _ in rng.sample(index, rng.randrange(1, len(index) + 1)):
            q = dict(p)
            if len(q) > 1 and rng.random() < 0.3:
                q = {x: q[x] for x in rng.sample(sorted(q), rng.randrange(1, len(q)))}
            elif rng.random() < 0.1:
                n = rng.choice(sorted(q))
                q[n] = sorted(set(q[n] + [rng.choice(gen.VALS[n])]))
            if all(gen.keyid(q) != gen.keyid(c) for c in cand):
                cand.append(q)
        if rng.random() < 0.05:
            cand.append({"language": ["zz"]})
        w = gen.rand_weights(rng, len(cand))
        m["w"] = [[c, x] for c, x in zip(cand, w)]
    return m


def rows_of(mix):
    return {gen.kid(k): int(v) for k, v in mix.mixture_in_rows().items()}


class FakeDataset:
    """stands in for a dataset class: row r of file f is the text 'f:r' (resolved through the parsing function)"""
    type = None

    @staticmethod
    def read_ranges_from_files(ranges_per_file, parsing_func, server_connection):
        for f, rs in ranges_per_file.items():
            for a, b in rs:
                for r in range(a, b):
                    yield parsing_func(f"{f}:{r}")


def fake_parse(x):
    return x


def fake_meta(spec):
    dids = {d for _, es in spec for d, _, _ in es}
    fids = {f for _, es in spec for _, f, _ in es}
    return {"dataset_type": {d: FakeDataset for d in dids}, "parsing_func": {d: fake_parse for d in dids},
            "file_path": {f: f"F{f}" for f in fids}, "total_length": 0}


def stream_args(**kw):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs
    return ResultStreamingArgs("job", **kw)
