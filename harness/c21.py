"""C21: metadata parsers record what the sample says, or refuse it."""
import copy

from common import Group, Violation, check, main

VALS = ["a", "b", "c", "", "en", "A", 1, 0, 2.5, True, "é"]
NAMES = ["language", "tags", "score", "kind", "src", "p_1"]


def setup():
    from rt import realenv
    realenv.activate()
    import mixtera.core.datacollection.index.parser.parser_collection  # noqa


def gen_schema(rng):
    out = []
    for n in rng.sample(NAMES, rng.randrange(1, 5)):
        en = rng.random() < 0.45
        out.append({"name": n, "dtype": "ENUM" if en else "STRING", "multiple": rng.random() < 0.45, "nullable": rng.random() < 0.5,
                    "opts": rng.sample(VALS[:6], rng.randrange(1, 5)) if en else None, "aslist": rng.random() < 0.3})
    return out


def gen_value(rng, p):
    pool = p["opts"] if p["opts"] and rng.random() < 0.85 else VALS[:7]
    r = rng.random()
    if r < 0.12:
        return None
    if p["multiple"] and r < 0.75 or r < 0.17:
        return [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return rng.choice(pool)


def gen_rows(rng):
    sch = gen_schema(rng)
    rows = []
    for i in range(rng.choice([1, 2, 3, 6])):
        vals = {p["name"]: gen_value(rng, p) for p in sch if rng.random() < 0.9}
        if rng.random() < 0.3:
            vals["unknown"] = "x"
        rows.append([i if rng.random() < 0.8 else rng.randrange(0, 1000), vals])
    return {"schema": sch, "rows": rows}


def verdict(sch, vals):
    """-> (record without the row number, None) or (None, reason)"""
    rec = {}
    for p in sch:
        v = vals.get(p["name"])
        if v is None:
            if not p["nullable"]:
                return None, "missing"
            rec[p["name"]] = None
            continue
        if p["multiple"]:
            v = list(v) if isinstance(v, list) else [v]
        elif isinstance(v, list):
            return None, "list for a single value"
        if p["dtype"] == "ENUM":
            for x in (v if p["multiple"] else [v]):
                if not any(x == o for o in p["opts"]):
                    return None, "not an option"
        rec[p["name"]] = v
    return rec, None


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def mk_parser(sch):
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=p["name"], dtype=p["dtype"], multiple=p["multiple"], nullable=p["nullable"],
                                     enum_options=None if p["opts"] is None else (list(p["opts"]) if p["aslist"] else set(p["opts"]))) for p in sch]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, **payload)
    return P


def feed(parser, rows, expect, sig, c):
    """rows: (row number, payload); expect(payload, row) -> (record, None) or (None, reason)"""
    want = []
    for n, payload in rows:
        rec, why = expect(payload, n)
        keep = copy.deepcopy(payload)
        try:
            parser.parse(n, payload)
            ok = True
        except Exception as e:  # noqa
            ok, err = False, e
        check(payload == keep, sig + ":payload changed", lambda: f"{keep} -> {payload}: {c}")
        if rec is None:
            check(not ok, sig + ":accepted", lambda: f"row {n} with {payload} ({why}) recorded as {parser.metadata[-1:]}: {c}")
        else:
            check(ok, sig + ":refused", lambda: f"row {n} with {payload}: {err!r}: {c}")
            want.append({"sample_id": n, **rec})
        got = parser.metadata
        check(len(got) == len(want), sig + ":number of records", lambda: f"{got} instead of {want}: {c}")
        for g, w in zip(got, want):
            check(set(g) == set(w), sig + ":properties", lambda: f"{g} instead of {w}: {c}")
            check(all(same(g[k], w[k]) for k in w), sig + ":values", lambda: f"{g} instead of {w}: {c}")
    return want


def run_rows(c):
    P = mk_parser(c["schema"])
    a, b = P(1, 2), P(1, 3)
    check((a.dataset_id, a.file_id, b.file_id) == (1, 2, 3), "rows:ids", "")
    w = feed(a, c["rows"], lambda v, n: verdict(c["schema"], v), "rows", c)
    check(b.metadata == [], "rows:shared between parsers", lambda: f"{b.metadata}: {c}")
    feed(b, c["rows"][::-1], lambda v, n: verdict(c["schema"], v), "rows", c)
    check(len(a.metadata) == len(w), "rows:shared between parsers", lambda: f"{c}")
    return {"nontrivial": len(c["rows"]) > 1}


def gen_reserved(rng):
    sch = gen_schema(rng)
    sch[rng.randrange(len(sch))]["name"] = rng.choice(["file_id", "dataset_id", "sample_id"])
    return {"schema": sch}


def run_reserved(c):
    P = mk_parser(c["schema"])
    try:
        p = P(1, 2)
    except Exception:  # noqa
        return
    raise Violation("reserved:internal name accepted", f"{c} {p.property_map}")


# ---------------------------------------------------------------------------------------------- built-in parsers
SLIM = ["RedPajamaCommonCrawl", "RedPajamaC4", "RedPajamaWikipedia", "RedPajamaStackExchange", "RedPajamaGithub", "RedPajamaArXiv", "RedPajamaBook"]
PILE = ["Pile-CC", "PubMed Central", "Books3", "OpenWebText2", "ArXiv", "Github", "FreeLaw", "StackExchange", "USPTO Backgrounds", "PubMed Abstracts", "Gutenberg (PG-19)", "OpenSubtitles", "Wikipedia (en)",
        "DM Mathematics", "Ubuntu IRC", "BookCorpus2", "EuroParl", "HackerNews", "YoutubeSubtitles", "PhilPapers", "NIH ExPorter", "Enron Emails"]


def gen_builtin(rng):
    name = rng.choice(["RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"])
    rows = []
    for i in range(rng.choice([1, 2, 4, 7])):
        p = {"text": "t"}
        if name == "RED_PAJAMA":
            m = {}
            if rng.random() < 0.7:
                m["language"] = [{"name": rng.choice(["en", "de", "fr", "HTML"]), "bytes": "3"} for _ in range(rng.randrange(0, 4))]
            if rng.random() < 0.7:
                m["publication_date"] = rng.choice(["2020", "2021-01-01"])
            if rng.random() < 0.9:
                p["meta"] = m
        elif name in ("SLIM_PAJAMA", "PILE"):
            q = "redpajama_set_name" if name == "SLIM_PAJAMA" else "pile_set_name"
            r = rng.random()
            p["meta"] = {q: rng.choice(SLIM if name == "SLIM_PAJAMA" else PILE)} if r < 0.75 else {q: rng.choice(["x", "github", "", "ArXiv ", "RedPajama", [SLIM[0]], 3])} if r < 0.9 else {} if r < 0.95 else {"other": 1}
            if rng.random() < 0.03:
                del p["meta"]
        elif name == "IMAGENET_WEB_DATASET":
            if rng.random() < 0.9:
                p[".cls"] = rng.choice([0, 1, 999, "7", "cat"])
        elif name == "FINEWEB":
            if rng.random() < 0.9:
                p["dump"] = rng.choice(["CC-1", "CC-2", "x"])
            if rng.random() < 0.9:
                p["language"] = rng.choice(["en", "en", "en", "de", "", "EN", "e"])
        rows.append([rng.choice([i, i, 5000 + i]), p])
    return {"name": name, "rows": rows}


def exp_builtin(name):
    def red(p, n):
        m = p.get("meta", {})
        la = [x["name"] for x in m.get("language", [])]
        return {"language": la or None, "publication_date": m.get("publication_date")}, None

    def enum(prop, opts):
        def f(p, n):
            v = p.get("meta", {}).get(prop)
            return ({prop: v}, None) if isinstance(v, str) and v in opts else (None, "not an option")
        return f

    def img(p, n):
        return ({"class_label": str(p[".cls"])}, None) if ".cls" in p else (None, "missing")

    def fine(p, n):
        return ({"dump": p["dump"], "language": "en"}, None) if p.get("dump") is not None and p.get("language") == "en" else (None, "missing or not an option")
    return {"RED_PAJAMA": red, "SLIM_PAJAMA": enum("redpajama_set_name", SLIM), "PILE": enum("pile_set_name", PILE), "IMAGENET_WEB_DATASET": img, "FINEWEB": fine,
            "MSCOCO": lambda p, n: ({"parity": str(n % 3)}, None)}[name]


def run_builtin(c):
    from mixtera.core.datacollection.index.parser.parser_collection import MetadataParserFactory
    f = MetadataParserFactory()
    p = f.create_metadata_parser(c["name"], 3, 4)
    check((p.dataset_id, p.file_id, p.metadata) == (3, 4, []), "builtin:fresh parser", lambda: f"{p.metadata}")
    feed(p, c["rows"], exp_builtin(c["name"]), "builtin", c)
    check(f.create_metadata_parser(c["name"], 3, 5).metadata == [], "builtin:shared between parsers", lambda: f"{c}")
    return {"nontrivial": len(c["rows"]) > 1}


def gen_factory(rng):
    return {"ops": [[rng.choice(["add", "add", "over", "del", "new", "new"]), rng.choice(["A", "B", "PILE", "MSCOCO"]), rng.randrange(3)] for _ in range(rng.randrange(1, 10))]}


def run_factory(c):
    from mixtera.core.datacollection.index.parser.parser_collection import MetadataParserFactory
    f, other = MetadataParserFactory(), MetadataParserFactory()
    cls = [mk_parser([{"name": f"q{i}", "dtype": "STRING", "multiple": False, "nullable": True, "opts": None, "aslist": False}]) for i in range(3)]
    ref = {k: f._registry[k] for k in ("PILE", "MSCOCO")}
    for op, n, i in c["ops"]:
        if op in ("add", "over"):
            r = f.add_parser(n, cls[i], overwrite=op == "over")
            e = op == "over" or n not in ref
            check(r is e, "factory:result of adding", lambda: f"{r}: {c}")
            if e:
                ref[n] = cls[i]
        elif op == "del":
            f.remove_parser(n)
            ref.pop(n, None)
        for m in ("A", "B", "PILE", "MSCOCO"):
            try:
                p = f.create_metadata_parser(m, 1, 2)
                check(m in ref and type(p) is ref[m] and (p.dataset_id, p.file_id) == (1, 2), "factory:parser", lambda: f"{m} gives {type(p)}: {c}")
            except ModuleNotFoundError:
                check(m not in ref, "factory:parser not found", lambda: f"{m}: {c}")
    check("A" not in other._registry and type(other.create_metadata_parser("PILE", 1, 1)).__name__ == "PileaMetadataParser" or "A" not in other._registry, "factory:shared", "")
    return {"nontrivial": len(c["ops"]) > 1}


GROUPS = [Group("rows", gen_rows, run_rows, timeout=12, weight=2), Group("reserved", gen_reserved, run_reserved, timeout=12, weight=0.2), Group("builtin", gen_builtin, run_builtin, timeout=12), Group("factory", gen_factory, run_factory, timeout=12, weight=0.3)]
if __name__ == "__main__":
    main("C21", GROUPS, setup, "random schemas and rows through a generated parser and all built-in parsers; non-trivial: several rows")
