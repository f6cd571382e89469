"""Data on disk and a real MixteraDataCollection over it; an independent record of what was registered."""
import json
import os
import random
import shutil
import tempfile
from contextlib import contextmanager

SCHEMA = {"language": ("STRING", True), "license": ("STRING", False), "quality": ("ENUM", False), "tags": ("ENUM", True), "topic": ("STRING", True), "src": ("STRING", False)}
ENUMS = {"quality": ["hi", "lo", "mid"], "tags": ["a,b", "t1", "t2", "x;y"]}
POOL = {"language": ["en", "de", "fr", "C++", "a,b", "x;y:z", "日本", "O'Neil", "", "with space"], "license": ["MIT", "CC", "CC,BY", "a;b", "ä", "", "Apache"],
        "topic": ["law", "med", "en", "code"], "src": ["s1", "s2", "s3"], "quality": ENUMS["quality"], "tags": ENUMS["tags"]}


@contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix="db-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_parser(props, strict=()):
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty

    class HarnessParser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=p, dtype=SCHEMA[p][0], multiple=SCHEMA[p][1], nullable=p not in strict,
                                     enum_options=set(ENUMS[p]) if p in ENUMS else None) for p in props]

        def parse(self, line_number, payload, **kw):
            self.add_metadata(sample_id=line_number, **{k: v for k, v in payload["m"].items()})
    return HarnessParser


def rand_meta(rng, props, pools):
    m = {}
    for p in props:
        if rng.random() < 0.12:
            if rng.random() < 0.5:
                m[p] = None
            continue
        if SCHEMA[p][1]:
            k = rng.choice([1, 1, 1, 2, 2, 3, 0])
            m[p] = rng.sample(pools[p], min(k, len(pools[p])))
        else:
            m[p] = rng.choice(pools[p])
    return m


def rand_dataset(rng, props, maxrows=40):
    pools = {p: rng.sample(POOL[p], rng.choice([1, 2, min(3, len(POOL[p])), len(POOL[p])])) for p in props}
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, rng.randrange(1, maxrows), rng.randrange(1, maxrows)]) if files else rng.randrange(1, maxrows)
        rows = []
        runs = rng.random() < 0.6
        cur = None
        for _ in range(n):
            if cur is None or not runs or rng.random() < 0.3:
                cur = rand_meta(rng, props, pools)
            m = cur
            if rng.random() < 0.3:      # the same values in another order
                m = {k: (rng.sample(v, len(v)) if isinstance(v, list) else v) for k, v in cur.items()}
            rows.append(m)
        files.append(rows)
    return files


def write_dataset(path, files, kind="jsonl"):
    os.makedirs(path)
    out = {}
    for k, rows in enumerate(files):
        f = os.path.join(path, f"f{k}.{kind}")
        with open(f, "w", encoding="utf-8") as fh:
            for i, m in enumerate(rows):
                fh.write(json.dumps({"m": m, "i": i}, ensure_ascii=False) + "\n")
        out[f] = rows
    return out


def parse_text(x):
    return json.loads(x)["i"]


def norm(v, p):
    """the value recorded for a property: None, or the list of values"""
    if v is None:
        return None
    return tuple(sorted(v)) if isinstance(v, list) else (v,)
