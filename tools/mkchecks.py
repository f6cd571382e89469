"""writes checks.json: per property the level, budgets and what the bounded part covers"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(f"{V}/contracts/baseline.json"))
B = {
 "C01": "whole runs of ChunkerIndex results through QueryResult (native extension and pure Python) with random indexes, mixtures, chunk sizes and mixture updates",
 "C02": "as C01, per chunk against the mixture in force (exact rational arithmetic), exhaustion and best-effort redistribution included",
 "C03": "hierarchical, inferring and dynamic mixtures and floating point: random weights, keys and chunk sizes against exact rational arithmetic",
 "C04": "ChunkDistributor with random groups, nodes and workers under random interleavings of requests",
 "C05": "random runs with checkpoints at random points, restored in a fresh process state and compared with the uninterrupted continuation",
 "C06": "random histories of mixture updates, checkpoints and cache round trips",
 "C07": "repeated executions with different hash seeds, table fill orders, thread counts and random states",
 "C08": "ResultChunk over random contents, window sizes, reader counts and prefetch settings",
 "C09": "TokenizingIterator over random streams with stub tokenizers against the concatenated token stream",
 "C10": "jsonl (all compressions), parquet (random row groups) and webdataset files with random row ranges",
 "C11": "queries over real DuckDB databases and the C++ chunker extension against direct evaluation of the conditions",
 "C12": "histories of queries, caching, removals and simulated crashes against fresh execution",
 "C13": "random messages in random splits with the connection ending at every byte; server and local client side by side",
 "C14": "histories of registrations, failures, removals and reopening against a reference registry",
 "C15": "random keys against direct evaluation of the definitions",
 "C16": "random schedules and feedback orders against the definition",
 "C17": "random loss reports against exact sums; random reports through all dynamic mixing algorithms",
 "C18": "random files and batch sizes through the local executor",
 "C19": "random indexes with zero to several writer processes",
 "C20": "torch dataset and data loader integration with stub clients, the prefetching iterator and the feedback helper",
 "C21": "random payloads through all built-in and generated metadata parsers",
}
BUD = {"C03": 30, "C05": 60, "C07": 60, "C01": 50, "C02": 50, "C04": 40, "C11": 50, "C12": 50, "C14": 50, "C20": 50}
ready = [p for p in B if os.path.exists(f"{V}/harness/{p.lower()}.py")]
proved = {}
import sys
sys.path.insert(0, V)
import importlib, pkgutil, contracts
from contracts.base import LIB
for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + m.name)
for fs in LIB.by_id.values():
    if base.get(fs.id, {}).get("status") == "proved":
        for p in fs.props:
            proved.setdefault(p, []).append(fs.qual)
out = {}
for p in ready:
    e = {"budget": BUD.get(p, 40), "thorough_budget": 400, "bounded": B[p]}
    if p in proved:
        e["level"] = "proof"
        e["technique"] = "contract-based deductive verification of the real Python source (pyvc: VCs from the AST, z3/cvc5); bounded stand-in by contract evaluation at run time"
        e["note"] = f"proved for all inputs: {', '.join(sorted(proved[p]))}. Bounded (never counted as proved): {B[p]}"
    else:
        e["level"] = "exploration"
        e["technique"] = "bounded stand-in: the property's contract evaluated at run time on the real code"
        e["note"] = f"no function of this property is proved; bounded: {B[p]}"
    e["assumptions"] = []
    out[p] = e
json.dump(out, open(f"{V}/checks.json", "w"), indent=1)
