"""C08: reading a chunk"""
from pyvc import ty
from contracts.base import function, macro, sumfn, LIB, tup

R = "mixtera/core/query/result_chunk.py"
KC = "List[Tuple[Key,Int]]"
sumfn("second", "Tuple[Key,Int]", [], "Int", lambda e: tup(e, 1))

function("ResultChunk._get_element_counts", R, "ResultChunk._get_element_counts", props=["C08"],
         params={}, returns=KC, fields={"_mixture": "Dict[Key,Int]", "_window_size": "Int", "_chunk_size": "Int"}, modifies=[],
         requires=["self._window_size >= 1 and self._chunk_size >= 1", "all(self._mixture[k] >= 0 for k in self._mixture)", "dsum_int(self._mixture) == self._chunk_size"],
         ensures=["len(result) == len(self._mixture)", "all(result[i][0] == self._mixture.order[i] for i in range(len(result)))",
                  "implies(len(result) > 0, second(result) == self._window_size)",
                  "all(result[i][1] >= floor(self._window_size * (self._mixture[result[i][0]] / self._chunk_size)) for i in range(len(result)))",
                  "all(implies(i > 0, result[i][1] == floor(self._window_size * (self._mixture[result[i][0]] / self._chunk_size))) for i in range(len(result)))"],
         opaque_mul=True, opaque_div=True,
         hints=["lem_eq(_sum0, 'sum_int', initial_counts, 'second', len(initial_counts))", "lem_diff(initial_counts, 'second', adjusted_counts, 'second', len(initial_counts), 0)",
                "lem_sle(initial_counts, 'second', self._window_size / self._chunk_size, self._mixture, 'dsum_int', len(initial_counts))"])

function("ResultChunk._get_process_counts", R, "ResultChunk._get_process_counts", props=["C08"],
         params={}, returns="Dict[Key,Int]", fields={"_mixture": "Dict[Key,Int]", "_degree_of_parallelism": "Opt[Int]", "_chunk_size": "Int"}, modifies=[],
         calls={"mp.cpu_count": "pure:Int:cpus"},
         requires=["self._chunk_size >= 1 and len(self._mixture) >= 1", "all(self._mixture[k] >= 0 for k in self._mixture)", "dsum_int(self._mixture) == self._chunk_size"],
         ensures=["forall('Key', lambda k: iff(k in result, k in self._mixture), trig=(k in result))",
                  "dsum_int(result) == min(val(self._degree_of_parallelism) if some(self._degree_of_parallelism) else ext_cpus(), ext_cpus())"], spec_funcs={"ext_cpus": ([], "Int")})

ENTRY = "Tuple[Int,Int,Ranges]"
IDX = "Dict[Key,Dict[Int,Dict[Int,Ranges]]]"
RI = "self._result_index"
WL = "workloads"


def sub(cond, w):
    """the condition on (k, d, f) for the i-th entry of w[k]"""
    import re
    return re.sub(r"\bf\b", f"{w}[k][i][1]", re.sub(r"\bd\b", f"{w}[k][i][0]", cond))


def listed(w, done, at="at"):
    """w[k] lists the files of component k, each once, with its ranges"""
    return [f"forall('Key,Int,Int', lambda k, d, f: implies(k in {RI} and d in {RI}[k] and f in {RI}[k][d] and {done}, k in {w} and 0 <= {at}[k][d][f] and {at}[k][d][f] < len({w}[k])"
            f" and {w}[k][{at}[k][d][f]][0] == d and {w}[k][{at}[k][d][f]][1] == f and {w}[k][{at}[k][d][f]][2] == {RI}[k][d][f]), trig=(f in {RI}[k][d]))",
            f"forall('Key,Int', lambda k, i: implies(k in {w} and 0 <= i and i < len({w}[k]), {w}[k][i][0] in {RI}[k] and {w}[k][i][1] in {RI}[k][{w}[k][i][0]]"
            f" and {sub(done, w)} and {w}[k][i][2] == {RI}[k][{w}[k][i][0]][{w}[k][i][1]] and {at}[k][{w}[k][i][0]][{w}[k][i][1]] == i), trig=({w}[k][i]))"]


def keys_upto(e):
    return [f"forall('Key', lambda k: iff(k in workloads, k in {RI} and posof({RI}, k) {e}), trig=(k in workloads))",
            f"forall('Key', lambda k: iff(k in workloads, k in {RI} and posof({RI}, k) {e}), trig=(k in {RI}))"]


P0 = f"posof({RI}, k) < a"
P1 = f"({P0} or k == property_combination and posof({RI}[k], d) < b)"
P2 = f"({P0} or k == property_combination and (posof({RI}[k], d) < b or posof({RI}[k], d) == b and posof({RI}[k][d], f) < c))"
function("ResultChunk._prepare_workloads", R, "ResultChunk._prepare_workloads", props=["C08"],
         params={}, returns=f"Dict[Key,List[{ENTRY}]]", fields={"_result_index": IDX}, modifies=[],
         locals={"workloads": f"Dict[Key,List[{ENTRY}]]"}, calls={"seed_everything_from_list": "skip"},
         ghost={"at": ("Map[Key,Map[Int,Map[Int,Int]]]", None)},
         ensures=[f"forall('Key', lambda k: iff(k in result, k in {RI}), trig=(k in result))",
                  f"forall('Key', lambda k: iff(k in result, k in {RI}), trig=(k in {RI}))"] + listed("result", "True"),
         loops={0: dict(index="a", inv=keys_upto("< a") + listed("workloads", P0),
                        ghost_end=[("at", "lambda k, d, f: _perminv[at[k][d][f]] if k == property_combination else at[k][d][f]")]),
                1: dict(index="b", inv=keys_upto("<= a") + listed("workloads", P1)),
                2: dict(index="c", inv=keys_upto("<= a") + listed("workloads", P2),
                        ghost_end=[("at", "lambda k, d, f: (len(workloads[k]) - 1) if k == property_combination and d == dataset_id and f == file_id else at[k][d][f]")])})

# ---------------------------------------------------------------- the samples of the components' iterators, interleaved
AI, OUT = "active_iterators", "_out"
ITERS = "Dict[Key,Iter[Sample]]"
WH = "where[k][j]"
# where[k][j]: the place in the output of the j-th sample of component k; kf/jf: component and number of the i-th sample put out
MERGED = [
    f"forall('Key', lambda k: iff(k in {AI}, k in old({AI})), trig=(k in {AI}))",
    f"forall('Key', lambda k: implies(k in {AI}, {AI}[k].n == old({AI})[k].n and {AI}[k].seq == old({AI})[k].seq and 0 <= {AI}[k].pos and {AI}[k].pos <= {AI}[k].n), trig=({AI}[k]))",
    f"forall('Key,Int', lambda k, j: implies(k in {AI} and 0 <= j and j < {AI}[k].pos, 0 <= {WH} and {WH} < len({OUT}) and {OUT}[{WH}][0] == self._key_id_map[k] and {OUT}[{WH}][1] == old({AI})[k].seq[j] and kf[{WH}] == k and jf[{WH}] == j), trig=({WH}))",
    f"forall('Int', lambda i: implies(0 <= i and i < len({OUT}), kf[i] in {AI} and 0 <= jf[i] and jf[i] < {AI}[kf[i]].pos and where[kf[i]][jf[i]] == i), trig=(kf[i]))",
    f"forall('Key,Int,Int', lambda k, j, m: implies(k in {AI} and 0 <= j and j < m and m < {AI}[k].pos, where[k][j] < where[k][m]), trig=(where[k][j], where[k][m]))"]


def step(key):
    """ghost updates when the sample the iterator of component `key` gave last is put out"""
    return [("where", f"lambda k, j: len({OUT}) if k == {key} and j == {AI}[{key}].pos - 1 else where[k][j]"),
            ("kf", f"lambda i: {key} if i == len({OUT}) else kf[i]"), ("jf", f"lambda i: {AI}[{key}].pos - 1 if i == len({OUT}) else jf[i]")]


DONE = f"forall('Key', lambda k: implies(k in deleted_keys, k in {AI} and {AI}[k].pos == {AI}[k].n), trig=(k in deleted_keys))"
GH = {"where": ("Map[Key,Map[Int,Int]]", None), "kf": ("Map[Int,Key]", None), "jf": ("Map[Int,Int]", None)}
INTER = dict(fields={"_key_id_map": "Dict[Key,Int]"}, yields="Tuple[Int,Sample]", ghost=GH, returns="None")
START = [f"forall('Key', lambda k: implies(k in {AI}, k in self._key_id_map and {AI}[k].pos == 0), trig=(k in {AI}))"]
ALLDONE = f"forall('Key', lambda k: implies(k in {AI}, {AI}[k].pos == {AI}[k].n), trig=(k in {AI}))"
function("ResultChunk._iterate_overall_mixture", R, "ResultChunk._iterate_overall_mixture", props=["C08", "C06"],
         params={AI: ITERS}, **INTER, modifies=[], calls={"seed_everything_from_list": "skip"}, locals={"deleted_keys": "Set[Key]"},
         requires=START, ensures=MERGED + [ALLDONE], on_yield=step("property_name"),
         loops={0: dict(inv=MERGED + [DONE, f"forall('Int', lambda i: implies(0 <= i and i < len(property_names), property_names[i] in {AI}), trig=(property_names[i]))"]),
                1: dict(inv=MERGED + [DONE])},
         hints=[f"lem_subset(deleted_keys, {AI})"])

EC = "element_counts"
SLOT = lambda k: f"_perminv[posof(self._mixture, {k})]"     # where the share of component k stands in element_counts
KEYED = [f"forall('Int', lambda i: implies(0 <= i and i < len({EC}), {EC}[i][0] in {AI} and {SLOT(EC + '[i][0]')} == i and {EC}[i][1] >= 0), trig=({EC}[i]))",
         f"forall('Key', lambda k: implies(k in {AI}, 0 <= {SLOT('k')} and {SLOT('k')} < len({EC}) and {EC}[{SLOT('k')}][0] == k), trig=(k in {AI}))"]
STOP = "iff(outer_stop, len(deleted_keys) > 0)"
INWIN = ["0 <= items_yielded and items_yielded <= self._window_size",
         f"forall('Key', lambda k: implies(k in {AI}, k in processed_items and 0 <= processed_items[k] and processed_items[k] <= {EC}[{SLOT('k')}][1]), trig=(k in {AI}))",
         f"forall('Key', lambda k: implies(k in {AI}, k in processed_items and 0 <= processed_items[k] and processed_items[k] <= {EC}[{SLOT('k')}][1]), trig=(processed_items[k]))"]
function("ResultChunk._iterate_window_mixture", R, "ResultChunk._iterate_window_mixture", props=["C08", "C06"],
         params={AI: ITERS}, yields="Tuple[Int,Sample]", returns="None", ghost=dict(GH, gone=("Int", "0")),
         fields={"_key_id_map": "Dict[Key,Int]", "_mixture": "Dict[Key,Int]", "_window_size": "Int", "_chunk_size": "Int", "_window_best_effort": "Bool"},
         modifies=[], calls={"seed_everything_from_list": "skip"}, locals={"deleted_keys": "Set[Key]"},
         requires=START + ["self._window_size >= 1 and self._chunk_size >= 1", "all(self._mixture[k] >= 0 for k in self._mixture)", "dsum_int(self._mixture) == self._chunk_size",
                           f"forall('Key', lambda k: iff(k in self._mixture, k in {AI}), trig=(k in self._mixture))", f"forall('Key', lambda k: iff(k in self._mixture, k in {AI}), trig=(k in {AI}))"],
         ensures=MERGED + [f"implies(self._window_best_effort, {ALLDONE})"], on_yield=step("property_key"),
         at_yield=["processed_items[property_key] < property_count and items_yielded < self._window_size", "self._window_best_effort or gone == 0"],
         loops={0: dict(inv=MERGED + [DONE, STOP] + KEYED, ghost_start=[("gone", "len(deleted_keys)")]),
                1: dict(inv=MERGED + [DONE, STOP] + KEYED + INWIN),
                2: dict(inv=MERGED + [DONE, STOP] + KEYED + INWIN + ["items_yielded < self._window_size"])},
         hints=[f"lem_subset(deleted_keys, {AI})"])
