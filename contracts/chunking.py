"""C01: cutting the index into chunks.  gd, gf, gr: an arbitrary row (dataset, file, row) of the data"""
import z3
from pyvc import ty
from contracts.base import function, sumfn, macro
from contracts.mixture import FE, PART, RNG

Q = "mixtera/core/query/query_result.py"
sumfn("covers", "Tuple[Int,Int]", ["Int"], "Int", lambda e, r: z3.If(z3.And(ty.acc(e.t, e.z, 0) <= r.z, r.z < ty.acc(e.t, e.z, 1)), z3.IntVal(1), z3.IntVal(0)))
macro("covf", ["p", "f", "r"], "(covers(p[f], r) if f in p else 0)")        # how often the row is in the ranges of a dataset's files
macro("cov", ["p", "d", "f", "r"], "(covf(p[d], f, r) if d in p else 0)")     # how often the row is in a partition
DD = f"DefaultDict[Int,DefaultDict[Int,{RNG}]]"
CUR = "current_partition"
OUT = f"given + cov({CUR}, gd, gf, gr)"
MASS = f"current_cardinality == pmass({CUR}) and current_cardinality >= 0 and component_cardinality >= 0 and (current_cardinality < component_cardinality or current_cardinality == 0) and implies(current_cardinality == 0, cov({CUR}, gd, gf, gr) == 0)"
DPART = "(0 if not ddone else cov(target_ranges, gd, gf, gr))"
THIS = "dataset_id == gd"
FPART = f"({DPART} + (covf(document_entries, gf, gr) if fdone and {THIS} else 0))"
HERE = f"({THIS} and file_id == gf)"
RPART = f"({FPART} + (covers(ranges, _i2, gr) if {HERE} else 0))"


def visited(it, i, key, g, done):
    """done: one of the first i pairs has the key g"""
    return [f"forall('Int', lambda m: implies(0 <= m and m < {i}, {done} or {it}[m][0] != {g}), trig=({it}[m]))",
            f"forall('Int', lambda m: implies({i} <= m and m < len({it}), implies({it}[m][0] == {g}, not {done})), trig=({it}[m]))"]


function("QueryResult._generate_per_mixture_component_chunks", Q, "QueryResult._generate_per_mixture_component_chunks", props=["C01", "C02"],
         params={"chunker_index": f"Dict[Key,{PART}]", "component_key": "Key"}, yields=PART, sends="Int", send_requires=["_sent >= 0"],
         params_unchanged=["chunker_index"], calls={"defaultdict_to_dict": "arg:0"}, locals={CUR: DD, "current_range": "Tuple[Int,Int]"},
         ghost={"gd": ("Int", None), "gf": ("Int", None), "gr": ("Int", None), "given": ("Int", "0"), "ddone": ("Bool", "False"), "fdone": ("Bool", "False")},
         requires=["component_key in chunker_index"],
         on_yield=[("given", "given + cov(_y, gd, gf, gr)")],
         at_yield=["implies(_i0 < len(_it0), pmass(_y) == component_cardinality)",      # while there is data left
                   "implies(_i0 >= len(_it0), 0 < pmass(_y) and pmass(_y) < component_cardinality and given + cov(_y, gd, gf, gr) == cov(target_ranges, gd, gf, gr))"],
         ensures=["given == cov(chunker_index[component_key], gd, gf, gr)"],
         loops={0: dict(inv=[MASS, f"{OUT} == {DPART}"] + visited("_it0", "_i0", "dataset_id", "gd", "ddone"),
                        ghost_start=[("fdone", "False")], ghost_end=[("ddone", f"ddone or {THIS}")],
                        exit_asserts=["implies(gd in target_ranges, _unsorted0[posof(target_ranges, gd)][0] == gd)", "implies(gd in target_ranges, ddone)", f"{OUT} == cov(target_ranges, gd, gf, gr)"]),
                1: dict(inv=[MASS, f"{OUT} == {FPART}"] + visited("_it1", "_i1", "file_id", "gf", "fdone"), ghost_end=[("fdone", "fdone or file_id == gf")],
                        exit_asserts=["implies(gf in document_entries, _unsorted1[posof(document_entries, gf)][0] == gf)", "implies(gf in document_entries, fdone)",
                                      f"{OUT} == {DPART} + (covf(document_entries, gf, gr) if {THIS} else 0)"]),
                2: dict(inv=[MASS, f"{OUT} == {RPART}"]),
                3: dict(inv=[MASS, "current_range[1] == base_range[1] and current_range[0] >= base_range[0] and implies(continue_processing, current_range[0] < current_range[1])",
                             f"{OUT} + (1 if {HERE} and continue_processing and current_range[0] <= gr and gr < current_range[1] else 0) == {RPART} + (1 if {HERE} and base_range[0] <= gr and gr < base_range[1] else 0)"])})
