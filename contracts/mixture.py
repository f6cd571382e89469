from pyvc import ty
from pyvc.engine import V
from contracts.base import function, sumfn, dsumfn, macro, LIB

M = "mixtera/core/query/mixture/"

function("StaticMixture.parse_user_mixture", M + "static_mixture.py", "StaticMixture.parse_user_mixture", props=["C03", "C17"],
         params={"chunk_size": "Int", "user_mixture": "Dict[Key,Real]"}, returns="Dict[Key,Int]",
         requires=["chunk_size >= 1", "all(user_mixture[k] >= 0 for k in user_mixture)", "dsum_real(user_mixture) == 1"],
         ensures=["forall('Key', lambda k: iff(k in result, k in user_mixture))", "len(result) == len(user_mixture)",
                  "dsum_int(result) == chunk_size",
                  "all(result[k] >= 0 and abs(result[k] - user_mixture[k] * chunk_size) < 1 for k in user_mixture)"],
         params_unchanged=["user_mixture"], nloops=2, opaque_mul=True,
         loops={0: dict(inv=[]),
                1: dict(inv=[
                    "0 <= index and index <= num_keys", "diff >= 0", "num_keys == len(user_mixture)", "num_keys == len(sorted_keys)",
                    "diff + dsum_int(floor_counts) == chunk_size",
                    "diff + index == sumk_real(sorted_keys, fractions)",
                    "forall('Key', lambda k: iff(k in floor_counts, k in user_mixture), trig=(k in floor_counts))",
                    "forall('Key', lambda k: iff(k in floor_counts, k in user_mixture), trig=(k in user_mixture))",
                    "len(floor_counts) == len(user_mixture)",
                    "all(0 <= fractions[sorted_keys[m]] and fractions[sorted_keys[m]] < 1 and sorted_keys[m] in user_mixture for m in range(num_keys))",
                    "all(fractions[k] == chunk_size * user_mixture[k] - floor(chunk_size * user_mixture[k]) for k in user_mixture)",
                    "all(floor_counts[sorted_keys[m]] == floor(chunk_size * user_mixture[sorted_keys[m]]) for m in range(index, num_keys))",
                    "all(floor_counts[k] == floor(chunk_size * user_mixture[k]) or (floor_counts[k] == floor(chunk_size * user_mixture[k]) + 1 and fractions[k] > 0) for k in user_mixture)",
                ], asserts=["index < num_keys", "fractions[sorted_keys[index]] > 0"], decreases="diff")},
         hints=["lem_zero(sorted_keys, 'sumk_real', index, len(sorted_keys), fractions)",
                "lem_le1(sorted_keys, 'sumk_real', 0, index, fractions)",
                "lem_le1(sorted_keys, 'sumk_real', 0, len(sorted_keys), fractions)",
                "lem_keys(fractions, 'dsum_real', 'sumk_real')",
                "lem_mono(fractions, 'dsum_real', 0, len(fractions))",
                "lem_lin(floor_counts, 'dsum_int', fractions, 'dsum_real', chunk_size, user_mixture, 'dsum_real', len(user_mixture))"])

# ---------------------------------------------------------------- C16
function("Mixture._update_training_step", M + "mixture.py", "Mixture._update_training_step", props=["C16"],
         params={"training_steps": "Int"}, fields={"current_step": "Int"}, modifies=["self.current_step"],
         ensures=["self.current_step >= old(self.current_step)", "self.current_step >= training_steps",
                  "self.current_step == old(self.current_step) or self.current_step == training_steps"])

function("Mixture.process_client_feedback", M + "mixture.py", "Mixture.process_client_feedback", props=["C16"],
         params={"feedback": "ClientFeedback"}, fields={"current_step": "Int"}, modifies=["self.current_step"],
         heap={"ClientFeedback.training_steps": "Int", "ClientFeedback.counts": "Opt[Losses]", "ClientFeedback.losses": "Opt[Losses]",
               "ClientFeedback.mixture_id": "Int"},
         ensures=["self.current_step == max(old(self.current_step), feedback.training_steps)"])

SCHED = dict(fields={"schedule": "List[ScheduleEntry]", "current_step": "Int", "chunk_size": "Int", "strict": "Bool"},
             heap={"ScheduleEntry.start_step": "Int", "ScheduleEntry.mixture": "Mixture", "Mixture.chunk_size": "Int"})
macro("steps_sorted", ["s"], "all(all(implies(i < j, s[i].start_step <= s[j].start_step) for j in range(len(s))) for i in range(len(s)))")

function("MixtureSchedule.__init__", M + "mixture_schedule.py", "MixtureSchedule.__init__", props=["C16"],
         params={"chunk_size": "Int", "schedule": "List[ScheduleEntry]"}, **SCHED,
         raises={"RuntimeError": "len(schedule) == 0"},
         ensures=["len(self.schedule) == len(schedule) and len(schedule) > 0", "steps_sorted(self.schedule)",
                  "all(exists('Int', lambda j: 0 <= j and j < len(schedule) and schedule[j] == self.schedule[i]) for i in range(len(self.schedule)))",
                  "all(exists('Int', lambda j: 0 <= j and j < len(schedule) and self.schedule[j] == schedule[i]) for i in range(len(schedule)))",
                  "self.chunk_size == chunk_size", "self.current_step == 0"],
         params_unchanged=["schedule"], loops={0: dict(inv=[])}, calls={"Mixture.adjust_chunk_size": "skip"})

function("MixtureSchedule.current_mixture", M + "mixture_schedule.py", "MixtureSchedule.current_mixture", props=["C16"],
         **SCHED, returns="Mixture", modifies=[],
         requires=["len(self.schedule) > 0", "steps_sorted(self.schedule)"],
         ensures=["exists('Int', lambda j: 0 <= j and j < len(self.schedule) and result == self.schedule[j].mixture"
                  " and ((self.schedule[j].start_step <= self.current_step and all(implies(self.schedule[m].start_step <= self.current_step, self.schedule[m].start_step <= self.schedule[j].start_step) for m in range(len(self.schedule))))"
                  "      or (j == 0 and all(self.schedule[m].start_step > self.current_step for m in range(len(self.schedule))))))"],
         loops={0: dict(inv=["all(self.schedule[m].start_step > self.current_step for m in range(len(self.schedule) - _i0, len(self.schedule)))"])})

# ---------------------------------------------------------------- C03: the constructor normalises and refuses
SM = dict(fields={"_weights": "Dict[Key,Real]", "_mixture": "Dict[Key,Int]", "chunk_size": "Int", "strict": "Bool", "current_step": "Int"})
ROWS = ["forall('Key', lambda k: iff(k in self._mixture, k in {w}))", "dsum_int(self._mixture) == chunk_size"]
function("StaticMixture.__init__", M + "static_mixture.py", "StaticMixture.__init__", props=["C03", "C17"],
         params={"chunk_size": "Int", "mixture": "Dict[Key,Real]", "strict": "Bool"}, **SM, params_unchanged=["mixture"],
         modifies=["self._weights", "self._mixture", "self.chunk_size", "self.strict", "self.current_step"],
         requires=["chunk_size >= 1", "all(mixture[k] >= 0 for k in mixture)"],
         raises={"ValueError": "1000 * abs(dsum_real(mixture) - 1) > max(1, dsum_real(mixture))"},
         ensures=["1000 * abs(dsum_real(mixture) - 1) <= max(1, dsum_real(mixture))",
                  "forall('Key', lambda k: iff(k in self._mixture, k in mixture))", "len(self._mixture) == len(mixture)", "dsum_int(self._mixture) == chunk_size",
                  "all(self._mixture[k] >= 0 and abs(self._mixture[k] - (mixture[k] / dsum_real(mixture)) * chunk_size) < 1 for k in mixture)",
                  "self.chunk_size == chunk_size", "self.strict == strict", "self.current_step == 0"],
         hints=["lem_lin(self._weights, 'dsum_real', self._weights, 'dsum_real', 2 / dsum_real(old(mixture)), old(mixture), 'dsum_real', len(old(mixture)))"])

function("StaticMixture.adjust_chunk_size", M + "static_mixture.py", "StaticMixture.adjust_chunk_size", props=["C03"],
         params={"chunk_size": "Int"}, **SM, modifies=["self._mixture", "self.chunk_size"],
         requires=["chunk_size >= 1", "all(self._weights[k] >= 0 for k in self._weights)", "dsum_real(self._weights) == 1"],
         ensures=["forall('Key', lambda k: iff(k in self._mixture, k in self._weights))", "dsum_int(self._mixture) == chunk_size", "self.chunk_size == chunk_size",
                  "all(self._mixture[k] >= 0 and abs(self._mixture[k] - self._weights[k] * chunk_size) < 1 for k in self._weights)"])

# ---------------------------------------------------------------- C03: hierarchical and inferred mixtures
LIB.ufuncs["node_weights"] = (["MNode"], "Dict[Key,Real]")      # the keys and weights of a mixture tree


def convert(lib, E, node, st):
    E.ext_used.add("convert_to_mixture_key_format gives the keys and weights of the tree (checked concretely)")
    return [(st, E.wf_assume(lib.spec_call(E, "node_weights", [E.ev1(node.args[0], st)], st), st))]


HW = "node_weights({n})"
function("HierarchicalStaticMixture.parse_mixture_node", M + "hierarchical_static_mixture.py", "HierarchicalStaticMixture.parse_mixture_node", props=["C03"],
         params={"chunk_size": "Int", "user_mixture": "MNode"}, returns="Dict[Key,Int]", calls={"self.convert_to_mixture_key_format": convert}, opaque_mul=True,
         requires=["chunk_size >= 1", "all(node_weights(user_mixture)[k] >= 0 for k in node_weights(user_mixture))", "dsum_real(node_weights(user_mixture)) == 1"],
         ensures=["samekeys(result, node_weights(user_mixture))", "dsum_int(result) == chunk_size",
                  "all(result[k] >= 0 and result[k] > node_weights(user_mixture)[k] * chunk_size - 1 for k in node_weights(user_mixture))",
                  "all(result[k] <= node_weights(user_mixture)[k] * chunk_size or posof(result, k) == 0 for k in node_weights(user_mixture))"],
         hints=["lem_sle(result, 'dsum_int', chunk_size, formatted_user_mixture, 'dsum_real', len(result))"])

RNG = "List[Tuple[Int,Int]]"
FE, PART = f"Dict[Int,{RNG}]", f"Dict[Int,Dict[Int,{RNG}]]"


def _ds(name):
    return lambda k, v: LIB.dsums[name].fn()(ty.d_keys(v.t, v.z), ty.d_val(v.t, v.z), ty.d_n(v.t, v.z))


dsumfn("fmass", "Int", RNG, [], "Int", lambda k, v: LIB.sums["rlen"].fn()(ty.l_arr(v.t, v.z), ty.l_len(v.t, v.z)))      # samples of a dataset's files
dsumfn("pmass", "Int", FE, [], "Int", _ds("fmass"))              # samples of a component
dsumfn("imass", "Key", PART, [], "Int", _ds("pmass"))            # samples of the index
IT = ty.parse(f"Tuple[Key,{PART}]")
sumfn("items_mass", f"Tuple[Key,{PART}]", [], "Int", lambda e: _ds("pmass")(None, V(ty.parse(PART), ty.acc(e.t, e.z, 1))))
PMS = "partition_masses"
function("infer_mixture_from_chunkerindex", "mixtera/core/datacollection/index/index_utils.py", "infer_mixture_from_chunkerindex", props=["C03"],
         params={"chunker_index": f"Dict[Key,{PART}]"}, returns="Tuple[Int,Dict[Key,Real]]", params_unchanged=["chunker_index"],
         locals={PMS: "Dict[Key,Real]", "_sum": "Int"},
         requires=["all(pmass(chunker_index[k]) > 0 for k in chunker_index)"],
         ensures=["result[0] == imass(chunker_index)", "samekeys(result[1], chunker_index)",
                  "all(result[1][k] == pmass(chunker_index[k]) / result[0] for k in chunker_index)", "all(result[1][k] >= 0 for k in chunker_index)",
                  "implies(len(chunker_index) > 0, result[0] > 0 and dsum_real(result[1]) == 1)", "implies(len(chunker_index) == 0, result[0] == 0)",
                  "forall('Int,Int', lambda i, j: implies(0 <= i and i < j and j < len(result[1]), not keylt(result[1].order[j], result[1].order[i])), trig=(result[1].order[i], result[1].order[j]))"],
         loops={0: dict(inv=[f"total_count == items_mass(_it0, _i0) and len({PMS}) == _i0 and total_count >= _i0",
                             f"forall('Int', lambda m: implies(0 <= m and m < _i0, {PMS}.order[m] == _it0[m][0] and {PMS}[_it0[m][0]] == pmass(_it0[m][1])), trig=(_it0[m]))",
                             f"forall('Int', lambda m: implies(0 <= m and m < _i0, {PMS}.order[m] == _it0[m][0]), trig=({PMS}.order[m]))"]),
                1: dict(inv=["_sum == pmass(partition, _i1)"]),
                2: dict(inv=["_sum == pmass(partition, _i1) + fmass(file_entry, _i2)"]),
                3: dict(inv=["_sum == pmass(partition, _i1) + fmass(file_entry, _i2) + rlen(ranges, _i3)"]),
                4: dict(inv=[f"len({PMS}) == len(_it0) and total_count == items_mass(_it0) and implies(len(_it0) > 0, total_count > 0)",
                             f"forall('Int', lambda m: implies(0 <= m and m < len(_it0), {PMS}.order[m] == _it0[m][0] and {PMS}[_it0[m][0]] == pmass(_it0[m][1]) / (total_count if m < _i4 else 1)), trig=(_it0[m]))",
                             f"forall('Int', lambda m: implies(0 <= m and m < len(_it0), {PMS}.order[m] == _it0[m][0]), trig=({PMS}.order[m]))"])},
         cuts={1: ["forall('Int', lambda m: implies(0 <= m and m < len(chunker_index), _unsorted0[m][0] == chunker_index.order[m]), trig=(chunker_index.order[m]))",
                   f"forall('Int', lambda m: implies(0 <= m and m < len(chunker_index), _unsorted0[m][0] in {PMS}), trig=(chunker_index.order[m]))",
                   f"forall('Key', lambda k: implies(k in chunker_index, k in {PMS}), trig=(k in chunker_index))",
                   f"forall('Int', lambda m: implies(0 <= m and m < len(_it0), _it0[m][0] in chunker_index), trig=(_it0[m]))",
                   f"forall('Key', lambda k: implies(k in {PMS}, k in chunker_index), trig=(k in {PMS}))",
                   f"len({PMS}) == len(chunker_index)"],
               2: (C2 := [f"forall('Int', lambda m: implies(0 <= m and m < len(chunker_index), {PMS}[_unsorted0[m][0]] == pmass(_unsorted0[m][1]) / total_count), trig=(chunker_index.order[m]))",
                          "forall('Int', lambda m: implies(0 <= m and m < len(chunker_index), _unsorted0[m][0] == chunker_index.order[m] and _unsorted0[m][1] == chunker_index[chunker_index.order[m]]), trig=(chunker_index.order[m]))",
                          f"forall('Int', lambda m: implies(0 <= m and m < len(chunker_index), {PMS}[chunker_index.order[m]] == pmass(chunker_index[chunker_index.order[m]]) / total_count), trig=(chunker_index.order[m]))"]),
               3: C2},
         hints=["lem_eq(_unsorted0, 'items_mass', chunker_index, 'imass', len(chunker_index))",
                f"lem_lin({PMS}, 'dsum_real', {PMS}, 'dsum_real', 2 / total_count, _it0, 'items_mass', len(_it0))"])

IM = dict(fields={"_mixture": "Dict[Key,Int]", "chunk_size": "Int"})
function("InferringMixture.process_index", M + "inferring_mixture.py", "InferringMixture.process_index", props=["C03"],
         params={"chunker_index": f"Dict[Key,{PART}]"}, returns="None", **IM, modifies=["self._mixture"],
         calls={"StaticMixture.parse_user_mixture": "contract:StaticMixture.parse_user_mixture", "infer_mixture_from_chunkerindex": "contract:infer_mixture_from_chunkerindex"}, params_unchanged=["chunker_index"],
         requires=["all(pmass(chunker_index[k]) > 0 for k in chunker_index)", "self.chunk_size >= 1"],
         ensures=["samekeys(self._mixture, chunker_index)", "implies(len(chunker_index) > 0, dsum_int(self._mixture) == self.chunk_size)",
                  "all(self._mixture[k] >= 0 and abs(self._mixture[k] - pmass(chunker_index[k]) / imass(chunker_index) * self.chunk_size) < 1 for k in chunker_index)"])
