from contracts.base import function, sumfn, macro, LIB

D = "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py"
S = "mixtera/core/algo/loss_avg/loss_avg.py"
F = dict(fields={"losses": "Nd[Real]", "counts": "Nd[Int]", "last_received_mixture": "Int"})
macro("at0", ["a", "i"], "(a[i] if i < len(a) else 0)")
ACC = ["len(self.losses) == max(len(old(self.losses)), len(losses))", "len(self.counts) == len(self.losses)",
       "all(self.losses[i] == at0(old(self.losses), i) + at0(losses, i) for i in range(len(self.losses)))",
       "all(self.counts[i] == at0(old(self.counts), i) + at0(counts, i) for i in range(len(self.counts)))"]

function("DynamicMixingAlgorithm._update_state", D, "DynamicMixingAlgorithm._update_state", props=["C17"],
         params={"losses": "Nd[Real]", "counts": "Nd[Int]"}, **F, modifies=["self.losses", "self.counts"], params_unchanged=["losses", "counts"],
         requires=["len(losses) == len(counts)", "len(self.losses) == len(self.counts)"], ensures=ACC)

function("DynamicMixingAlgorithm.reset_state", D, "DynamicMixingAlgorithm.reset_state", props=["C17"],
         **F, modifies=["self.losses", "self.counts"], ensures=["len(self.losses) == 0", "len(self.counts) == 0"])

function("SimpleAveragingAlgorithm.calc_mixture", S, "SimpleAveragingAlgorithm.calc_mixture", props=["C17"],
         params={"updated_at_client": "Bool"}, **F, modifies=[], returns="Opt[Nd[Real]]",
         requires=["len(self.losses) == len(self.counts)", "all(l >= 0 for l in self.losses)"],
         ensures=["iff(result is None, all(c <= 0 for c in self.counts))",
                  "implies(result is not None, len(val(result)) == len(self.losses))",
                  "implies(result is not None, all(val(result)[i] >= 0 for i in range(len(self.losses))))",
                  "implies(result is not None, sum_real(val(result)) == 1)",
                  "implies(result is not None, all(implies(self.counts[i] <= 0, val(result)[i] == 0) for i in range(len(self.losses))))"],
         hints=["lem_pos(_sum0)", "lem_pos(_sum1)", "lem_scale(_sum2, 1 / sum_int(_sum1), _sum1)", "lem_scale(_sum2, mixture_sum, mixture)",
                "lem_scale(_sum0, total_avg_loss, _sum1)", "lem_scale(_sum1, mixture_sum, mixture)"])


def calc(lib, E, node, st):
    """self.calc_mixture(flag) of the concrete algorithm: some function of the accumulated state and the flag"""
    from pyvc import ty
    fl = E.coerce(E.ev1(node.args[0] if node.args else node.keywords[0].value, st), ty.BOOL, st)
    l, c = st.env["fld:self.losses"], st.env["fld:self.counts"]
    E.ext_used.add("calc_mixture of the concrete algorithm does not change the accumulated losses and counts")
    return [(st, E.wf_assume(lib.spec_call(E, "proposed", [l, c, fl], st), st))]


function("DynamicMixingAlgorithm.process_losses", D, "DynamicMixingAlgorithm.process_losses", props=["C17"],
         params={"losses": "Nd[Real]", "counts": "Nd[Int]", "mixture_id": "Int"}, **F, returns="Opt[Nd[Real]]",
         modifies=["self.losses", "self.counts", "self.last_received_mixture"], params_unchanged=["losses", "counts"],
         requires=["len(losses) == len(counts)", "len(self.losses) == len(self.counts)"],
         spec_funcs={"proposed": (["Nd[Real]", "Nd[Int]", "Bool"], "Opt[Nd[Real]]")}, calls={"self.calc_mixture": calc},
         ensures=ACC + ["self.last_received_mixture == max(old(self.last_received_mixture), mixture_id)",
                        "result == proposed(self.losses, self.counts, mixture_id > old(self.last_received_mixture))"])


# ---------------------------------------------------------------- a proposal becomes the mixture in use
def build(lib, E, node, st):
    """StaticMixture(chunk_size, weights, strict): weights are recorded, non-negativity is an obligation"""
    from pyvc import ty
    from pyvc.engine import V
    import z3
    kw = {k.arg: k.value for k in node.keywords}
    a = list(node.args)
    cs = E.coerce(E.ev1(a[0] if a else kw["chunk_size"], st), ty.INT, st)
    w = E.coerce(E.ev1(a[1] if len(a) > 1 else kw["mixture"], st), ty.parse("Dict[Key,Real]"), st)
    sr = E.coerce(E.ev1(a[2], st) if len(a) > 2 else E.ev1(kw["strict"], st) if "strict" in kw else E.const(True), ty.BOOL, st)
    w = E.named(w, st, "weights")
    st.env["ghost:built"] = w
    k = ty.fresh("k", ty.sort(w.t.args[0]))
    E.emit("weights handed to StaticMixture are non-negative", st, z3.ForAll([k], z3.Implies(z3.Select(ty.d_dom(w.t, w.z), k), z3.Select(ty.d_val(w.t, w.z), k) >= 0)), "call", node.lineno)
    return [(st, lib.spec_call(E, "static_mixture", [cs, w, sr], st))]


DM = "mixtera/core/query/mixture/dynamic_mixture.py"
function("DynamicMixture._process_losses", DM, "DynamicMixture._process_losses", props=["C17"],
         params={"losses": "Nd[Real]", "counts": "Nd[Int]", "mixture_id": "Int"},
         fields={"_current_mixture": "Mixture", "_mixing_alg": "Alg", "_informed_alg": "Bool", "_key_id_map": "Opt[Dict[Key,Int]]",
                 "_id_key_map": "Opt[Dict[Int,Key]]", "chunk_size": "Int", "strict": "Bool"},
         modifies=["self._current_mixture"], params_unchanged=["losses", "counts"],
         spec_funcs={"proposal": (["Alg", "Nd[Real]", "Nd[Int]", "Int"], "Opt[Nd[Real]]"), "static_mixture": (["Int", "Dict[Key,Real]", "Bool"], "Mixture")},
         calls={"Alg.process_losses": lambda lib, E, node, st: [(st, E.wf_assume(lib.spec_call(E, "proposal", [E.ev1(node.func.value, st)] + [E.ev1(x, st) for x in node.args], st), st))],
                "StaticMixture": build},
         ghost={"built": ("Dict[Key,Real]", None)},
         requires=["self._key_id_map is not None and self._id_key_map is not None", "self._informed_alg", "mixture_id >= 0",
                   # a proposal is a distribution over the known components (contract of the algorithm)
                   "implies(some(proposal(self._mixing_alg, losses, counts, mixture_id)), all(0 <= p for p in val(proposal(self._mixing_alg, losses, counts, mixture_id)))"
                   " and all(i in val(self._id_key_map) for i in range(len(val(proposal(self._mixing_alg, losses, counts, mixture_id))))))",
                   "all(all(implies(i != j, val(self._id_key_map)[i] != val(self._id_key_map)[j]) for j in val(self._id_key_map)) for i in val(self._id_key_map))"],
         raises={"AssertionError": "some(proposal(self._mixing_alg, losses, counts, mixture_id))"},
         ensures=["implies(proposal(self._mixing_alg, losses, counts, mixture_id) is None, self._current_mixture == old(self._current_mixture))",
                  "implies(some(proposal(self._mixing_alg, losses, counts, mixture_id)), self._current_mixture == static_mixture(self.chunk_size, built, self.strict)"
                  " and all(implies(val(proposal(self._mixing_alg, losses, counts, mixture_id))[i] > 0, val(self._id_key_map)[i] in built"
                  " and built[val(self._id_key_map)[i]] == val(proposal(self._mixing_alg, losses, counts, mixture_id))[i]) for i in range(len(val(proposal(self._mixing_alg, losses, counts, mixture_id)))))"
                  " and all(exists('Int', lambda i: 0 <= i and i < len(val(proposal(self._mixing_alg, losses, counts, mixture_id))) and val(self._id_key_map)[i] == k"
                  " and val(proposal(self._mixing_alg, losses, counts, mixture_id))[i] > 0) for k in built))"])
