"""C04: distribution of chunks over data-parallel groups, nodes and workers"""
import z3
from pyvc import ty
from pyvc.engine import V
from pyvc.ty import INT
from contracts.base import function, macro, sumfn, LIB

C = "mixtera/core/query/chunk_distributor.py"
DD = ty.parse("Dict[Int,Dict[Int,Int]]")


def past_w(e, d, w, c):
    row = z3.Select(ty.d_val(DD, d.z), e.z)
    return z3.If(z3.Select(ty.d_val(DD.args[1], row), w.z) > c.z, z3.IntVal(1), z3.IntVal(0))


# number of nodes of a group (rows of the group's table of next chunks) whose worker w is already past chunk c
sumfn("past", "Int", ["Dict[Int,Dict[Int,Int]]", "Int", "Int"], "Int", past_w)
FIELDS = {"_dp_groups": "Int", "_num_workers": "Int", "_og_num_workers": "Int", "_nodes_per_group": "Int", "_query_result": "QR", "_constructor_pid": "Int",
          "_chunk_cache": "Dict[Int,Dict[Int,Chunk]]", "_chunk_usage": "Dict[Int,Dict[Int,Int]]", "_next_chunk": "Dict[Int,Dict[Int,Dict[Int,Int]]]"}
LIB.ufuncs["wk"] = (["Int"], "Int")     # chunk number modulo the number of workers: the worker a chunk is for
MOD = ["forall('Int', lambda c: wk(c + self._num_workers) == wk(c) and wk(c - self._num_workers) == wk(c), trig=(wk(c)))",
       "forall('Int', lambda c: implies(0 <= c and c < self._num_workers, wk(c) == c), trig=(wk(c)))",
       "forall('Int', lambda c: 0 <= wk(c) and wk(c) < self._num_workers, trig=(wk(c)))",
       "forall('Int,Int', lambda c, d: implies(c < d and d < c + self._num_workers, wk(c) != wk(d)), trig=(wk(c), wk(d)))"]


def mod_lemmas():
    """wk(c) is the remainder r of c = q * N + r; the facts in MOD follow"""
    N, c, q, r, q2, r2, d, k = z3.Ints("N c q r q2 r2 d k")
    rem = lambda c, q, r: [N >= 1, c == q * N + r, 0 <= r, r < N]
    step = lambda k: z3.Implies(z3.And(k * N > -N, k * N < N), k == 0)
    return [("lemma remainder (multiples)", [N >= 1, k * N > -N, k * N < N], k == 0),
            ("lemma remainder (plus N)", rem(c, q, r) + rem(c + N, q2, r2) + [step(q2 - q - 1)], r == r2),
            ("lemma remainder (minus N)", rem(c, q, r) + rem(c - N, q2, r2) + [step(q2 - q + 1)], r == r2),
            ("lemma remainder (below N)", rem(c, q, r) + [0 <= c, c < N, step(q)], r == c),
            ("lemma remainder (distinct)", rem(c, q, r) + rem(d, q2, r2) + [c < d, d < c + N, step(q2 - q)], r != r2)]


LIB.extra_lemmas += mod_lemmas()
DIMS = ["self._num_workers >= 1 and self._nodes_per_group >= 1",
        "forall('Int', lambda g: iff(g in self._next_chunk, 0 <= g and g < self._dp_groups), trig=(g in self._next_chunk))",
        "forall('Int', lambda g: iff(g in self._chunk_cache, 0 <= g and g < self._dp_groups), trig=(g in self._chunk_cache))",
        "forall('Int', lambda g: iff(g in self._chunk_usage, 0 <= g and g < self._dp_groups), trig=(g in self._chunk_usage))",
        "forall('Int,Int', lambda g, n: implies(0 <= g and g < self._dp_groups, iff(n in self._next_chunk[g], 0 <= n and n < self._nodes_per_group)), trig=(n in self._next_chunk[g]))",
        "forall('Int,Int,Int', lambda g, n, w: implies(0 <= g and g < self._dp_groups and 0 <= n and n < self._nodes_per_group,"
        " iff(w in self._next_chunk[g][n], 0 <= w and w < self._num_workers)), trig=(w in self._next_chunk[g][n]))"]
macro("valid", ["g", "n", "w"], "0 <= g and g < self._dp_groups and 0 <= n and n < self._nodes_per_group and 0 <= w and w < self._num_workers")
# every worker is only ever given chunks with its own residue
RES = ["forall('Int,Int,Int', lambda g, n, w: implies(valid(g, n, w), self._next_chunk[g][n][w] >= w and wk(self._next_chunk[g][n][w]) == w), trig=(self._next_chunk[g][n][w]))"]
INV = RES + [
    "forall('Int,Int', lambda g, c: implies(0 <= g and g < self._dp_groups, iff(c in self._chunk_cache[g], c in self._chunk_usage[g])), trig=(c in self._chunk_usage[g]))",
    "forall('Int,Int', lambda g, c: implies(0 <= g and g < self._dp_groups, iff(c in self._chunk_cache[g], c in self._chunk_usage[g])), trig=(c in self._chunk_cache[g]))",
    # usage counts the nodes that have received the chunk
    "forall('Int,Int', lambda g, c: implies(0 <= g and g < self._dp_groups and c in self._chunk_usage[g], self._chunk_usage[g][c] == past(ids, self._next_chunk[g], wk(c), c)), trig=(self._chunk_usage[g][c]))",
    # a chunk that some node has received and another one has not is still available
    "forall('Int,Int,Int,Int', lambda g, n, m, c: implies(valid(g, n, wk(c)) and valid(g, m, wk(c)) and ids[n] == n and ids[m] == m and self._next_chunk[g][n][wk(c)] <= c and c < self._next_chunk[g][m][wk(c)], c in self._chunk_cache[g]),"
    " trig=(self._next_chunk[g][n][wk(c)], self._next_chunk[g][m][wk(c)]))"]
IDS = ["len(ids) == self._nodes_per_group and all(ids[i] == i for i in range(len(ids)))"]


def qr_next(lib, E, node, st):
    """next(query_result): the next element of its stream, None when it is exhausted (stop_on_none is off)"""
    q = st.env["fld:self._query_result"]
    h, p = st.env["heap:QR.stream"], st.env["heap:QR.taken"]
    pos = z3.Select(p.z, q.z)
    mt = h.t.args[1]
    E.record_write("heap:QR.taken")
    r = V(mt.args[1], z3.Select(z3.Select(h.z, q.z), pos))
    st.env["heap:QR.taken"] = V(p.t, z3.Store(p.z, q.z, pos + 1))
    return [(st, r)]


ID = "old(self._next_chunk)[dp_group][node_id][worker_id]"
HIT = f"{ID} in old(self._chunk_cache)[dp_group]"
function("ChunkDistributor.next_chunk_for", C, "ChunkDistributor.next_chunk_for", props=["C04"],
         params={"dp_group": "Int", "node_id": "Int", "worker_id": "Int", "deserialize": "Bool"}, returns="Chunk", fields=FIELDS,
         heap={"QR.stream": "Map[Int,Opt[Chunk]]", "QR.taken": "Int"},
         modifies=["self._chunk_cache", "self._chunk_usage", "self._next_chunk", "heap:QR.taken"],
         ghost={"ids": ("List[Int]", None)}, lemma_axioms=MOD, axioms=["forall('Chunk', lambda c: loads(dumps(c)) == c, trig=(dumps(c)))"],
         spec_funcs={"dumps": (["Chunk"], "Chunk"), "loads": (["Chunk"], "Chunk")},
         calls={"next:QR": qr_next, "dill.dumps": lambda lib, E, n, st: [(st, lib.spec_call(E, "dumps", [E.ev1(n.args[0], st)], st))],
                "dill.loads": lambda lib, E, n, st: [(st, lib.spec_call(E, "loads", [E.ev1(n.args[0], st)], st))], "os.getpid": "fresh:Int"},
         requires=["valid(dp_group, node_id, worker_id)"] + DIMS + IDS + INV,
         raises={"RuntimeError": "self._dp_groups > 1 or self._nodes_per_group > 1",
                 "StopIteration": "self._next_chunk[dp_group][node_id][worker_id] not in self._chunk_cache[dp_group]"
                                  " and self._query_result.stream[self._query_result.taken] is None"},
         on_raise={"StopIteration": ["self._chunk_cache == old(self._chunk_cache)", "self._chunk_usage == old(self._chunk_usage)", "self._next_chunk == old(self._next_chunk)"],
                   "RuntimeError": ["self._query_result.taken == old(self._query_result.taken)", "self._next_chunk == old(self._next_chunk)"]},
         ensures=DIMS + INV + [
             # the chunk handed out: the one already handed to another node, or a new one
             f"implies({HIT}, result == (loads(old(self._chunk_cache)[dp_group][{ID}]) if deserialize else old(self._chunk_cache)[dp_group][{ID}])"
             " and self._query_result.taken == old(self._query_result.taken))",
             f"implies(not ({HIT}), result == (val(self._query_result.stream[old(self._query_result.taken)]) if deserialize else dumps(val(self._query_result.stream[old(self._query_result.taken)])))"
             f" and some(self._query_result.stream[old(self._query_result.taken)])"
             f" and self._chunk_cache[dp_group][{ID}] == dumps(val(self._query_result.stream[old(self._query_result.taken)])) and self._query_result.taken == old(self._query_result.taken) + 1)",
             # nothing that is kept changes, and what is dropped has been received by all nodes of the group
             f"forall('Int', lambda c: implies(c in old(self._chunk_cache)[dp_group] and c in self._chunk_cache[dp_group], self._chunk_cache[dp_group][c] == old(self._chunk_cache)[dp_group][c]))",
             f"forall('Int', lambda c: implies(c in self._chunk_cache[dp_group] and c not in old(self._chunk_cache)[dp_group], c == {ID}))",
             "forall('Int,Int', lambda c, n: implies(c in old(self._chunk_cache)[dp_group] and c not in self._chunk_cache[dp_group] and 0 <= n and n < self._nodes_per_group and ids[n] == n, self._next_chunk[dp_group][n][worker_id] > c))",
             # only this worker of this node advances, by one step
             f"self._next_chunk[dp_group][node_id][worker_id] == {ID} + self._num_workers",
             "forall('Int,Int,Int', lambda g, n, w: implies(valid(g, n, w) and not (g == dp_group and n == node_id and w == worker_id), self._next_chunk[g][n][w] == old(self._next_chunk)[g][n][w]))",
             "forall('Int', lambda g: implies(0 <= g and g < self._dp_groups and g != dp_group, self._chunk_cache[g] == old(self._chunk_cache)[g]))"],
         cuts={9: [f"wk({ID}) == worker_id and wk({ID} + self._num_workers) == worker_id and wk({ID} - self._num_workers) == worker_id",
               "forall('Int', lambda g: implies(g != dp_group, self._next_chunk[g] == old(self._next_chunk)[g]), trig=(self._next_chunk[g]))",
               # who has received a chunk changes only for the chunk just handed out
               f"past(ids, self._next_chunk[dp_group], worker_id, {ID}) == past(ids, old(self._next_chunk)[dp_group], worker_id, {ID}) + 1",
               "forall('Int', lambda c: implies(wk(c) == worker_id and c != ID, past(ids, self._next_chunk[dp_group], worker_id, c) == past(ids, old(self._next_chunk)[dp_group], worker_id, c)),"
               " trig=(past(ids, self._next_chunk[dp_group], worker_id, c)))".replace("ID", ID),
               "forall('Int,Int', lambda w, c: implies(w != worker_id, past(ids, self._next_chunk[dp_group], w, c) == past(ids, old(self._next_chunk)[dp_group], w, c)),"
               " trig=(past(ids, self._next_chunk[dp_group], w, c)))"]},
         hints=["forall('Int,Int', lambda w, c: lem_upd(ids, 'past', len(ids), node_id, old(self._next_chunk)[dp_group], w, c, self._next_chunk[dp_group], w, c), trig=(past(ids, self._next_chunk[dp_group], w, c)))",
                f"lem_upd(ids, 'past', len(ids), node_id, old(self._next_chunk)[dp_group], worker_id, {ID}, self._next_chunk[dp_group], worker_id, {ID})",
                f"lem_full(ids, 'past', len(ids), self._next_chunk[dp_group], worker_id, {ID})",
                f"lem_zero(ids, 'past', 0, len(ids), old(self._next_chunk)[dp_group], worker_id, {ID})"])


def tables(gs, ns, ws):
    """which groups g, nodes n of a group and workers w of a node the tables have entries for, and that they are the initial ones"""
    return [f"forall('Int', lambda g: iff(g in self._next_chunk, {gs}), trig=(g in self._next_chunk))",
            f"forall('Int', lambda g: iff(g in self._chunk_cache, {gs}), trig=(g in self._chunk_cache))",
            f"forall('Int', lambda g: iff(g in self._chunk_usage, {gs}), trig=(g in self._chunk_usage))",
            f"forall('Int,Int', lambda g, n: implies({gs}, iff(n in self._next_chunk[g], {ns})), trig=(n in self._next_chunk[g]))",
            f"forall('Int,Int,Int', lambda g, n, w: implies({gs} and {ns}, iff(w in self._next_chunk[g][n], {ws})), trig=(w in self._next_chunk[g][n]))",
            f"forall('Int,Int,Int', lambda g, n, w: implies({gs} and {ns} and {ws}, self._next_chunk[g][n][w] == w), trig=(self._next_chunk[g][n][w]))",
            f"forall('Int,Int', lambda g, c: implies({gs}, c not in self._chunk_cache[g]), trig=(c in self._chunk_cache[g]))",
            f"forall('Int,Int', lambda g, c: implies({gs}, c not in self._chunk_usage[g]), trig=(c in self._chunk_usage[g]))"]


NW = "(num_workers if num_workers > 0 else 1)"
ALL_N, ALL_W = "(0 <= n and n < self._nodes_per_group)", "(0 <= w and w < self._num_workers)"
T0 = tables("(0 <= g and g < gi)", ALL_N, ALL_W)
T1 = tables("(0 <= g and g <= gi)", "(0 <= n and n < (ni if g == gi else self._nodes_per_group))", ALL_W)
T2 = tables("(0 <= g and g <= gi)", "(0 <= n and n < (ni + 1 if g == gi else self._nodes_per_group))", "(0 <= w and w < (wi if g == gi and n == ni else self._num_workers))")
function("ChunkDistributor.__init__", C, "ChunkDistributor.__init__", props=["C04"],
         params={"dp_groups": "Int", "nodes_per_group": "Int", "num_workers": "Int", "query_result": "QR", "job_id": "Str", "cached_query": "Opt[Path]"},
         fields=dict(FIELDS, _checkpoint_lock="Lock", _worker_statuses="Dict[Tuple[Int,Int],List[Int]]", _nodes_reported="Set[Tuple[Int,Int]]",
                     _checkpoint_id_counter="Counter", _checkpoint_info="Dict[Str,Dict[Str,Int]]", _current_checkpoint_id="Opt[Str]", _cached_query="Opt[Path]"),
         heap={"QR.stop_on_none": "Bool"}, ghost={"ids": ("List[Int]", None)}, lemma_axioms=[x.replace("self._num_workers", NW) for x in MOD],
         calls={"os.getpid": "fresh:Int", "mp.Lock": "fresh:Lock", "mp.Value": "fresh:Counter", "threading.get_native_id": "fresh:Int"},
         requires=["nodes_per_group >= 1", "len(ids) == nodes_per_group and all(ids[i] == i for i in range(len(ids)))"],
         raises={"ValueError": "dp_groups < 1"},
         ensures=[f"self._dp_groups == dp_groups and self._nodes_per_group == nodes_per_group and self._num_workers == {NW}"
                  " and self._og_num_workers == num_workers and self._query_result == query_result and not query_result.stop_on_none",
                  "len(self._worker_statuses) == 0 and len(self._nodes_reported) == 0 and self._current_checkpoint_id is None"] + DIMS + INV,
         nloops=3, loops={0: dict(index="gi", inv=T0), 1: dict(index="ni", inv=T1), 2: dict(index="wi", inv=T2)})


# ---------------------------------------------------------------- C05: a checkpoint is only taken when the nodes of a group agree
NC = "self._next_chunk"
macro("inside", ["g", "n", "w"], f"g in {NC} and n in {NC}[g] and w in {NC}[g][n]")


CPW, WSW, WS = "chunk_per_worker", "worker_statuses_per_worker", "self._worker_statuses"


def grouped(tab, has, value, done, trig, at, src):
    """tab[(g, w)] lists value(g, n, w) of the nodes n gone through so far; ghosts: at = the position in the list, src = the node of a position"""
    return [f"forall('Int,Int,Int', lambda g, n, w: implies({has} and {done}, (g, w) in {tab} and 0 <= {at}[g][n][w] and {at}[g][n][w] < len({tab}[(g, w)]) and {tab}[(g, w)][{at}[g][n][w]] == {value}), trig=({trig}))",
            f"forall('Int,Int', lambda g, w: implies((g, w) in {tab}, len({tab}[(g, w)]) >= 1), trig=((g, w) in {tab}))",
            f"forall('Int,Int,Int', lambda g, w, i: implies((g, w) in {tab} and 0 <= i and i < len({tab}[(g, w)]),"
            f" {has} and {tab}[(g, w)][i] == {value}), trig=({tab}[(g, w)][i]))".replace("[g][n][w]", f"[g][{src}[g][w][i]][w]").replace("(g, n, w)", f"(g, {src}[g][w][i], w)").replace("(g, n)", f"(g, {src}[g][w][i])")]


def collected(done):
    return grouped(CPW, "inside(g, n, w)", f"{NC}[g][n][w]", done, f"w in {NC}[g][n]", "at", "src")


def gathered(done):
    return grouped(WSW, f"((g, n) in {WS} and 0 <= w and w < len({WS}[(g, n)]))", f"{WS}[(g, n)][w]", done, f"{WS}[(g, n)][w]", "at2", "src2")


def track(tab, n, at, src):
    last = f"len({tab}[(GRP, worker_id)]) - 1"
    return [(at, f"lambda g, n, w: ({last}) if g == GRP and n == {n} and w == worker_id else {at}[g][n][w]"),
            (src, f"lambda g, w, i: {n} if g == GRP and w == worker_id and i == {last} else {src}[g][w][i]")]


L0, L1, L2 = f"posof({NC}, g) < a", f"posof({NC}[g], n) < b", f"posof({NC}[g][n], w) < c"
ROW = f"(g == {NC}.order[a])"
NODE = f"(n == {NC}[g].order[b])"
function("ChunkDistributor._validate_checkpoint_state", C, "ChunkDistributor._validate_checkpoint_state", props=["C05"],
         params={}, returns="Dict[Tuple[Int,Int],Int]", fields={"_next_chunk": FIELDS["_next_chunk"], "_worker_statuses": "Dict[Tuple[Int,Int],List[Int]]"}, modifies=[],
         locals={"chunk_per_worker": "Dict[Tuple[Int,Int],List[Int]]", "worker_statuses_per_worker": "Dict[Tuple[Int,Int],List[Int]]", "result": "Dict[Tuple[Int,Int],Int]"},
         ghost={k: ("Map[Int,Map[Int,Map[Int,Int]]]", None) for k in ("at", "src", "at2", "src2")},
         raises={"RuntimeError": f"exists('Int,Int,Int,Int', lambda g, n, m, w: inside(g, n, w) and inside(g, m, w) and {NC}[g][n][w] != {NC}[g][m][w])"},
         ensures=[f"forall('Int,Int,Int,Int', lambda g, n, m, w: implies(inside(g, n, w) and inside(g, m, w), {NC}[g][n][w] == {NC}[g][m][w]), trig=(w in {NC}[g][n], w in {NC}[g][m]))",
                  # where to continue: the furthest position any node of the group has reported for the worker
                  f"forall('Int,Int,Int', lambda g, n, w: implies((g, n) in {WS} and 0 <= w and w < len({WS}[(g, n)]), (g, w) in result and result[(g, w)] >= {WS}[(g, n)][w]), trig=({WS}[(g, n)][w]))",
                  f"forall('Int,Int', lambda g, w: implies((g, w) in result, exists('Int', lambda n: (g, n) in {WS} and 0 <= w and w < len({WS}[(g, n)]) and result[(g, w)] == {WS}[(g, n)][w], trig=({WS}[(g, n)][w]))), trig=((g, w) in result))"],
         loops={0: dict(index="a", inv=collected(L0)), 1: dict(index="b", inv=collected(f"({L0} or {ROW} and {L1})")),
                2: dict(index="c", inv=collected(f"({L0} or {ROW} and ({L1} or {NODE} and {L2}))"),
                        ghost_end=[(k, v.replace("GRP", "dp_group")) for k, v in track(CPW, f"{NC}[dp_group].order[b]", "at", "src")]),
                3: dict(index="d", inv=["forall('Int,Int', lambda g, w: implies((g, w) in chunk_per_worker and posof(chunk_per_worker, (g, w)) < d, forall('Int', lambda i: implies(0 <= i and i < len(chunk_per_worker[(g, w)]), chunk_per_worker[(g, w)][i] == chunk_per_worker[(g, w)][0]), trig=(chunk_per_worker[(g, w)][i]))), trig=((g, w) in chunk_per_worker))"]),
                4: dict(index="e", inv=gathered(f"posof({WS}, (g, n)) < e")),
                5: dict(index="f", inv=gathered(f"(posof({WS}, (g, n)) < e or posof({WS}, (g, n)) == e and w < f)"),
                        ghost_end=[(k, v.replace("GRP", "dp_group_id")) for k, v in track(WSW, f"{WS}.order[e][1]", "at2", "src2")]),
                6: dict(index="h", inv=[f"forall('Int,Int', lambda g, w: iff((g, w) in result, (g, w) in {WSW} and posof({WSW}, (g, w)) < h), trig=((g, w) in result))",
                                        f"forall('Int,Int', lambda g, w: iff((g, w) in result, (g, w) in {WSW} and posof({WSW}, (g, w)) < h), trig=((g, w) in {WSW}))",
                                        f"forall('Int,Int', lambda g, w: implies((g, w) in result, exists('Int', lambda i: 0 <= i and i < len({WSW}[(g, w)]) and {WSW}[(g, w)][i] == result[(g, w)])), trig=((g, w) in result))",
                                        f"forall('Int,Int,Int', lambda g, w, i: implies((g, w) in result and 0 <= i and i < len({WSW}[(g, w)]), {WSW}[(g, w)][i] <= result[(g, w)]), trig=({WSW}[(g, w)][i]))"])})
