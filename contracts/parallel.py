"""C08: the samples of a component read by several processes"""
from pyvc import ty
from pyvc.engine import V
from pyvc.ty import INT
from contracts.base import function, LIB
from contracts.reading import R, WT, EOS

# a queue gives what its process has put and will put: data; pos of it have been taken
PROCS = "List[Tuple[Queue,Proc]]"
QUEUE = {"Queue.data": "List[Sample]", "Queue.pos": "Int"}


def queue_get(lib, E, node, st):
    """mp.Queue.get(timeout): the next object, or Empty when none arrives in time (always so when none is left)"""
    b = E.ev1(node.func.value, st)
    hd, hp = st.env["heap:Queue.data"], st.env["heap:Queue.pos"]
    lt = hd.t.args[1]
    data, pos = ty.z3.Select(hd.z, b.z), ty.z3.Select(hp.z, b.z)
    if node.args or node.keywords:
        E.sinks[-1].append(("raise", st.copy(), "Empty"))
    st.pc += [pos < ty.l_len(lt, data), pos >= 0]
    E.record_write("heap:Queue.pos")
    st.env["heap:Queue.pos"] = V(hp.t, ty.z3.Store(hp.z, b.z, pos + 1))
    E.ext_used.add("mp.Queue.get(timeout) gives what was put, in order, or raises Empty")
    return [(st, V(lt.args[0], ty.z3.Select(ty.l_arr(lt, data), pos)))]


P0 = "old(processes)"
D = "{q}.data"
CNT = "len({q}.data) - 1"
# at[q][j]: the place in the output of the j-th sample of queue q; of[i], nr[i]: queue and number of the i-th sample put out; ix[q]: the place of queue q in the list
ALL = [
    f"forall('Int', lambda m: implies(0 <= m and m < len({P0}), ix[{P0}[m][0]] == m), trig=({P0}[m]))",
    f"forall('Queue,Int', lambda q, j: implies(0 <= ix[q] and ix[q] < len({P0}) and {P0}[ix[q]][0] == q and 0 <= j and j < len(q.data) - 1 and j < q.pos, 0 <= at[q][j] and at[q][j] < len(_out) and _out[at[q][j]] == q.data[j] and of[at[q][j]] == q and nr[at[q][j]] == j), trig=(at[q][j]))",
    f"forall('Int', lambda i: implies(0 <= i and i < len(_out), 0 <= ix[of[i]] and ix[of[i]] < len({P0}) and {P0}[ix[of[i]]][0] == of[i] and 0 <= nr[i] and nr[i] < of[i].pos and nr[i] < len(of[i].data) - 1 and at[of[i]][nr[i]] == i), trig=(of[i]))",
    f"forall('Queue,Int,Int', lambda q, j, m: implies(0 <= ix[q] and ix[q] < len({P0}) and {P0}[ix[q]][0] == q and 0 <= j and j < m and m < q.pos and m < len(q.data) - 1, at[q][j] < at[q][m]), trig=(at[q][j], at[q][m]))"]
MINE = f"0 <= ix[q] and ix[q] < len({P0}) and {P0}[ix[q]][0] == q"
RM = "processes_to_remove"
# pl[q]: the place of queue q in the list that is left, negative if it was removed; rk[q]: its place among those to remove
LIVE = ["forall('Int', lambda m: implies(0 <= m and m < len(processes), pl[processes[m][0]] == m), trig=(processes[m]))",
        f"forall('Int', lambda m: implies(0 <= m and m < len(processes), 0 <= ix[processes[m][0]] and ix[processes[m][0]] < len({P0}) and {P0}[ix[processes[m][0]]] == processes[m]), trig=(processes[m]))",
        f"forall('Queue', lambda q: implies({MINE}, pl[q] < len(processes) and implies(pl[q] >= 0, processes[pl[q]][0] == q) and 0 <= q.pos and q.pos <= len(q.data)), trig=(pl[q]))"]
SUFF = lambda lo: f"(rk[q] >= {lo} and rk[q] < len({RM}) and {RM}[rk[q]][0] == q)"
TOREM = lambda lo: [f"forall('Int', lambda t: implies({lo} <= t and t < len({RM}), rk[{RM}[t][0]] == t and pl[{RM}[t][0]] >= 0 and pl[{RM}[t][0]] < len(processes) and {RM}[t] == processes[pl[{RM}[t][0]]]), trig=({RM}[t]))",
                    f"forall('Queue', lambda q: implies({MINE}, iff(q.pos == len(q.data), pl[q] < 0 or {SUFF(lo)})), trig=(pl[q]))"]
ALLLIVE = f"forall('Queue', lambda q: implies({MINE}, iff(q.pos == len(q.data), pl[q] < 0)), trig=(pl[q]))"
function("ResultChunk._get_iterator_for_workload_mt", R, "ResultChunk._get_iterator_for_workload_mt", props=["C08"],
         params={"processes": PROCS}, returns="None", yields="Sample", fields={}, heap=QUEUE, consts=EOS, modifies=["heap:Queue.pos", "processes"],
         calls={"Queue.get": queue_get, "Proc.is_alive": "fresh:Bool", "Proc.join": "skip"}, locals={"processes_to_remove": PROCS},
         ghost={"at": ("Map[Queue,Map[Int,Int]]", None), "of": ("Map[Int,Queue]", None), "nr": ("Map[Int,Int]", None), "ix": ("Map[Queue,Int]", None), "pl": ("Map[Queue,Int]", "lambda q: ix[q]"), "rk": ("Map[Queue,Int]", "lambda q: 0 - 1"), "cut": ("Int", "0")},
         requires=["forall('Int', lambda m: implies(0 <= m and m < len(processes), ix[processes[m][0]] == m), trig=(processes[m]))",
                   "forall('Int', lambda m: implies(0 <= m and m < len(processes), processes[m][0].pos == 0 and len(processes[m][0].data) >= 1 and processes[m][0].data[len(processes[m][0].data) - 1] == eos()), trig=(processes[m]))",
                   "forall('Int,Int', lambda m, j: implies(0 <= m and m < len(processes) and 0 <= j and j < len(processes[m][0].data) - 1, processes[m][0].data[j] != eos()), trig=(processes[m][0].data[j]))"],
         raises={"RuntimeError": "True"},
         ensures=ALL + [f"forall('Int', lambda m: implies(0 <= m and m < len({P0}), {P0}[m][0].pos == len({P0}[m][0].data)), trig=({P0}[m]))"],
         on_yield=[("at", "lambda q, j: len(_out) if q == queue and j == queue.pos - 1 else at[q][j]"), ("of", "lambda i: queue if i == len(_out) else of[i]"), ("nr", "lambda i: queue.pos - 1 if i == len(_out) else nr[i]")],
         loops={0: dict(inv=ALL + LIVE + [ALLLIVE], ghost_start=[("rk", "lambda q: 0 - 1")]),
                1: dict(index="b", inv=ALL + LIVE + TOREM("0") + [f"forall('Int', lambda t: implies(0 <= t and t < len({RM}), pl[{RM}[t][0]] < b), trig=({RM}[t]))"],
                        ghost_end=[("rk", f"lambda q: len({RM}) - 1 if q == queue and len({RM}) > 0 and {RM}[len({RM}) - 1][0] == queue else rk[q]")]),
                2: dict(index="c", inv=ALL + LIVE + TOREM("c"), ghost_start=[("cut", f"pl[{RM}[c][0]]")],
                        ghost_end=[("pl", "lambda q: 0 - 1 if q == queue else pl[q] - 1 if pl[q] > cut else pl[q]")])})

# ---------------------------------------------------------------- the processes: each reads a part of the component's workload, the parts are consecutive
for _t, _a, _r in (("Proc", "queue", "Queue"), ("Proc", "dts", "Dict[Int,DT]"), ("Proc", "paths", "Dict[Int,Str]"), ("Proc", "funcs", "Blob"), ("Proc", "work", WT), ("Queue", "number", "Int")):
    LIB.attrs[(_t, _a)] = ty.parse(_r)


def attr(E, v, name):
    rt = LIB.attrs[(v.t.name, name)]
    return V(rt, E.func(f"attr_{v.t.name}_{name}", [v.t], rt)(v.z))


def new_queue(lib, E, node, st):
    """mp.Queue(): a queue that did not exist before"""
    q = E.fresh_value("queue", ty.parse("Queue"), st)
    n = st.env["ghost:nq"]
    st.pc.append(attr(E, q, "number").z == n.z)
    st.env["ghost:nq"] = V(INT, ty.z3.simplify(n.z + 1))
    E.record_write("ghost:nq")
    E.ext_used.add("mp.Queue() is a queue that did not exist before")
    return [(st, q)]


def new_process(lib, E, node, st):
    """mp.Process(target=self._reader_process, args=(...)): runs the function with these arguments"""
    import ast
    kw = {k.arg: k.value for k in node.keywords}
    if "target" not in kw or ast.unparse(kw["target"]) not in ("self._reader_process", "ResultChunk._reader_process") or not isinstance(kw["args"], ast.Tuple) or len(kw["args"].elts) != 6:
        from pyvc.engine import Unsupported
        raise Unsupported("mp.Process")
    p = E.fresh_value("proc", ty.parse("Proc"), st)
    for name, k in (("queue", 0), ("dts", 1), ("paths", 2), ("funcs", 3), ("work", 5)):
        t = LIB.attrs[("Proc", name)]
        v = E.coerce(E.ev1(kw["args"].elts[k], st), t, st)
        a = attr(E, p, name)
        if t.kind == "List":
            i = ty.fresh("i", ty.z3.IntSort())
            st.pc += [ty.l_len(t, a.z) == ty.l_len(t, v.z), ty.forall([i], ty.z3.Select(ty.l_arr(t, a.z), i) == ty.z3.Select(ty.l_arr(t, v.z), i), [ty.z3.Select(ty.l_arr(t, a.z), i)])]
        else:
            st.pc.append(a.z == v.z)
    E.ext_used.add("mp.Process(target, args) runs the target with these arguments once it is started")
    return [(st, p)]


def dumps(lib, E, node, st):
    r = E.fresh_value("pickled", ty.parse("Blob"), st)
    v = E.coerce(E.ev1(node.args[0], st), ty.parse("Dict[Int,PF]"), st)
    st.pc.append(lib.spec_call(E, "unpickled", [r], st).z == v.z)
    return [(st, r)]


PS = "processes"
PART = lambda k, upto: (f"part[{k}][0] == 0 and 0 <= part[{k}][{upto}] and part[{k}][{upto}] <= len(workloads[{k}])",)
ONE = lambda ps, k, i: (f"{ps}[{k}][{i}][1].queue == {ps}[{k}][{i}][0] and {ps}[{k}][{i}][1].dts == self._dataset_type_dict and {ps}[{k}][{i}][1].paths == self._file_path_dict and unpickled({ps}[{k}][{i}][1].funcs) == self._parsing_func_dict"
                        f" and 0 <= part[{k}][{i}] and part[{k}][{i}] < part[{k}][{i} + 1] and part[{k}][{i} + 1] <= len(workloads[{k}]) and len({ps}[{k}][{i}][1].work) == part[{k}][{i} + 1] - part[{k}][{i}]"
                        f" and forall('Int', lambda j: implies(0 <= j and j < part[{k}][{i} + 1] - part[{k}][{i}], {ps}[{k}][{i}][1].work[j] == workloads[{k}][part[{k}][{i}] + j]), trig=({ps}[{k}][{i}][1].work[j]))"
                        f" and {ps}[{k}][{i}][0].number < nq and numk[{ps}[{k}][{i}][0].number] == {k} and numi[{ps}[{k}][{i}][0].number] == {i}")


def spun(ps, k="Key"):
    return [f"forall('Key,Int', lambda k, i: implies(k in {ps} and 0 <= i and i < len({ps}[k]), {ONE(ps, 'k', 'i')}), trig=({ps}[k][i]))"]


WHOLE = lambda ps, cond: f"forall('Key', lambda k: implies(k in {ps}{cond}, part[k][0] == 0 and part[k][len({ps}[k])] == len(workloads[k])), trig=({ps}[k]))"
function("ResultChunk._spin_up_readers", R, "ResultChunk._spin_up_readers", props=["C08"],
         params={"workloads": f"Dict[Key,{WT}]", "process_counts": "Dict[Key,Int]"}, returns=f"Dict[Key,{PROCS}]", fields={"_parsing_func_dict": "Dict[Int,PF]", "_dataset_type_dict": "Dict[Int,DT]", "_file_path_dict": "Dict[Int,Str]", "_server_connection": "Conn"}, modifies=[],
         locals={PS: f"Dict[Key,{PROCS}]", "partition_ranges": "List[Int]"}, params_unchanged=["workloads", "process_counts"],
         calls={"mp.Queue": new_queue, "mp.Process": new_process, "dill.dumps": dumps, "Proc.start": "skip", "mp.current_process": "pure:Proc:proc"},
         spec_funcs={"ext_proc": ([], "Proc")},
         ghost={"nq": ("Int", "0"), "part": ("Map[Key,Map[Int,Int]]", "lambda k, i: 0"), "numk": ("Map[Int,Key]", None), "numi": ("Map[Int,Int]", None)},
         requires=["forall('Key', lambda k: implies(k in process_counts, k in workloads), trig=(k in process_counts))"],
         ensures=["forall('Key', lambda k: iff(k in result, k in process_counts), trig=(k in result))", "forall('Key', lambda k: iff(k in result, k in process_counts), trig=(k in process_counts))"] + spun("result") + [WHOLE("result", "")],
         loops={0: dict(index="a", inv=["nq >= 0", "forall('Key', lambda k: part[k][0] == 0, trig=(part[k]))", f"forall('Key', lambda k: iff(k in {PS}, k in process_counts and posof(process_counts, k) < a), trig=(k in {PS}))", f"forall('Key', lambda k: iff(k in {PS}, k in process_counts and posof(process_counts, k) < a), trig=(k in process_counts))"] + spun(PS) + [WHOLE(PS, "")]),
                1: dict(index="b", inv=["nq >= 0", "forall('Key', lambda k: part[k][0] == 0, trig=(part[k]))", f"forall('Key', lambda k: iff(k in {PS}, k in process_counts and posof(process_counts, k) <= a), trig=(k in {PS}))", f"forall('Key', lambda k: iff(k in {PS}, k in process_counts and posof(process_counts, k) <= a), trig=(k in process_counts))"] + spun(PS) + [WHOLE(PS, " and k != key"),
                                f"len({PS}[key]) == b and part[key][0] == 0 and part[key][b] == partition_ranges[b]"],
                        ghost_end=[("part", "lambda k, i: partition_ranges[i] if k == key and i == b + 1 else 0 if k == key and i == 0 else part[k][i]"),
                                   ("numk", "lambda n: key if n == nq - 1 else numk[n]"), ("numi", "lambda n: b if n == nq - 1 else numi[n]")])})
