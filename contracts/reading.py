"""C08 / C10: the samples of a workload, read one file after the other"""
from pyvc import ty
from pyvc.engine import V, Unsupported
from pyvc.ty import INT
from contracts.base import function, LIB

R = "mixtera/core/query/result_chunk.py"
LIB.ufuncs = getattr(LIB, "ufuncs", {})
LIB.ufuncs["rows"] = (["DT", "Str", "Ranges", "PF"], "List[Sample]")     # the samples of the ranges of a file
WT = "List[Tuple[Int,Int,Ranges]]"


def read_ranges(lib, E, node, st):
    """DatasetType.read_ranges_from_files of one file: its samples in order (C10)"""
    dt = E.ev1(node.func.value, st)
    d, pf, _ = [E.ev1(a, st) for a in node.args]
    d = E.mat(d, st)
    E.emit("one file is read", st, ty.d_n(d.t, d.z) == 1, "call", node.lineno)
    path = ty.z3.Select(ty.d_keys(d.t, d.z), 0)
    r = lib.spec_call(E, "rows", [dt, V(d.t.args[0], path), V(d.t.args[1], ty.z3.Select(ty.d_val(d.t, d.z), path)), pf], st)
    E.ext_used.add("read_ranges_from_files returns the same samples whenever it is asked for the same ranges")
    return [(st, E.wf_assume(r, st))]


def rows(w, m, dt="self._dataset_type_dict", fp="self._file_path_dict", pf="self._parsing_func_dict"):
    return f"rows({dt}[{w}[{m}][0]], {fp}[{w}[{m}][1]], {w}[{m}][2], {pf}[{w}[{m}][0]])"


def cat(w, upto, out, base, off="off", **kw):
    """out, from position base on, is the samples of the first `upto` entries of the workload; entry m begins at off[m]"""
    rw = rows(w, "m", **kw)
    return [f"{off}[0] == {base}",
            f"forall('Int', lambda m: implies(0 <= m and m < {upto}, {off}[m] >= {base} and {off}[m + 1] == {off}[m] + len({rw})), trig=({off}[m + 1]))",
            f"forall('Int', lambda m: implies(0 <= m and m < {upto}, {off}[m] >= {base} and {off}[m + 1] == {off}[m] + len({rw}) and {off}[m + 1] <= len({out})), trig=({w}[m]))",
            f"forall('Int,Int', lambda m, j: implies(0 <= m and m < {upto} and 0 <= j and j < len({rw}), {out}[{off}[m] + j] == {rw}[j]), trig=({rw}[j]))"]


def known(w, dt="self._dataset_type_dict", fp="self._file_path_dict", pf="self._parsing_func_dict"):
    return [f"forall('Int', lambda m: implies(0 <= m and m < len({w}), {w}[m][0] in {dt} and {w}[m][1] in {fp} and {w}[m][0] in {pf}), trig=({w}[m]))"]


FIELDS = {"_dataset_type_dict": "Dict[Int,DT]", "_file_path_dict": "Dict[Int,Str]", "_parsing_func_dict": "Dict[Int,PF]", "_server_connection": "Conn"}
function("ResultChunk._get_iterator_for_workload_st", R, "ResultChunk._get_iterator_for_workload_st", props=["C08", "C10"],
         params={"workloads": WT}, returns="None", yields="Sample", fields=FIELDS, modifies=[],
         calls={"DT.read_ranges_from_files": read_ranges}, ghost={"off": ("Map[Int,Int]", "lambda n: 0")},
         requires=known("workloads"), ensures=cat("workloads", "len(workloads)", "_out", "0") + ["len(_out) == off[len(workloads)]"],
         loops={0: dict(index="a", inv=cat("workloads", "a", "_out", "0") + ["len(_out) == off[a]"],
                        ghost_end=[("off", "lambda n: len(_out) if n == a + 1 else off[n]")]),
                1: dict(index="b", inv=cat("workloads", "a", "_out", "0") + [f"len(_out) == off[a] + b and forall('Int', lambda j: implies(0 <= j and j < b, _out[off[a] + j] == {rows('workloads', 'a')}[j]), trig=({rows('workloads', 'a')}[j]))"])})

# ---------------------------------------------------------------- a reader process and its queue (heap Queue.data: what was put so far)
LIB.ufuncs["eos"] = ([], "Sample")
LIB.ufuncs["unpickled"] = (["Blob"], "Dict[Int,PF]")
EOS = {"END_OF_STREAM_OBJECT": "uf:Sample:eos"}
LIB.attrs[("Proc", "daemon")] = ty.BOOL
QH = {"Queue.data": "List[Sample]"}


def queue_put(lib, E, node, st):
    b, x = E.ev1(node.func.value, st), E.ev1(node.args[0], st)
    h = st.env["heap:Queue.data"]
    lt = h.t.args[1]
    old = ty.z3.Select(h.z, b.z)
    x = E.coerce(x, lt.args[0], st)
    E.record_write("heap:Queue.data")
    n = ty.l_len(lt, old)
    new = E.named(V(lt, ty.mk(lt, ty.z3.Store(ty.l_arr(lt, old), n, x.z), n + 1)), st, "queue")
    st.env["heap:Queue.data"] = V(h.t, ty.z3.Store(h.z, b.z, new.z))
    E.ext_used.add("mp.Queue.put appends to the queue")
    return [(st, E.const(None))]


def loads(lib, E, node, st):
    E.ext_used.add("dill.loads gives back what dill.dumps was given")
    return [(st, E.wf_assume(lib.spec_call(E, "unpickled", [E.ev1(node.args[0], st)], st), st))]


KW = dict(dt="dataset_type_dict", fp="file_path_dict", pf="unpickled(pickled_parsing_func_dict)")
Q = "queue.data"
N0 = "old(len(queue.data))"
OLD = f"len({Q}) >= {N0} and all({Q}[i] == old(queue.data)[i] for i in range({N0}))"
CUR = rows("workloads", "a", **KW)
function("ResultChunk._reader_process", R, "ResultChunk._reader_process", props=["C08", "C10"],
         params={"queue": "Queue", "dataset_type_dict": "Dict[Int,DT]", "file_path_dict": "Dict[Int,Str]", "pickled_parsing_func_dict": "Blob", "server_connection": "Conn", "workloads": WT},
         returns="None", heap=QH, consts=EOS, modifies=["heap:Queue.data"], params_unchanged=["dataset_type_dict", "file_path_dict", "workloads"],
         calls={"DT.read_ranges_from_files": read_ranges, "Queue.put": queue_put, "Queue.close": "skip", "os.getppid": "fresh:Int", "dill.loads": loads, "mp.current_process": "pure:Proc:proc"},
         spec_funcs={"ext_proc": ([], "Proc")},
         ghost={"off": ("Map[Int,Int]", "lambda n: len(queue.data)"), "done": ("Int", "0")},
         requires=known("workloads", **KW),
         ensures=[OLD] + cat("workloads", "done", Q, N0, **KW) + [f"len({Q}) == off[done] + 1 and {Q}[off[done]] == eos()", "0 <= done and done <= len(workloads)", "ext_proc().daemon or done == len(workloads)"],
         loops={0: dict(index="a", inv=[OLD, "done == a"] + cat("workloads", "a", Q, N0, **KW) + [f"len({Q}) == off[a]"],
                        ghost_end=[("off", f"lambda n: len({Q}) if n == a + 1 else off[n]"), ("done", "a + 1")]),
                1: dict(index="b", inv=[OLD, "done == a"] + cat("workloads", "a", Q, N0, **KW) + [f"len({Q}) == off[a] + b and forall('Int', lambda j: implies(0 <= j and j < b, {Q}[off[a] + j] == {CUR}[j]), trig=({CUR}[j]))"])})

# ---------------------------------------------------------------- skipping what was read before (resume)
from pyvc.engine import Seq, MTuple


def islice(lib, E, node, st):
    """itertools.islice(x, a, None); itertools.islice(iterator, n) takes the next n elements and leaves the rest"""
    if len(node.args) == 2:
        s = E.iter_view(node.args[0], st)
        a = E.coerce(E.ev1(node.args[1], st), INT, st).z
        E.may_raise("ValueError", a >= 0, st, "islice count is not negative", node.lineno)
        if s.lazy_iter is None:
            raise Unsupported("islice of something that is not an iterator")
        return [(st, Seq(ty.z3.If(s.n < a, s.n, a), s.get, s.et, src=s.src, lazy_iter=s.lazy_iter))]
    s = E.seq_of(lib.listify(E, node.args[0], st), st)
    a = E.coerce(E.ev1(node.args[1], st), INT, st).z
    import ast
    if len(node.args) != 3 or not (isinstance(node.args[2], ast.Constant) and node.args[2].value is None):
        raise Unsupported("islice")
    E.may_raise("ValueError", a >= 0, st, "islice start is not negative", node.lineno)
    n = ty.z3.If(s.n > a, s.n - a, ty.z3.IntVal(0))
    return [(st, Seq(n, lambda i, st: s.get(a + i, st), s.et))]


IT, MS = "Dict[Key,Iter[Sample]]", "List[Tuple[Int,Sample]]"
WINDOWED = "(self._mixture_type == 'token' or self._mixture_type == 'window')"


def resumed(src, out="_out"):
    """out is src from position _samples_to_skip on, numbered by the position in src"""
    k = "self._samples_to_skip"
    return (f"len({out}) == max(len({src}) - {k}, 0) and forall('Int', lambda i: implies(0 <= i and i < len({out}), {out}[i][0] == i + {k}"
            f" and {out}[i][1] == {src}[i + {k}][0] and {out}[i][2] == {src}[i + {k}][1]), trig=({out}[i]))")


function("ResultChunk._iterate_samples", R, "ResultChunk._iterate_samples", props=["C05", "C08"],
         params={}, returns="None", yields="Tuple[Int,Int,Sample]", fields={"_mixture_type": "Str", "_samples_to_skip": "Int"}, modifies=[],
         calls={"self._init_active_iterators": f"pure:{IT}:iters", "self._iterate_window_mixture": f"pure:{MS}:window", "self._iterate_overall_mixture": f"pure:{MS}:overall", "islice": islice},
         spec_funcs={"ext_iters": ([], IT), "ext_window": ([IT], MS), "ext_overall": ([IT], MS)},
         requires=["self._samples_to_skip >= 0"],
         ensures=[f"implies({WINDOWED}, {resumed('ext_window(ext_iters())')})", f"implies(not {WINDOWED}, {resumed('ext_overall(ext_iters())')})"],
         loops={0: dict(index="a", inv=["len(_out) == a", "forall('Int', lambda i: implies(0 <= i and i < len(_out), _out[i][0] == i + self._samples_to_skip and _out[i][1] == yield_source[i + self._samples_to_skip][0] and _out[i][2] == yield_source[i + self._samples_to_skip][1]), trig=(_out[i]))"])})

# ---------------------------------------------------------------- C10: the samples of the ranges of one file
DS = "mixtera/core/datacollection/datasets/"
LIB.ufuncs["lines"] = (["Str"], "List[Str]")              # the lines of a file
LIB.ufuncs["parse"] = (["PF", "Str"], "Sample")           # what the parsing function makes of a line
LIB.ufuncs["parse_row"] = (["PF", "Row"], "Sample")
from contracts.base import sumfn
RG = "List[Tuple[Int,Int]]"
sumfn("rlen", "Tuple[Int,Int]", [], "Int", lambda r: ty.acc(r.t, r.z, 1) - ty.acc(r.t, r.z, 0))


def open_file(lib, E, node, st):
    f = E.ev1(node.args[0], st)
    l = lib.spec_call(E, "lines", [f], st)
    E.wf_assume(l, st)
    t = ty.parse("Iter[Str]")
    r = E.named(V(t, ty.mk(t, ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z), ty.z3.IntVal(0))), st, "file")
    E.ext_used.add("FileSystem.open_file yields the lines of the file in order")
    return [(st, r)]


def parse(name):
    def call(lib, E, node, st):
        return [(st, lib.spec_call(E, name, [E.ev1(node.func, st), E.ev1(node.args[0], st)], st))]
    return call


def picked(upto, val):
    """row j of range k is at its place in the output"""
    v = val.format(i="j")
    return f"forall('Int,Int', lambda k, j: implies(0 <= k and k < {upto} and range_list[k][0] <= j and j < range_list[k][1], _out[rlen(range_list, k) + j - range_list[k][0]] == {v}), trig=(range_list[k], {v}))"


def bounds(upto):
    return f"forall('Int', lambda k: implies(0 <= k and k < {upto}, rlen(range_list, k) >= 0 and rlen(range_list, k) + range_list[k][1] - range_list[k][0] <= len(_out)), trig=(range_list[k]))"


def reader(name, cls, file, n, val, kw):
    BAD = "exists('Int', lambda k: 1 <= k and k < len(range_list) and (range_list[k][0] < range_list[k - 1][1] or range_list[k][0] < range_list[k - 1][0]))"
    PREV = "last_line_read == (0 if a == 0 else range_list[a - 1][1]) and last_r_start == (-1 if a == 0 else range_list[a - 1][0])"
    inner = f"len(_out) == rlen(range_list, a) + b and forall('Int', lambda j: implies(range_list[a][0] <= j and j < range_list[a][0] + b, _out[rlen(range_list, a) + j - range_list[a][0]] == {val.format(i='j')}), trig=({val.format(i='j')}))"
    return function(name, DS + file, cls + "._read_ranges_from_file", props=["C10"],
                    params={"file": "Str", "range_list": RG, "parsing_func": "PF", "server_connection": "Conn"}, returns="None", yields="Sample", params_unchanged=["range_list"],
                    requires=[f"all(0 <= range_list[k][0] and range_list[k][0] <= range_list[k][1] and range_list[k][1] <= {n} for k in range(len(range_list)))"],
                    raises={"RuntimeError": BAD}, ensures=["len(_out) == rlen(range_list, len(range_list))", picked("len(range_list)", val)], **kw(PREV, inner))


NLINES, LINE = "len(lines(file))", "parse(parsing_func, lines(file)[{i}])"
POS = "sameseq_file(text_file)"
reader("JSONLDataset._read_ranges_from_file", "JSONLDataset", "jsonl_dataset.py", NLINES, LINE, kw=lambda prev, inner: dict(
    calls={"FileSystem.open_file": open_file, "itertools.islice": islice, "parsing_func": parse("parse")},
    loops={0: dict(index="a", inv=[prev, "len(_out) == rlen(range_list, a)", bounds("a"), picked("a", LINE), "text_file.seq == lines(file) and text_file.n == len(lines(file)) and text_file.pos == last_line_read"]),
           1: dict(index="s", inv=["text_file.seq == lines(file) and text_file.n == len(lines(file)) and text_file.pos == last_line_read + s"]),
           2: dict(index="b", inv=[inner, bounds("a"), picked("a", LINE)])}))
LIB.ufuncs["tar_samples"] = (["Str"], "List[Row]")        # the samples of a tar file, in order
LIB.ufuncs["parquet_rows"] = (["Str"], "List[Row]")       # the rows of a parquet file, in order


def tar(lib, E, node, st):
    E.ext_used.add("wids.IndexedTarSamples gives the samples of the tar file by position")
    return [(st, E.wf_assume(lib.spec_call(E, "tar_samples", [E.ev1(node.args[0], st)], st), st))]


SAMPLE = "parse_row(parsing_func, tar_samples(file)[{i}])"
reader("WebDataset._read_ranges_from_file", "WebDataset", "web_dataset.py", "len(tar_samples(file))", SAMPLE, kw=lambda prev, inner: dict(
    calls={"IndexedTarSamples": tar, "parsing_func": parse("parse_row")},
    loops={0: dict(index="a", inv=[prev, "len(_out) == rlen(range_list, a)", bounds("a"), picked("a", SAMPLE)]),
           1: dict(index="b", inv=[inner, bounds("a"), picked("a", SAMPLE)])}))

# ---------------------------------------------------------------- parquet: row groups.  A table (or batch) is the rows lo .. hi of its file
LIB.ufuncs["rg_sizes"] = (["Str"], "List[Int]")           # the number of rows of each row group
LIB.ufuncs["rgm"] = (["PQ", "Int"], "RGM")
LIB.ufuncs["pq_file"] = (["PQ"], "Str")
for _t, _a, _r in (("PQ", "metadata", "PQM"), ("PQ", "num_row_groups", "Int"), ("PQM", "pq", "PQ"), ("RGM", "num_rows", "Int"), ("PTable", "lo", "Int"), ("PTable", "hi", "Int"), ("PTable", "pq", "PQ")):
    LIB.attrs[(_t, _a)] = ty.parse(_r)
PT, PQT = ty.parse("PTable"), ty.parse("PQ")


def at(E, v, name):
    rt = LIB.attrs[(v.t.name, name)]
    return V(rt, E.func(f"attr_{v.t.name}_{name}", [v.t], rt)(v.z))


def groups(E, pq, st):
    return LIB.spec_call(E, "rg_sizes", [LIB.spec_call(E, "pq_file", [pq], st)], st)


def pq_open(lib, E, node, st):
    E.ext_used.add("pyarrow.parquet: num_row_groups, metadata.row_group(i).num_rows and read_row_group(i) describe the file's row groups, whose rows one after the other are the rows of the file")
    f, r = E.ev1(node.args[0], st), E.fresh_value("pq", PQT, st)
    for n in ("rg_sizes", "parquet_rows"):
        E.wf_assume(lib.spec_call(E, n, [f], st), st)
    l = lib.spec_call(E, "rg_sizes", [f], st)
    st.pc += [lib.spec_call(E, "pq_file", [r], st).z == f.z, at(E, r, "num_row_groups").z == ty.l_len(l.t, l.z), at(E, at(E, r, "metadata"), "pq").z == r.z]
    return [(st, r)]


def rg_meta(lib, E, node, st):
    pq = at(E, E.ev1(node.func.value, st), "pq")
    i, l = E.coerce(E.ev1(node.args[0], st), INT, st), groups(E, pq, st)
    E.may_raise("IndexError", ty.z3.And(0 <= i.z, i.z < ty.l_len(l.t, l.z)), st, "row group number in range", node.lineno)
    r = lib.spec_call(E, "rgm", [pq, i], st)
    st.pc.append(at(E, r, "num_rows").z == ty.z3.Select(ty.l_arr(l.t, l.z), i.z))
    return [(st, r)]


def table(E, st, pq, lo, hi):
    r = E.fresh_value("table", PT, st)
    st.pc += [at(E, r, "lo").z == lo, at(E, r, "hi").z == hi, at(E, r, "pq").z == pq.z]
    return r


def read_rg(lib, E, node, st):
    pq = E.ev1(node.func.value, st)
    i, l = E.coerce(E.ev1(node.args[0], st), INT, st), groups(E, pq, st)
    E.may_raise("IndexError", ty.z3.And(0 <= i.z, i.z < ty.l_len(l.t, l.z)), st, "row group number in range", node.lineno)
    s = lambda k: lib.spec_call(E, "sum_int", [l, V(INT, k)], st).z
    return [(st, table(E, st, pq, s(i.z), s(i.z + 1)))]


def tslice(lib, E, node, st):
    """Table.slice(offset, length)"""
    t = E.ev1(node.func.value, st)
    a, n = [E.coerce(E.ev1(x, st), INT, st).z for x in node.args]
    lo, hi = at(E, t, "lo").z, at(E, t, "hi").z
    E.emit("the slice lies inside the table", st, ty.z3.And(0 <= a, 0 <= n, lo + a + n <= hi), "call", node.lineno)
    E.ext_used.add("Table.slice(offset, length) is the rows offset .. offset + length of the table; to_batches gives its rows in order in consecutive batches; to_struct_array and as_py give the rows of a batch in order")
    return [(st, table(E, st, at(E, t, "pq"), lo + a, lo + a + n))]


def to_batches(lib, E, node, st):
    t = E.ev1(node.func.value, st)
    lo, hi = at(E, t, "lo").z, at(E, t, "hi").z
    lt = ty.parse("List[PTable]")
    r = E.fresh_value("batches", lt, st)
    n, arr = ty.l_len(lt, r.z), ty.l_arr(lt, r.z)
    i = ty.fresh("i", ty.z3.IntSort())
    el = lambda k: V(PT, ty.z3.Select(arr, k))
    a0, a1 = (lambda k: at(E, el(k), "lo").z), (lambda k: at(E, el(k), "hi").z)
    st.pc += [n >= 0, ty.z3.Implies(n == 0, lo == hi), ty.z3.Implies(n > 0, ty.z3.And(a0(ty.z3.IntVal(0)) == lo, a1(n - 1) == hi)),
              ty.forall([i], ty.z3.Implies(ty.z3.And(0 <= i, i < n), ty.z3.And(lo <= a0(i), a0(i) <= a1(i), a1(i) <= hi, a0(i) == ty.z3.If(i == 0, lo, a1(i - 1)), at(E, el(i), "pq").z == at(E, t, "pq").z)), [el(i).z])]
    st.env[E.q("batches_")] = r
    return [(st, r)]


def struct_array(lib, E, node, st):
    t = E.ev1(node.func.value, st)
    lo, hi = at(E, t, "lo").z, at(E, t, "hi").z
    rows_ = lib.spec_call(E, "parquet_rows", [lib.spec_call(E, "pq_file", [at(E, t, "pq")], st)], st)
    return [(st, Seq(hi - lo, lambda i, st: V(rows_.t.args[0], ty.z3.Select(ty.l_arr(rows_.t, rows_.z), lo + i)), rows_.t.args[0]))]


GS = lambda i: f"sum_int(rg_sizes(file), {i})"
NRG = "len(rg_sizes(file))"
OFFS = lambda n: [f"len(row_group_offsets) == {n}", f"forall('Int', lambda m: implies(0 <= m and m < {n}, row_group_offsets[m][0] == {GS('m')} and row_group_offsets[m][1] == {GS('m + 1')} and {GS('m')} <= {GS('m + 1')} and 0 <= {GS('m')}), trig=(row_group_offsets[m]))"]
RD = "row_group_ranges"
DICT = [  # the pieces in the dictionary, in order: piece m is the rows PA[m] .. PE[m] and goes to position PW[m] of the output; key r's first piece is KO[r]
    f"PW[0] == 0 and np >= 0 and w == PW[np] and (np == 0 if len({RD}) == 0 else KO[{RD}.order[0]] == 0 and KO[{RD}.order[len({RD}) - 1]] + len({RD}[{RD}.order[len({RD}) - 1]]) == np)",
    "forall('Int', lambda m: implies(0 <= m and m < np, PW[m] >= 0 and PA[m] <= PE[m] and PW[m + 1] == PW[m] + PE[m] - PA[m] and PW[m + 1] <= w), trig=(PA[m]))",
    f"forall('Int', lambda p: implies(0 < p and p < len({RD}), KO[{RD}.order[p]] == KO[{RD}.order[p - 1]] + len({RD}[{RD}.order[p - 1]])), trig=({RD}.order[p]))",
    f"forall('Int', lambda r: implies(r in {RD}, 0 <= KO[r] and KO[r] + len({RD}[r]) <= np and 0 <= r and r < {NRG}), trig=(r in {RD}))",
    f"forall('Int,Int', lambda r, q: implies(r in {RD} and 0 <= q and q < len({RD}[r]), {RD}[r][q][0] == PA[KO[r] + q] - {GS('r')} and {RD}[r][q][1] == PE[KO[r] + q] - {GS('r')}), trig=({RD}[r][q]))",
    f"forall('Int,Int', lambda r, q: implies(r in {RD} and 0 <= q and q < len({RD}[r]), 0 <= {RD}[r][q][0] and {RD}[r][q][1] <= rg_sizes(file)[r]), trig=({RD}[r][q]))",
    "forall('Int,Int', lambda m, x: implies(0 <= m and m < np and PW[m] <= x and x < PW[m] + PE[m] - PA[m], ROW[x] == PA[m] + x - PW[m]), trig=(PA[m], ROW[x]))"]
COVERED = "(range_list[range_idx][1] if range_list[range_idx][1] < {g} else {g})".format(g=GS("rg_idx"))
PH2 = ["0 <= range_idx and range_idx <= len(range_list) and 0 <= rg_idx and rg_idx <= n_row_groups",
       f"implies(range_idx < len(range_list), {GS('rg_idx')} <= range_list[range_idx][1])",
       f"w == rlen(range_list, range_idx) + (max({GS('rg_idx')} - range_list[range_idx][0], 0) if range_idx < len(range_list) else 0)",
       "forall('Int,Int', lambda k, j: implies(0 <= k and k < range_idx and range_list[k][0] <= j and j < range_list[k][1], ROW[rlen(range_list, k) + j - range_list[k][0]] == j), trig=(range_list[k], parquet_rows(file)[j]))",
       f"implies(range_idx < len(range_list) and range_list[range_idx][0] < {GS('rg_idx')}, forall('Int', lambda j: implies(range_list[range_idx][0] <= j and j < {GS('rg_idx')}, ROW[rlen(range_list, range_idx) + j - range_list[range_idx][0]] == j), trig=(parquet_rows(file)[j])))",
       "forall('Int', lambda k: implies(0 <= k and k < range_idx, rlen(range_list, k) >= 0 and rlen(range_list, k) + range_list[k][1] - range_list[k][0] <= w), trig=(range_list[k]))",
       "forall('Int', lambda p: implies(0 <= p and p < len(row_group_ranges), row_group_ranges.order[p] <= rg_idx), trig=(row_group_ranges.order[p]))",
       "implies(rg_idx in row_group_ranges, row_group_ranges.order[len(row_group_ranges) - 1] == rg_idx)"]

S0, E0 = f"max(range_list[g_ri][0], {GS('g_rg')})", f"min(range_list[g_ri][1], {GS('g_rg + 1')})"
OUT = "forall('Int', lambda x: implies(0 <= x and x < len(_out), _out[x] == parse_row(parsing_func, parquet_rows(file)[ROW[x]])), trig=(_out[x]))"
PROW = "parse_row(parsing_func, parquet_rows(file)[{i}])"
CURP = "KO[rg_index] + q"
function("ParquetDataset._read_ranges_from_file", DS + "parquet_dataset.py", "ParquetDataset._read_ranges_from_file", props=["C10"],
         params={"file": "Str", "range_list": RG, "parsing_func": "PF", "server_connection": "Conn"}, returns="None", yields="Sample", params_unchanged=["range_list"],
         locals={"row_group_offsets": RG, "row_group_ranges": "Dict[Int,List[Tuple[Int,Int]]]"},
         calls={"open": "arg:0", "pq.ParquetFile": pq_open, "PQM.row_group": rg_meta, "PQ.read_row_group": read_rg, "PTable.slice": tslice,
                "PTable.to_batches": to_batches, "PTable.to_struct_array": struct_array, "Row.as_py": lambda lib, E, node, st: E.ev(node.func.value, st), "parsing_func": parse("parse_row")},
         requires=["all(0 <= range_list[k][0] and range_list[k][0] <= range_list[k][1] for k in range(len(range_list)))",
                   "forall('Int,Int', lambda k, m: implies(0 <= k and k < m and m < len(range_list), range_list[k][1] <= range_list[m][0]), trig=(range_list[k], range_list[m]))",
                   f"all(range_list[k][1] <= {GS(NRG)} for k in range(len(range_list)))",
                   f"all(rg_sizes(file)[m] >= 0 for m in range({NRG}))", f"{GS(NRG)} == len(parquet_rows(file))"],
         ghost={"g_ri": ("Int", "0"), "g_rg": ("Int", "0"), "ov": ("Bool", "False"), "had": ("Bool", "False"), "s0": ("Int", "0"), "e0": ("Int", "0"), "w": ("Int", "0"), "np": ("Int", "0"),
                "ROW": ("Map[Int,Int]", "lambda x: 0"), "PA": ("Map[Int,Int]", "lambda x: 0"), "PE": ("Map[Int,Int]", "lambda x: 0"), "PW": ("Map[Int,Int]", "lambda x: 0"), "KO": ("Map[Int,Int]", "lambda x: 0")},
         ensures=["len(_out) == rlen(range_list, len(range_list))", picked("len(range_list)", PROW)],
         cuts={0: [f"implies(range_idx < len(range_list), {GS('rg_idx')} == {GS(NRG)} and range_list[range_idx][1] == {GS(NRG)})",
                   "forall('Int', lambda m: implies(range_idx < m and m < len(range_list), range_list[m][0] == range_list[m][1]), trig=(range_list[m]))"]},
         hints=["lem_zero(range_list, 'rlen', range_idx + 1, len(range_list))"],
         loops={0: dict(index="a", asserts=[f"{GS('a + 1')} == {GS('a')} + rg_sizes(file)[a]"], inv=OFFS("a") + [f"current_row == {GS('a')} and current_row >= 0"]),
                1: dict(inv=OFFS("n_row_groups") + DICT + PH2, decreases="len(range_list) - range_idx + n_row_groups - rg_idx", asserts=[f"{GS('rg_idx + 1')} == {GS('rg_idx')} + rg_sizes(file)[rg_idx]"],
                        ghost_start=[("g_ri", "range_idx"), ("g_rg", "rg_idx"), ("had", "rg_idx in row_group_ranges"), ("ov", f"range_list[range_idx][1] > {GS('rg_idx')} and range_list[range_idx][0] < {GS('rg_idx + 1')}")],
                        ghost_end=[("s0", S0), ("e0", E0), ("ROW", "lambda x: s0 + x - w if ov and w <= x and x < w + e0 - s0 else ROW[x]"),
                                   ("PA", "lambda m: s0 if ov and m == np else PA[m]"), ("PE", "lambda m: e0 if ov and m == np else PE[m]"),
                                   ("np", "np + 1 if ov else np"), ("w", "w + e0 - s0 if ov else w"), ("PW", "lambda m: w if ov and m == np else PW[m]"),
                                   ("KO", "lambda r: np - 1 if ov and r == g_rg and not had else KO[r]")]),
                2: dict(index="p", inv=[OUT, "len(_out) == PW[KO[row_group_ranges.order[p]] if p < len(row_group_ranges) else np]"]),
                3: dict(index="q", inv=[OUT, "len(_out) == PW[KO[rg_index] + q]"]),
                4: dict(index="c", inv=[OUT, f"len(_out) == PW[{CURP}] + (0 if c == 0 else batches_[c - 1].hi - PA[{CURP}])"]),
                5: dict(index="r", inv=[OUT, f"len(_out) == PW[{CURP}] + batch.lo - PA[{CURP}] + r"])})

# ---------------------------------------------------------------- several files: one after the other, in the order of the dictionary


def file_rows(lib, E, node, st):
    """what the reader of one file (under contract above) yields for its ranges"""
    f, r, pf = [E.ev1(a, st) for a in node.args[:3]]
    return [(st, E.wf_assume(lib.spec_call(E, "file_rows", [f, r, pf], st), st))]


LIB.ufuncs["file_rows"] = (["Str", RG, "PF"], "List[Sample]")
RPF = "ranges_per_file"
FR = f"file_rows({RPF}.order[{{m}}], {RPF}[{RPF}.order[{{m}}]], parsing_func)"


def cat_files(upto):
    m = FR.format(m="m")
    return ["off[0] == 0", f"forall('Int', lambda m: implies(0 <= m and m < {upto}, off[m] >= 0 and off[m + 1] == off[m] + len({m}) and off[m + 1] <= len(_out)), trig=({RPF}.order[m]))",
            f"forall('Int,Int', lambda m, j: implies(0 <= m and m < {upto} and 0 <= j and j < len({m}), _out[off[m] + j] == {m}[j]), trig=({m}[j]))"]


for _c, _f in (("JSONLDataset", "jsonl_dataset.py"), ("ParquetDataset", "parquet_dataset.py"), ("WebDataset", "web_dataset.py")):
    function(f"{_c}.read_ranges_from_files", DS + _f, f"{_c}.read_ranges_from_files", props=["C10"],
             params={"ranges_per_file": f"Dict[Str,{RG}]", "parsing_func": "PF", "server_connection": "Conn"}, returns="None", yields="Sample", params_unchanged=["ranges_per_file"],
             calls={f"{_c}._read_ranges_from_file": file_rows}, ghost={"off": ("Map[Int,Int]", "lambda n: 0")},
             ensures=cat_files(f"len({RPF})") + [f"len(_out) == off[len({RPF})]"],
             loops={0: dict(index="a", inv=cat_files("a") + ["len(_out) == off[a]"], ghost_end=[("off", "lambda n: len(_out) if n == a + 1 else off[n]")]),
                    1: dict(index="b", inv=cat_files("a") + [f"len(_out) == off[a] + b and forall('Int', lambda j: implies(0 <= j and j < b, _out[off[a] + j] == {FR.format(m='a')}[j]), trig=({FR.format(m='a')}[j]))"])})
