"""C18: computed properties (local executor); C21: metadata parsers"""
from pyvc import ty
from pyvc.engine import V
from contracts.base import function, LIB

E_ = "mixtera/core/processing/property_calculation/local_executor.py"
VAL = ty.parse("Val")                   # a value in a record (str, int, float, list): compared only for being the same value
for _t, _f in (("Int", "val_int"), ("Str", "val_str"), ("List[Val]", "val_list"), ("List[Opt[Val]]", "val_list1"), ("Pred", "val_pred")):
    LIB.inject[(ty.parse(_t), VAL)] = _f
    LIB.ufuncs[_f] = ([_t], "Val")
LIB.views[VAL] = ("elems", ty.parse("List[Val]"))
LIB.ufuncs["elems"] = (["Val"], "List[Val]")
LIB.ufuncs["isinstance_list"] = (["Val"], "Bool")
BATCH = "Dict[Str,List[Val]]"
LIB.ufuncs["file_lines"] = (["Str", "DT"], "List[Tuple[Int,Str]]")      # (line number, line) of a file


def samples(lib, E, node, st):
    p, d = [E.ev1(a, st) for a in node.args]
    E.ext_used.add("_read_samples_from_file gives the numbered lines of the file (under contract for JSONL)")
    return [(st, E.wf_assume(lib.spec_call(E, "file_lines", [p, d], st), st))]


COLS = (("data", "val_str(file_lines(files[{m}][3], files[{m}][2])[{j}][1])"), ("file_id", "val_int(files[{m}][0])"),
        ("dataset_id", "val_int(files[{m}][1])"), ("line_id", "val_int(file_lines(files[{m}][3], files[{m}][2])[{j}][0])"))
FL = "file_lines(files[{m}][3], files[{m}][2])"


def everything(upto, line):
    """total, f, l: sample number s (0 <= s < total) is line l[s] of file f[s]; the samples are all lines of the first `upto` files and the first `line` lines of the next, in order"""
    return [f"off[0] == 0 and total == off[{upto}] + {line}",
            f"forall('Int', lambda m: implies(0 <= m and m < {upto}, off[m + 1] == off[m] + len({FL.format(m='m')}) and off[m] >= 0 and off[m + 1] <= total), trig=(files[m]))",
            f"forall('Int,Int', lambda m, j: implies(0 <= m and m < {upto} and 0 <= j and j < len({FL.format(m='m')}), f[off[m] + j] == m and l[off[m] + j] == j), trig=({FL.format(m='m')}[j]))"]


def batches(bs="self._batches"):
    """batch b holds the samples from bo[b] on"""
    col = " and ".join(f"{bs}[b]['{c}'][i] == {v.format(m='f[bo[b] + i]', j='l[bo[b] + i]')}" for c, v in COLS)
    return ["bo[0] == 0",
            f"forall('Int', lambda b: implies(0 <= b and b < len({bs}), bo[b] >= 0 and bo[b + 1] == bo[b] + len({bs}[b]['data']) and bo[b + 1] <= total and {same_len(bs + '[b]')}), trig=({bs}[b]))",
            f"forall('Int,Int', lambda b, i: implies(0 <= b and b < len({bs}) and 0 <= i and i < len({bs}[b]['data']), {col}), trig=({bs}[b]['data'][i]))"]


def same_len(b):
    return f"'data' in {b} and 'file_id' in {b} and 'dataset_id' in {b} and 'line_id' in {b} and len({b}['file_id']) == len({b}['data']) and len({b}['dataset_id']) == len({b}['data']) and len({b}['line_id']) == len({b}['data'])"


LISTS = (("data", "data", "Str"), ("file_ids", "file_id", "Int"), ("dataset_ids", "dataset_id", "Int"), ("line_ids", "line_id", "Int"))
OPEN = ["count == len(data) and len(file_ids) == count and len(dataset_ids) == count and len(line_ids) == count and 0 <= count and count < self._batch_size",
        "total == bo[len(self._batches)] + count and implies(count > 0, bo[len(self._batches) + 1] == total)"] + [
        f"forall('Int', lambda i: implies(0 <= i and i < count, {'val_str' if t == 'Str' else 'val_int'}({n}[i]) == {dict(COLS)[c].format(m='f[bo[len(self._batches)] + i]', j='l[bo[len(self._batches)] + i]')}), trig=({n}[i]))" for n, c, t in LISTS]
FULL = ["forall('Int', lambda b: implies(0 <= b and b < len(self._batches), len(self._batches[b]['data']) == self._batch_size), trig=(self._batches[b]))"]
function("LocalPropertyCalculationExecutor.load_data", E_, "LocalPropertyCalculationExecutor.load_data", props=["C18"],
         params={"files": "List[Tuple[Int,Int,DT,Str]]", "data_only_on_primary": "Bool"}, returns="None",
         fields={"_batches": f"List[{BATCH}]", "_batch_size": "Int"}, modifies=["self._batches"], params_unchanged=["files"],
         calls={"self._read_samples_from_file": samples, "np.array": "arg:0"}, dict_literal=BATCH,
         locals={"data": "List[Str]", "file_ids": "List[Int]", "dataset_ids": "List[Int]", "line_ids": "List[Int]"},
         ghost={"total": ("Int", "0"), "f": ("Map[Int,Int]", "lambda n: 0"), "l": ("Map[Int,Int]", "lambda n: 0"), "off": ("Map[Int,Int]", "lambda n: 0"), "bo": ("Map[Int,Int]", "lambda n: 0")},
         requires=["self._batch_size >= 1 and len(self._batches) == 0"],
         ensures=everything("len(files)", "0") + batches() + ["bo[len(self._batches)] == total",
                 "forall('Int', lambda b: implies(0 <= b and b < len(self._batches), 1 <= len(self._batches[b]['data']) and len(self._batches[b]['data']) <= self._batch_size and implies(b + 1 < len(self._batches), len(self._batches[b]['data']) == self._batch_size)), trig=(self._batches[b]))"],
         loops={0: dict(index="a", inv=everything("a", "0") + batches() + OPEN + FULL, ghost_end=[("off", "lambda n: total if n == a + 1 else off[n]")]),
                1: dict(index="c", inv=everything("a", "c") + [f"forall('Int', lambda j: implies(0 <= j and j < c, f[off[a] + j] == a and l[off[a] + j] == j), trig=({FL.format(m='a')}[j]))"] + batches() + OPEN + FULL,
                        ghost_start=[("f", "lambda n: a if n == total else f[n]"), ("l", "lambda n: c if n == total else l[n]"), ("total", "total + 1")],
                        ghost_end=[("bo", "lambda n: total if n == len(self._batches) + (1 if count > 0 else 0) else bo[n]")])})

LIB.ufuncs["calc"] = ([BATCH], "List[Pred]")            # what the user's calc_func makes of a batch


def calc(lib, E, node, st):
    E.ext_used.add("calc_func is a function of the batch")
    return [(st, E.wf_assume(lib.spec_call(E, "calc", [E.ev1(node.args[1], st)], st), st))]


RES = "Dict[Str,Val]"
OKP = "(isinstance_str({p}) or isinstance_int({p}) or isinstance_float({p}) or isinstance_list({p}))"
for _n in ("str", "int", "float", "list"):
    LIB.ufuncs["pred_" + _n] = (["Pred"], "Bool")
SB = "self._batches"
ROW = "{o}['dataset_id'] == {b}['dataset_id'][i] and {o}['file_id'] == {b}['file_id'][i] and {o}['sample_id'] == {b}['line_id'][i] and {o}['property_value'] == val_pred(calc({b})[i]) and len({o}) == 4"


def results(upto, out):
    return ["ro[0] == 0", f"forall('Int', lambda b: implies(0 <= b and b < {upto}, ro[b] >= 0 and ro[b + 1] == ro[b] + len(calc({SB}[b])) and ro[b + 1] <= len({out}) and len(calc({SB}[b])) == len({SB}[b]['data'])), trig=({SB}[b]))",
            f"forall('Int,Int', lambda b, i: implies(0 <= b and b < {upto} and 0 <= i and i < len({SB}[b]['data']), " + ROW.format(o=f"{out}[ro[b] + i]", b=f"{SB}[b]") + f"), trig=(calc({SB}[b])[i]))"]


function("LocalPropertyCalculationExecutor.run", E_, "LocalPropertyCalculationExecutor.run", props=["C18"],
         params={}, returns=f"List[{RES}]", fields={"_batches": f"List[{BATCH}]"}, modifies=[], locals={"inference_results": f"List[{RES}]"},
         calls={"tqdm": "arg:0", "self._calc_func": calc}, dict_literal=RES, ghost={"ro": ("Map[Int,Int]", "lambda n: 0")},
         requires=[f"forall('Int', lambda b: implies(0 <= b and b < len({SB}), {same_len(SB + '[b]')}), trig=({SB}[b]))"],
         ensures=results(f"len({SB})", "result") + [f"len(result) == ro[len({SB})]"],
         raises={"RuntimeError": f"exists('Int', lambda b: 0 <= b and b < len({SB}) and len(calc({SB}[b])) != len({SB}[b]['data']))", "NotImplementedError": "True"},
         loops={0: dict(index="a", inv=results("a", "inference_results") + ["len(inference_results) == ro[a]"], ghost_end=[("ro", "lambda n: len(inference_results) if n == a + 1 else ro[n]")]),
                1: dict(index="c", inv=results("a", "inference_results") + ["len(inference_results) == ro[a] + c and len(batch_predictions) == len(batch['data'])",
                        "forall('Int', lambda i: implies(0 <= i and i < c, " + ROW.format(o="inference_results[ro[a] + i]", b="batch") + "), trig=(calc(batch)[i]))"])})

LIB.ufuncs["rstrip"] = (["Str"], "Str")

LIB.ufuncs["path"] = (["Str"], "Path")
LIB.ufuncs["path_lines"] = (["Path"], "List[Str]")
LIB.attrs[("Path", "suffix")] = ty.STR


def opened(lib, E, node, st):
    E.ext_used.add("open / xopen yield the lines of the file in order")
    return [(st, E.wf_assume(lib.spec_call(E, "path_lines", [E.ev1(node.args[0], st)], st), st))]


function("LocalPropertyCalculationExecutor._read_samples_from_jsonl_file", E_, "LocalPropertyCalculationExecutor._read_samples_from_jsonl_file", props=["C18"],
         params={"file": "Str"}, returns="None", yields="Tuple[Int,Str]", calls={"Path": lambda lib, E, node, st: [(st, lib.spec_call(E, "path", [E.ev1(node.args[0], st)], st))], "file_path.exists": "fresh:Bool", "open_func": opened, "line.rstrip": lambda lib, E, node, st: [(st, lib.spec_call(E, "rstrip", [E.ev1(node.func.value, st)], st))]},
         raises={"RuntimeError": "True"},
         ensures=["len(_out) == len(path_lines(path(file))) and forall('Int', lambda i: implies(0 <= i and i < len(_out), _out[i][0] == i and _out[i][1] == rstrip(path_lines(path(file))[i])), trig=(_out[i]))"],
         loops={0: dict(index="a", inv=["len(_out) == a and forall('Int', lambda i: implies(0 <= i and i < a, _out[i][0] == i and _out[i][1] == rstrip(path_lines(path(file))[i])), trig=(_out[i]))"])})

# ---------------------------------------------------------------- C21
P_ = "mixtera/core/datacollection/index/parser/metadata_parser.py"
for _a, _t in (("name", "Str"), ("dtype", "Str"), ("multiple", "Bool"), ("nullable", "Bool"), ("enum_options", "Opt[Set[Val]]")):
    LIB.attrs[("MProp", _a)] = ty.parse(_t)
REC = "Dict[Str,Opt[Val]]"
VK, PK = "kwargs[k]", "self.property_map[k]"
GIVEN = f"(k in kwargs and {VK} is not None)"
V_, L_ = f"val({VK})", f"isinstance_list(val({VK}))"
INV_ = {   # the ways in which the value of property k can be wrong
    "missing": f"not {GIVEN} and not {PK}.nullable",
    "list": f"{GIVEN} and {L_} and not {PK}.multiple",
    "enum": f"{GIVEN} and {PK}.dtype == 'ENUM' and not {L_} and not ({V_} in val({PK}.enum_options))"}
ELEM = f"{GIVEN} and {PK}.dtype == 'ENUM' and {L_} and 0 <= i and i < len(elems({V_})) and not (elems({V_})[i] in val({PK}.enum_options))"


def stored(m, upto):
    """the record m holds the normalised value of every property up to position `upto`, and nothing else"""
    return [f"'sample_id' in {m} and val({m}['sample_id']) == val_int(sample_id)",
            f"forall('Str', lambda k: iff(k in {m}, k == 'sample_id' or (k in self.property_map and posof(self.property_map, k) < {upto})), trig=(k in {m}))",
            f"forall('Str', lambda k: iff(k in {m}, k == 'sample_id' or (k in self.property_map and posof(self.property_map, k) < {upto})), trig=(k in self.property_map))",
            *[f"forall('Str', lambda k: implies(k in self.property_map and posof(self.property_map, k) < {upto}, not ({x})), trig=(k in self.property_map))" for x in INV_.values()],
            f"forall('Str,Int', lambda k, i: implies(k in self.property_map and posof(self.property_map, k) < {upto}, not ({ELEM})), trig=(k in self.property_map, elems({V_})[i]))",
            f"forall('Str', lambda k: implies(k in self.property_map and posof(self.property_map, k) < {upto}, implies(not {GIVEN}, {m}[k] is None)"
            f" and implies({GIVEN}, {m}[k] is not None and val({m}[k]) == (val_list1([{VK}]) if {PK}.multiple and not {L_} else {V_}))), trig=(k in self.property_map))"]


function("MetadataParser.add_metadata", P_, "MetadataParser.add_metadata", props=["C21"],
         params={"sample_id": "Int", "kwargs": REC}, returns="None", fields={"metadata": f"List[{REC}]", "property_map": "Dict[Str,MProp]"}, modifies=["self.metadata"],
         params_unchanged=["kwargs"], dict_literal=REC, locals={"metadata": REC},
         axioms=["forall('List[Opt[Val]]', lambda x: isinstance_list(val_list1(x)) and len(elems(val_list1(x))) == len(x) and implies(len(x) > 0, elems(val_list1(x))[0] == val(x[0])), trig=(val_list1(x)))",
                 "forall('List[Opt[Val]],Int', lambda x, i: implies(0 <= i and i < len(x), elems(val_list1(x))[i] == val(x[i])), trig=(val_list1(x), x[i]))"],
         requires=["not ('sample_id' in self.property_map)", f"forall('Str', lambda k: implies(k in self.property_map and {PK}.dtype == 'ENUM', {PK}.enum_options is not None), trig=(k in self.property_map))"],
         ensures=["len(self.metadata) == old(len(self.metadata)) + 1 and all(self.metadata[i] == old(self.metadata)[i] for i in range(old(len(self.metadata))))"] + stored("self.metadata[old(len(self.metadata))]", "len(self.property_map)"),
         raises={"RuntimeError": " or ".join(f"exists('Str', lambda k: k in self.property_map and {x})" for x in INV_.values()) + f" or exists('Str,Int', lambda k, i: k in self.property_map and {ELEM})"}, on_raise={"RuntimeError": ["self.metadata == old(self.metadata)"]},
         loops={0: dict(index="a", inv=stored("metadata", "a") + ["self.metadata == old(self.metadata)"])})
