"""C13: message framing.  The peer's byte stream is ghost state of the reader: the bytes still to come before the connection ends
(Reader.data) and the position reached (Reader.pos); what a writer has been given is Writer.data."""
import ast
import z3
from pyvc import ty
from pyvc.engine import V
from pyvc.ty import INT, List
from contracts.base import function, macro, LIB

N = "mixtera/network/network_utils.py"
H = {"Reader.data": "List[Int]", "Reader.pos": "Int"}
W = {"Writer.data": "List[Int]"}
RP = ["heap:Reader.pos"]


def heap(E, st, cls, f, obj):
    h = st.env[f"heap:{cls}.{f}"]
    return z3.Select(h.z, obj), h.t.args[1]


def set_heap(E, st, cls, f, obj, z):
    k = f"heap:{cls}.{f}"
    E.record_write(k)
    st.env[k] = V(st.env[k].t, z3.Store(st.env[k].z, obj, z))


def stream_read(lib, E, node, st):
    """StreamReader.read(n), n > 0: at least one and at most n of the next bytes, none exactly at the end of the stream"""
    b = E.ev1(node.func.value, st)
    k = E.coerce(E.ev1(node.args[0], st), INT, st).z
    data, lt = heap(E, st, "Reader", "data", b.z)
    pos, _ = heap(E, st, "Reader", "pos", b.z)
    E.emit(f"a positive number of bytes is requested: {ast.unparse(node)}", st, k > 0, "call", node.lineno)
    r = E.fresh_value("chunk", lt, st)
    n, i = ty.l_len(lt, r.z), ty.fresh("i", z3.IntSort())
    avail = ty.l_len(lt, data) - pos
    st.pc += [n >= 0, n <= k, n <= avail, (n == 0) == (avail == 0),
              ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(ty.l_arr(lt, r.z), i) == z3.Select(ty.l_arr(lt, data), pos + i)))]
    set_heap(E, st, "Reader", "pos", b.z, z3.simplify(pos + n))
    E.ext_used.add("StreamReader.read(n) returns 1..n of the next bytes in order, none only at the end of the stream")
    return [(st, r)]


def wait_for(lib, E, node, st):
    """asyncio.wait_for: the result, or TimeoutError at any time"""
    bad = st.copy()
    outs = E.ev(node.args[0], st)
    E.sinks[-1].append(("raise", bad, "TimeoutError"))
    E.ext_used.add("asyncio.wait_for returns the result of its awaitable or raises TimeoutError")
    return outs


def stream_write(lib, E, node, st):
    b = E.ev1(node.func.value, st)
    d = E.coerce(E.ev1(node.args[0], st), ty.parse("List[Int]"), st)
    data, lt = heap(E, st, "Writer", "data", b.z)
    a = E.wf_assume(V(lt, z3.simplify(data)), st)
    r = E.coerce(E.concat(a, d, st), lt, st)
    set_heap(E, st, "Writer", "data", b.z, r.z)
    E.ext_used.add("StreamWriter.write appends the bytes to the stream")
    return [(st, E.const(None))]


def to_bytes(lib, E, node, st):
    kw = {k.arg: k.value for k in node.keywords}
    pos = list(node.args)
    signed = "signed" in kw and isinstance(kw["signed"], ast.Constant) and kw["signed"].value is True
    if "signed" in kw and not isinstance(kw["signed"], ast.Constant):
        raise ty.Unsupported("signed is not a constant")
    order = kw.get("byteorder") or pos[1]
    if not (isinstance(order, ast.Constant) and order.value == "big"):
        raise ty.Unsupported("byte order")
    x = E.coerce(E.ev1(node.func.value, st), INT, st)
    k = E.coerce(E.ev1(pos[0] if pos else kw["length"], st), INT, st)
    fits = LIB.spec_call(E, "sfits" if signed else "ufits", [x, k], st)
    E.emit(f"the number fits: {ast.unparse(node)[:60]}", st, fits.z, "safety", node.lineno)
    r = LIB.spec_call(E, "sbytes" if signed else "ubytes", [x, k], st)
    E.ext_used.add("int.to_bytes / int.from_bytes are inverse to each other")
    return [(st, E.wf_assume(r, st))]


def from_bytes(lib, E, node, st):
    kw = {k.arg: k.value for k in node.keywords}
    pos = list(node.args)
    order = kw.get("byteorder") or pos[1]
    if not (isinstance(order, ast.Constant) and order.value == "big"):
        raise ty.Unsupported("byte order")
    if not (isinstance(kw.get("signed"), ast.Constant) and kw["signed"].value is True):
        nm = "ufrom"
    else:
        nm = "sfrom"
    l = E.coerce(E.ev1(pos[0] if pos else kw["bytes"], st), ty.parse("List[Int]"), st)
    return [(st, LIB.spec_call(E, nm, [l], st))]


UF = {"sbytes": ("Int,Int", "List[Int]"), "ubytes": ("Int,Int", "List[Int]"), "sfrom": ("List[Int]", "Int"), "ufrom": ("List[Int]", "Int"),
      "sfits": ("Int,Int", "Bool"), "ufits": ("Int,Int", "Bool"),
      "enc_utf8": ("Str", "List[Int]"), "dec_utf8": ("List[Int]", "Str"), "enc_dill": ("Obj", "List[Int]"), "dec_dill": ("List[Int]", "Obj"),
      "enc_f64": ("Real", "List[Int]"), "dec_f64": ("List[Int]", "Real"), "enc_npy": ("Array", "List[Int]"), "dec_npy": ("List[Int]", "Array")}
LIB.ufuncs = getattr(LIB, "ufuncs", {})
for _n, (_a, _r) in UF.items():
    _split, _d, _c = [], 0, ""
    for _ch in _a:
        if _ch == "," and _d == 0:
            _split.append(_c)
            _c = ""
            continue
        _d += (_ch == "[") - (_ch == "]")
        _c += _ch
    LIB.ufuncs[_n] = (_split + [_c], _r)

macro("same", ["a", "b"], "len(a) == len(b) and all(a[i] == b[i] for i in range(len(b)))")
# the bytes d stand at position p of the stream
macro("at", ["r", "p", "d"], "p + len(d) <= len(r.data) and all(r.data[p + i] == d[i] for i in range(len(d)))")
macro("avail", ["r"], "len(r.data) - r.pos")
INTAX = ["forall('Int,Int', lambda x, k: len(sbytes(x, k)) == k and len(ubytes(x, k)) == k, trig=(sfits(x, k)))",
         "forall('Int,Int', lambda x, k: len(ubytes(x, k)) == k, trig=(ubytes(x, k)))",
         "forall('Int,Int', lambda x, k: len(sbytes(x, k)) == k, trig=(sbytes(x, k)))",
         # a non-negative number that fits as signed has the same bytes as unsigned
         "forall('Int,Int', lambda x, k: implies(sfits(x, k) and x >= 0, ufits(x, k) and same(ubytes(x, k), sbytes(x, k))), trig=(sfits(x, k)))",
         "forall('List[Int],Int,Int', lambda l, x, k: implies(sfits(x, k) and same(l, sbytes(x, k)), sfrom(l) == x), trig=(sfrom(l), sfits(x, k)))"]


def codec(n, t):
    return [f"forall('List[Int],{t}', lambda l, x: implies(same(l, enc_{n}(x)), dec_{n}(l) == x), trig=(dec_{n}(l), enc_{n}(x)))"]


RCALLS = {"Reader.read": stream_read, "asyncio.wait_for": wait_for, "asyncio.get_event_loop": "fresh:Loop", "Loop.time": "fresh:Real",
          "int.from_bytes": from_bytes}
TO = {"TimeoutError": "True"}

function("network.read_bytes", N, "read_bytes", props=["C13"],
         params={"num_bytes": "Int", "reader": "Reader", "timeout": "Real"}, returns="Opt[List[Int]]", heap=H, modifies=RP, calls=RCALLS,
         requires=["0 <= reader.pos and reader.pos <= len(reader.data)"],
         raises={"ConnectionError": "0 < avail(reader) and avail(reader) < num_bytes", **TO},
         ensures=["iff(result is None, num_bytes > 0 and old(avail(reader)) == 0)",
                  "implies(result is not None, len(val(result)) == max(num_bytes, 0))",
                  "implies(result is not None, all(val(result)[i] == reader.data[old(reader.pos) + i] for i in range(num_bytes)))",
                  "reader.pos == old(reader.pos) + (max(num_bytes, 0) if result is not None else 0)", "reader.pos <= len(reader.data)",
                  "forall('Reader', lambda r: implies(r != reader, r.pos == old(r.pos)), trig=(r.pos))"],
         loops={0: dict(inv=["reader.pos == old(reader.pos) + len(buffer)", "reader.pos <= len(reader.data)", "len(buffer) <= max(num_bytes, 0)",
                             "all(buffer[i] == reader.data[old(reader.pos) + i] for i in range(len(buffer)))",
                             "forall('Reader', lambda r: implies(r != reader, r.pos == old(r.pos)), trig=(r.pos))"])},
         locals={"buffer": "List[Int]"})

RD = dict(heap=H, modifies=RP, calls=RCALLS, requires=["0 <= reader.pos and reader.pos <= len(reader.data)"])
FR = ["reader.pos >= old(reader.pos) and reader.pos <= len(reader.data)", "forall('Reader', lambda r: implies(r != reader, r.pos == old(r.pos)), trig=(r.pos))"]
function("network.read_int", N, "read_int", props=["C13"],
         params={"num_bytes": "Int", "reader": "Reader", "timeout": "Real"}, returns="Opt[Int]", **RD, axioms=INTAX,
         raises={"ConnectionError": "0 < avail(reader) and avail(reader) < num_bytes", **TO},
         ensures=["iff(result is None, num_bytes > 0 and old(avail(reader)) == 0)",
                  "reader.pos == old(reader.pos) + (max(num_bytes, 0) if result is not None else 0)",
                  # whatever number was written there is the one that is read
                  "forall('Int', lambda x: implies(num_bytes > 0 and sfits(x, num_bytes) and at(reader, old(reader.pos), sbytes(x, num_bytes)), result is not None and val(result) == x), trig=(sfits(x, num_bytes)))"] + FR)


def spec_fn(name):
    def f(lib, E, node, st):
        args = list(node.args)
        if node.func.attr in ("decode", "encode"):
            enc = args[0] if args else next((k.value for k in node.keywords if k.arg == "encoding"), None)
            if enc is not None and not (isinstance(enc, ast.Constant) and enc.value.lower().replace("_", "-") in ("utf-8", "utf8")):
                raise ty.Unsupported("encoding")
            args = [node.func.value]
        r = lib.spec_call(E, name, [E.ev1(a, st) for a in args], st)
        return [(st, E.wf_assume(r, st) if ty.needs_wf(r.t) else r)]
    return f


CALLS = {**RCALLS, "List[Int].decode": spec_fn("dec_utf8"), "dill.loads": spec_fn("dec_dill"), "dill.dumps": spec_fn("enc_dill"),
         "Str.encode": spec_fn("enc_utf8"), "Int.to_bytes": to_bytes, "Writer.write": stream_write, "Writer.drain": "skip"}
RD = {**RD, "calls": CALLS}
HDR = "size_bytes > 0 and sfits(len({d}), size_bytes) and at(reader, old(reader.pos), ubytes(len({d}), size_bytes)) and at(reader, old(reader.pos) + size_bytes, {d})"
PRE = HDR.replace("old(reader.pos)", "reader.pos")


def short(d, t):
    """an error is raised only when the connection ended after the first byte and before the end of the message"""
    return f"(size_bytes <= 0 or avail(reader) > 0) and forall('{t}', lambda m: not (" + PRE.format(d=d) + f" and len({d}) >= 0), trig=(sfits(len({d}), size_bytes)))"


# a message of which only a part arrived is never returned
WHOLE = "forall('Int', lambda x: implies(size_bytes > 0 and sfits(x, size_bytes) and at(reader, old(reader.pos), sbytes(x, size_bytes)), old(avail(reader)) >= size_bytes + x), trig=(sfits(x, size_bytes)))"
NOPART = "size_bytes <= 0 or old(avail(reader)) == 0 or old(avail(reader)) >= size_bytes"

function("network.read_bytes_obj", N, "read_bytes_obj", props=["C13"],
         params={"size_bytes": "Int", "reader": "Reader", "timeout": "Real"}, returns="Opt[List[Int]]", **RD, axioms=INTAX,
         raises={"ConnectionError": short("m", "List[Int]"), **TO},
         ensures=[WHOLE, NOPART, "implies(size_bytes > 0 and old(avail(reader)) == 0, result is None)",
                  "forall('List[Int]', lambda d: implies(" + HDR.format(d="d") + " and len(d) >= 0, implies(len(d) > 0, result is not None and same(val(result), d))"
                  " and implies(len(d) == 0, result is None) and reader.pos == old(reader.pos) + size_bytes + len(d)), trig=(sfits(len(d), size_bytes)))"] + FR)

function("network.read_utf8_string", N, "read_utf8_string", props=["C13"],
         params={"size_bytes": "Int", "reader": "Reader", "timeout": "Real"}, returns="Opt[Str]", **RD, axioms=INTAX + codec("utf8", "Str"),
         raises={"ConnectionError": short("enc_utf8(m)", "Str"), **TO},
         ensures=[WHOLE, NOPART, "implies(size_bytes > 0 and old(avail(reader)) == 0, result is None)",
                  "forall('Str', lambda s: implies(" + HDR.format(d="enc_utf8(s)") + " and len(enc_utf8(s)) >= 0, result is not None and val(result) == s"
                  " and reader.pos == old(reader.pos) + size_bytes + len(enc_utf8(s))))"] + FR)

function("network.read_pickeled_object", N, "read_pickeled_object", props=["C13"],
         params={"size_bytes": "Int", "reader": "Reader"}, returns="Opt[Obj]", **RD, axioms=INTAX + codec("dill", "Obj"),
         raises={"ConnectionError": short("enc_dill(m)", "Obj"), **TO},
         ensures=[WHOLE, NOPART, "implies(size_bytes > 0 and old(avail(reader)) == 0, result is None)",
                  "forall('Obj', lambda s: implies(" + HDR.format(d="enc_dill(s)") + " and len(enc_dill(s)) >= 0, result is not None and val(result) == s"
                  " and reader.pos == old(reader.pos) + size_bytes + len(enc_dill(s))))"] + FR)

WR = dict(heap=W, modifies=["heap:Writer.data"], calls=CALLS)
OTHER = "forall('Writer', lambda w: implies(w != writer, w.data == old(w.data)), trig=(w.data))"
macro("wrote", ["w", "b", "d"], "len(w.data) == len(b) + len(d) and forall('Int', lambda i: implies(0 <= i and i < len(b), w.data[i] == b[i]), trig=(w.data[i])) and all(w.data[len(b) + i] == d[i] for i in range(len(d)))")
macro("wrote2", ["w", "b", "d", "e"], "len(w.data) == len(b) + len(d) + len(e) and forall('Int', lambda i: implies(0 <= i and i < len(b), w.data[i] == b[i]), trig=(w.data[i]))"
      " and all(w.data[len(b) + i] == d[i] for i in range(len(d))) and all(w.data[len(b) + len(d) + i] == e[i] for i in range(len(e)))")

function("network.write_int", N, "write_int", props=["C13"], params={"data": "Int", "num_bytes": "Int", "writer": "Writer", "drain": "Bool"}, **WR, axioms=INTAX,
         requires=["sfits(data, num_bytes)"], ensures=["wrote(writer, old(writer.data), sbytes(data, num_bytes))", OTHER])
function("network.write_bytes_obj", N, "write_bytes_obj", props=["C13"],
         params={"data": "Opt[List[Int]]", "size_bytes": "Int", "writer": "Writer", "drain": "Bool"}, **WR, axioms=INTAX, params_unchanged=["data"],
         requires=["implies(data is not None, ufits(len(data), size_bytes))", "ufits(0, size_bytes)"],
         ensures=["implies(data is not None, wrote2(writer, old(writer.data), ubytes(len(data), size_bytes), data))",
                  "implies(data is None, wrote(writer, old(writer.data), ubytes(0, size_bytes)))", OTHER])
for _q, _p, _t, _e in (("write_utf8_string", "string", "Str", "enc_utf8"), ("write_pickeled_object", "obj", "Obj", "enc_dill")):
    function("network." + _q, N, _q, props=["C13"], params={_p: _t, "size_bytes": "Int", "writer": "Writer", "drain": "Bool"}, **WR, axioms=INTAX,
             requires=[f"ufits(len({_e}({_p})), size_bytes)"],
             ensures=[f"wrote2(writer, old(writer.data), ubytes(len({_e}({_p})), size_bytes), {_e}({_p}))", OTHER])


# ---------------------------------------------------------------- floats and arrays
def fmt(node, name):
    if not (node.args and isinstance(node.args[0], ast.Constant) and node.args[0].value in (">d", "!d")):
        raise ty.Unsupported(name + " format")


def pack(lib, E, node, st):
    fmt(node, "struct.pack")
    r = lib.spec_call(E, "enc_f64", [E.coerce(E.ev1(node.args[1], st), ty.REAL, st)], st)
    return [(st, E.wf_assume(r, st))]


def unpack(lib, E, node, st):
    fmt(node, "struct.unpack")
    l = E.coerce(E.ev1(node.args[1], st), ty.parse("List[Int]"), st)
    E.emit("eight bytes are unpacked", st, ty.l_len(l.t, l.z) == 8, "safety", node.lineno)
    from pyvc.engine import MTuple
    return [(st, MTuple([lib.spec_call(E, "dec_f64", [l], st)]))]


def bytesio(lib, E, node, st):
    v = E.fresh_value("buf", ty.parse("Buf"), st)
    z = E.coerce(E.ev1(node.args[0], st), ty.parse("List[Int]"), st).z if node.args else ty.empty(ty.parse("List[Int]"))
    set_heap(E, st, "Buf", "data", v.z, z)
    return [(st, v)]


def np_save(lib, E, node, st):
    b, a = E.ev1(node.args[0], st), E.coerce(E.ev1(node.args[1], st), ty.parse("Array"), st)
    set_heap(E, st, "Buf", "data", b.z, E.wf_assume(lib.spec_call(E, "enc_npy", [a], st), st).z)
    E.ext_used.add("np.save / np.load are inverse to each other")
    return [(st, E.const(None))]


def np_load(lib, E, node, st):
    b = E.ev1(node.args[0], st)
    z, t = heap(E, st, "Buf", "data", b.z)
    z = z3.simplify(z)
    return [(st, lib.spec_call(E, "dec_npy", [V(t, z)], st))]


def getvalue(lib, E, node, st):
    b = E.ev1(node.func.value, st)
    z, t = heap(E, st, "Buf", "data", b.z)
    return [(st, V(t, z))]


CALLS.update({"struct.pack": pack, "struct.unpack": unpack, "io.BytesIO": bytesio, "np.save": np_save, "np.load": np_load, "Buf.getvalue": getvalue})
F8 = ["forall('Real', lambda x: len(enc_f64(x)) == 8, trig=(enc_f64(x)))"]
function("network.write_float", N, "write_float", props=["C13"], params={"data": "Real", "writer": "Writer", "drain": "Bool"}, **WR,
         ensures=["wrote(writer, old(writer.data), enc_f64(data))", OTHER])
function("network.read_float", N, "read_float", props=["C13"], params={"reader": "Reader", "timeout": "Real"}, returns="Opt[Real]", **RD,
         axioms=codec("f64", "Real") + F8, raises={"ConnectionError": "0 < avail(reader) and avail(reader) < 8", **TO},
         ensures=["iff(result is None, old(avail(reader)) == 0)", "reader.pos == old(reader.pos) + (8 if result is not None else 0)",
                  "forall('Real', lambda x: implies(at(reader, old(reader.pos), enc_f64(x)), result is not None and val(result) == x))"] + FR)
WN = {**WR, "heap": {**W, "Buf.data": "List[Int]"}, "modifies": ["heap:Writer.data", "heap:Buf.data"]}
function("network.write_numpy_array", N, "write_numpy_array", props=["C13"],
         params={"array": "Opt[Array]", "id_bytes": "Int", "size_bytes": "Int", "writer": "Writer", "drain": "Bool"}, **WN, axioms=INTAX,
         requires=["sfits(0, id_bytes) and sfits(1, id_bytes)", "ufits(0, size_bytes)", "implies(array is not None, ufits(len(enc_npy(val(array))), size_bytes))"],
         ensures=["implies(array is None, wrote(writer, old(writer.data), sbytes(0, id_bytes)))",
                  "implies(array is not None, len(writer.data) == len(old(writer.data)) + id_bytes + size_bytes + len(enc_npy(val(array))))",
                  "implies(array is not None, all(writer.data[i] == old(writer.data)[i] for i in range(len(old(writer.data)))))",
                  "implies(array is not None, all(writer.data[len(old(writer.data)) + i] == sbytes(1, id_bytes)[i] for i in range(id_bytes)))",
                  "implies(array is not None, all(writer.data[len(old(writer.data)) + id_bytes + i] == ubytes(len(enc_npy(val(array))), size_bytes)[i] for i in range(size_bytes)))",
                  "implies(array is not None, all(writer.data[len(old(writer.data)) + id_bytes + size_bytes + i] == enc_npy(val(array))[i] for i in range(len(enc_npy(val(array))))))",
                  OTHER])
NA = ("id_bytes > 0 and size_bytes > 0 and sfits(1, id_bytes) and at(reader, old(reader.pos), sbytes(1, id_bytes)) and sfits(len(enc_npy(a)), size_bytes) and len(enc_npy(a)) > 0"
      " and at(reader, old(reader.pos) + id_bytes, ubytes(len(enc_npy(a)), size_bytes)) and at(reader, old(reader.pos) + id_bytes + size_bytes, enc_npy(a))")
function("network.read_numpy_array", N, "read_numpy_array", props=["C13"],
         params={"id_bytes": "Int", "size_bytes": "Int", "reader": "Reader", "timeout": "Real"}, returns="Opt[Array]",
         **{**RD, "heap": {**H, "Buf.data": "List[Int]"}, "modifies": RP + ["heap:Buf.data"]}, axioms=INTAX + codec("npy", "Array"),
         raises={"ConnectionError": "(id_bytes <= 0 or avail(reader) > 0) and forall('Array', lambda a: not (" + NA.replace("old(reader.pos)", "reader.pos") + "))", **TO,
                 "AssertionError": "avail(reader) > 0 or id_bytes <= 0"},
         ensures=["implies(id_bytes > 0 and old(avail(reader)) == 0, result is None)",
                  "forall('Array', lambda a: implies(" + NA + ", result is not None and val(result) == a and reader.pos == old(reader.pos) + id_bytes + size_bytes + len(enc_npy(a))))",
                  "implies(id_bytes > 0 and sfits(0, id_bytes) and at(reader, old(reader.pos), sbytes(0, id_bytes)), result is None and reader.pos == old(reader.pos) + id_bytes)"] + FR)
