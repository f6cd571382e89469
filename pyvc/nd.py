"""One-dimensional numpy arrays: Nd[T] values (fixed length, element-wise arithmetic, boolean masks, prefix slices).

dtypes are not modelled: floats are reals, integers mathematical integers.  Shapes have to be equal (broadcasting of a
length-one array is not used by the verified code, so equality is an obligation)."""
import ast
import z3
from . import ty
from .ty import INT, BOOL, REAL, List, T, Unsupported
from .engine import V, Meta, Py, Poly


def Nd(t): return T("Nd", (t,))


class NdSeq(Meta):
    """element-wise result not yet stored: n elements, get(i, st) -> V"""

    def __init__(self, n, get, et):
        self.n, self.get, self.et = n, get, et


class Masked(Meta):
    """a[mask]: the elements of the positions where mask holds; only combined with views of the same mask"""

    def __init__(self, n, get, et, mask):
        self.n, self.get, self.et, self.mask = n, get, et, mask


def isnd(v):
    return isinstance(v, (NdSeq, Masked)) or isinstance(v, V) and v.t.kind == "Nd"


def view(E, v, st):
    if isinstance(v, (NdSeq, Masked)):
        return v
    if isinstance(v, V) and v.t.kind == "Nd":
        arr = ty.l_arr(v.t, v.z)
        et = v.t.args[0]
        return NdSeq(ty.l_len(v.t, v.z), lambda i, s: V(et, z3.Select(arr, i)), et)
    raise Unsupported("array expected")


def store(E, v, st, et=None, hint="nd"):
    """materialise as a value of type Nd[..]"""
    if isinstance(v, V) and v.t.kind == "Nd" and (et is None or v.t.args[0] is et):
        return v
    s = view(E, v, st)
    if isinstance(s, Masked):
        raise Unsupported("masked view stored")
    et = et or s.et
    t = Nd(et)
    arr = ty.fresh(hint, z3.ArraySort(z3.IntSort(), ty.sort(et)))
    i = ty.fresh("i", z3.IntSort())
    e = E.coerce(s.get(i, st), et, st)
    st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.Select(arr, i) == e.z), [z3.Select(arr, i)]))
    n = ty.fresh("ndn", z3.IntSort())
    st.pc.append(n == s.n)
    st.pc.append(n >= 0)
    return V(t, ty.mk(t, arr, n))


def same_shape(E, a, b, st, node):
    if z3.is_true(z3.simplify(a.n == b.n)):
        return
    E.emit(f"shapes are equal: {ast.unparse(node)[:60] if node is not None else ''}", st, a.n == b.n, "safety", getattr(node, "lineno", None))
    st.pc.append(a.n == b.n)


def combine(E, f, a, b, st, node, et):
    """element-wise f over arrays and scalars"""
    va = view(E, a, st) if isnd(a) else None
    vb = view(E, b, st) if isnd(b) else None
    if va is not None and vb is not None:
        if isinstance(va, Masked) or isinstance(vb, Masked):
            if not (isinstance(va, Masked) and isinstance(vb, Masked) and va.mask.z.eq(vb.mask.z)):
                raise Unsupported("views of different masks")
        else:
            same_shape(E, va, vb, st, node)
    ref = va or vb
    ga = va.get if va is not None else (lambda i, s: a)
    gb = vb.get if vb is not None else (lambda i, s: b)
    get = lambda i, s: f(ga(i, s), gb(i, s), s)
    if isinstance(ref, Masked):
        return Masked(ref.n, get, et, ref.mask)
    return NdSeq(ref.n, get, et)


def scalar_t(v):
    return v.t if isinstance(v, V) and v.t.kind != "Nd" else (v.t.args[0] if isinstance(v, V) else v.et)


def binop(E, op, a, b, st, node, spec=False):
    ta, tb = scalar_t(a), scalar_t(b)
    et = REAL if REAL in (ta, tb) or isinstance(op, ast.Div) else INT
    if isinstance(op, ast.Div) and not spec:
        vb = view(E, b, st) if isnd(b) else None
        if vb is None:
            bz = E.coerce(b, REAL, st).z
            E.emit(f"divisor is not zero: {ast.unparse(node)[:60]}", st, bz != 0, "safety", node.lineno)
            st.pc.append(bz != 0)
        else:
            i = ty.fresh("i", z3.IntSort())
            g = z3.And(0 <= i, i < vb.n)
            if isinstance(vb, Masked):
                g = z3.And(g, z3.Select(ty.l_arr(vb.mask.t, vb.mask.z), i))
            e = vb.get(i, st)
            E.emit(f"no divisor is zero: {ast.unparse(node)[:60]}", st, z3.ForAll([i], z3.Implies(g, E.coerce(e, REAL, st).z != 0)), "safety", node.lineno)
    return combine(E, lambda x, y, s: E.binop(op, x, y, s, node, True), a, b, st, node, et)


def compare(E, op, a, b, st, node):
    return combine(E, lambda x, y, s: V(BOOL, E.compare(op, x, y, s, node)), a, b, st, node, BOOL)


def subscript(E, b, i, st, node):
    """array[mask] / array[int]"""
    if isinstance(i, NdSeq) and i.et is BOOL:
        i = store(E, i, st, BOOL, "mask")
    if isinstance(i, V) and i.t.kind == "Nd" and i.t.args[0] is BOOL:
        s = view(E, b, st)
        same_shape(E, s, view(E, i, st), st, node)
        return Masked(s.n, s.get, s.et, i)
    s = view(E, b, st)
    iz = E.coerce(i, INT, st).z
    E.may_raise("IndexError", z3.And(-s.n <= iz, iz < s.n), st, f"index in range: {ast.unparse(node)}", getattr(node, "lineno", None))
    return s.get(z3.If(iz < 0, iz + s.n, iz), st)


def bounds(E, sl, n, st):
    from .engine import norm_index

    def clamp(e, d):
        if e is None:
            return d
        z = norm_index(E.coerce(E.ev1(e, st), INT, st).z, n)
        return z3.If(z < 0, z3.IntVal(0), z3.If(z > n, n, z))
    lo, hi = clamp(sl.lower, z3.IntVal(0)), clamp(sl.upper, n)
    return z3.simplify(lo), z3.simplify(z3.If(hi > lo, hi, lo))


def slice_(E, b, sl, st):
    s = view(E, b, st)
    if sl.step is not None:
        raise Unsupported("slice step")
    lo, hi = bounds(E, sl, s.n, st)
    return NdSeq(z3.simplify(hi - lo), lambda i, t: s.get(z3.simplify(lo + i), t), s.et)


def assign_at(E, cur, sl, v, st, node):
    """the array after  cur[sl] = v  (mask, slice or index)"""
    et = cur.t.args[0]
    arr, n = ty.l_arr(cur.t, cur.z), ty.l_len(cur.t, cur.z)
    if isinstance(sl, ast.Slice):
        lo, hi = bounds(E, sl, n, st)
        src = view(E, v, st) if isnd(v) else None
        if src is not None:
            E.emit(f"shapes are equal: {ast.unparse(node)[:60]}", st, src.n == hi - lo, "safety", node.lineno)
            st.pc.append(src.n == hi - lo)
        get = lambda i, s: V(et, z3.If(z3.And(lo <= i, i < hi), E.coerce(src.get(z3.simplify(i - lo), s) if src is not None else v, et, s).z, z3.Select(arr, i)))
        return store(E, NdSeq(n, get, et), st, et)
    ix = E.ev1(sl, st)
    if isinstance(ix, NdSeq) and ix.et is BOOL:
        ix = store(E, ix, st, BOOL, "mask")
    if isinstance(ix, V) and ix.t.kind == "Nd" and ix.t.args[0] is BOOL:
        marr = ty.l_arr(ix.t, ix.z)
        same_shape(E, view(E, cur, st), view(E, ix, st), st, node)
        if isnd(v):
            if not (isinstance(v, Masked) and v.mask.z.eq(ix.z)):
                raise Unsupported("assignment of a view of another mask")
        get = lambda i, s: V(et, z3.If(z3.Select(marr, i), E.coerce(v.get(i, s) if isinstance(v, Masked) else v, et, s).z, z3.Select(arr, i)))
        return store(E, NdSeq(n, get, et), st, et)
    iz = E.coerce(ix, INT, st).z
    E.may_raise("IndexError", z3.And(-n <= iz, iz < n), st, f"index in range: {ast.unparse(node)}", node.lineno)
    return V(cur.t, ty.mk(cur.t, z3.Store(arr, z3.If(iz < 0, iz + n, iz), E.coerce(v, et, st).z), n))


def sum_(lib, E, v, st):
    s = view(E, v, st)
    et = INT if s.et is BOOL else s.et
    if isinstance(s, Masked):
        marr = ty.l_arr(s.mask.t, s.mask.z)
        zero = z3.RealVal(0) if et is REAL else z3.IntVal(0)
        w = NdSeq(s.n, lambda i, t: V(et, z3.If(z3.Select(marr, i), E.coerce(s.get(i, t), et, t).z, zero)), et)
    elif s.et is BOOL:
        w = NdSeq(s.n, lambda i, t: E.coerce(s.get(i, t), INT, t), INT)
    else:
        w = s
    a = store(E, w, st, et, "summed") if w is not s or not (isinstance(v, V)) else v
    k = getattr(E, "_nsums", 0)
    names = [n for n in st.env if n.startswith("ghost:_sum")]
    st.env[f"ghost:_sum{len(names)}"] = V(List(et), ty.mk(List(et), ty.l_arr(a.t, a.z), ty.l_len(a.t, a.z)))
    for f in lib.sums.values():
        if f.name.startswith("sum_") and f.et is et and not f.pt:
            return V(et, f.fn()(ty.l_arr(a.t, a.z), ty.l_len(a.t, a.z)))
    raise Unsupported("sum")


DTYPES = {"float32": REAL, "float64": REAL, "float": REAL, "int64": INT, "int32": INT, "int": INT, "bool": BOOL, "bool_": BOOL}


def dtype_of(E, node, default, st):
    for k in node.keywords:
        if k.arg == "dtype":
            v = k.value
            if isinstance(v, ast.Attribute) and v.attr == "dtype":
                b = E.ev1(v.value, st)
                return scalar_t(b)
            nm = v.attr if isinstance(v, ast.Attribute) else getattr(v, "id", "")
            if nm in DTYPES:
                return DTYPES[nm]
            raise Unsupported(f"dtype {ast.unparse(v)}")
    return default


def install(Library):
    def np_any(self, E, node, st):
        s = view(E, E.ev1(node.args[0], st), st)
        b = ty.fresh("any", z3.BoolSort())
        i = ty.fresh("i", z3.IntSort())
        w = ty.fresh("w", z3.IntSort())
        g = E.truth(s.get(i, st), st)
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n, g), b)))
        st.pc.append(z3.Implies(b, z3.And(0 <= w, w < s.n, E.truth(s.get(w, st), st))))
        return [(st, V(BOOL, b))]

    def np_sum(self, E, node, st):
        return [(st, sum_(self, E, E.ev1(node.args[0], st), st))]

    def np_isclose(self, E, node, st):
        a, b = (E.coerce(E.ev1(x, st), REAL, st).z for x in node.args[:2])
        d = z3.If(a - b >= 0, a - b, b - a)
        ab = z3.If(b >= 0, b, -b)
        return [(st, V(BOOL, d <= z3.Q(1, 10**8) + z3.Q(1, 10**5) * ab))]

    def np_zeros(self, E, node, st):
        n = E.coerce(E.ev1(node.args[0], st), INT, st).z
        et = dtype_of(E, node, REAL, st)
        zero = {REAL: z3.RealVal(0), INT: z3.IntVal(0), BOOL: z3.BoolVal(False)}[et]
        E.emit(f"length is not negative: {ast.unparse(node)[:60]}", st, n >= 0, "safety", node.lineno)
        st.pc.append(n >= 0)
        return [(st, V(Nd(et), ty.mk(Nd(et), z3.K(z3.IntSort(), zero), n)))]

    def np_ones(self, E, node, st):
        n = E.coerce(E.ev1(node.args[0], st), INT, st).z
        et = dtype_of(E, node, REAL, st)
        one = {REAL: z3.RealVal(1), INT: z3.IntVal(1), BOOL: z3.BoolVal(True)}[et]
        return [(st, V(Nd(et), ty.mk(Nd(et), z3.K(z3.IntSort(), one), n)))]

    def like(val):
        def f(self, E, node, st):
            s = view(E, E.ev1(node.args[0], st), st)
            et = dtype_of(E, node, s.et, st)
            c = {REAL: z3.RealVal(val), INT: z3.IntVal(val), BOOL: z3.BoolVal(bool(val))}[et]
            return [(st, V(Nd(et), ty.mk(Nd(et), z3.K(z3.IntSort(), c), s.n)))]
        return f

    def np_array(self, E, node, st):
        a = node.args[0]
        if isinstance(a, ast.List):
            vs = [E.ev1(x, st) for x in a.elts]
            et = dtype_of(E, node, vs[0].t if vs else REAL, st)
            arr = ty.default_arr(et)
            for i, v in enumerate(vs):
                arr = z3.Store(arr, i, E.coerce(v, et, st).z)
            return [(st, V(Nd(et), ty.mk(Nd(et), arr, z3.IntVal(len(vs)))))]
        v = E.ev1(a, st)
        if isnd(v):
            return [(st, store(E, v, st, dtype_of(E, node, scalar_t(v), st)))]
        l = E.mat(v, st)
        if l.t.kind != "List":
            raise Unsupported("np.array")
        et = dtype_of(E, node, l.t.args[0], st)
        return [(st, store(E, NdSeq(ty.l_len(l.t, l.z), lambda i, s: V(l.t.args[0], z3.Select(ty.l_arr(l.t, l.z), i)), l.t.args[0]), st, et))]

    def np_concatenate(self, E, node, st):
        parts = node.args[0]
        if not isinstance(parts, (ast.List, ast.Tuple)) or len(parts.elts) != 2:
            raise Unsupported("np.concatenate")
        a, b = (view(E, E.ev1(x, st), st) for x in parts.elts)
        et = a.et if a.et is b.et else REAL
        return [(st, store(E, NdSeq(a.n + b.n, lambda i, s: V(et, z3.If(i < a.n, E.coerce(a.get(i, s), et, s).z, E.coerce(b.get(z3.simplify(i - a.n), s), et, s).z)), et), st, et))]

    for n, f in (("any", np_any), ("sum", np_sum), ("isclose", np_isclose), ("zeros", np_zeros), ("ones", np_ones), ("zeros_like", like(0)), ("ones_like", like(1)),
                 ("array", np_array), ("concatenate", np_concatenate)):
        setattr(Library, "x_np_" + n, f)
    Library.m_Nd_sum = lambda self, E, node, st, p, t, cur: [(st, sum_(self, E, cur, st))]
    Library.m_Nd_copy = lambda self, E, node, st, p, t, cur: [(st, cur)]
