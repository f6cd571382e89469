"""Types of the verified Python subset and their z3 sorts.

Scalars   Int Bool Real(float, treated as mathematical real) Str None
U sorts   any other capitalised name, e.g. Key, Sample: uninterpreted sort
Containers (immutable values; mutation replaces the value at a place)
          List[T] Tuple[..] Dict[K,V] DefaultDict[K,V] Set[T] Opt[T] Map[K,V] (ghost) Iter[T] Cell[T]
"""
from __future__ import annotations
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation)."""


class T:
    _cache: dict = {}
    __slots__ = ("kind", "args", "name", "_s", "_h")

    def __new__(cls, kind, args=(), name=""):
        key = (kind, tuple(args), name)
        if key in cls._cache:
            return cls._cache[key]
        o = object.__new__(cls)
        o.kind, o.args, o.name = kind, tuple(args), name
        o._s = None
        cls._cache[key] = o
        return o

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.kind == "U":
            return self.name
        if not self.args:
            return self.kind
        return f"{self.kind}[{','.join(map(repr, self.args))}]"

    @property
    def mutable(self):
        return self.kind in ("List", "Nd", "Dict", "DefaultDict", "Set", "Iter", "Cell") or (
            self.kind in ("Opt",) and self.args[0].mutable)

    @property
    def isdict(self):
        return self.kind in ("Dict", "DefaultDict")


INT, BOOL, REAL, STR, NONE = T("Int"), T("Bool"), T("Real"), T("Str"), T("None")


def List(t): return T("List", (t,))
def Tup(*ts): return T("Tuple", ts)
def Opt(t): return t if t.kind == "Opt" else T("Opt", (t,))
def U(n): return T("U", (), n)


_KINDS = {"Nd", "List", "Tuple", "Dict", "DefaultDict", "Set", "Opt", "Map", "Iter", "Cell"}


def parse(s: str) -> T:
    toks, i = [], 0
    cur = ""
    for ch in s:
        if ch in "[],":
            if cur.strip():
                toks.append(cur.strip())
            cur = ""
            toks.append(ch)
        else:
            cur += ch
    if cur.strip():
        toks.append(cur.strip())
    pos = 0

    def p():
        nonlocal pos
        n = toks[pos]
        pos += 1
        args = []
        if pos < len(toks) and toks[pos] == "[":
            pos += 1
            while True:
                args.append(p())
                if toks[pos] == ",":
                    pos += 1
                    continue
                assert toks[pos] == "]", s
                pos += 1
                break
        if n in ("Int", "Bool", "Real", "Str", "None"):
            return T(n)
        if n in _KINDS:
            return T(n, args)
        return U(n)

    r = p()
    assert pos == len(toks), s
    return r


_n = [0]


def canon(t: T):
    """the type with every DefaultDict seen as the Dict it is (the same values, the same sort)"""
    if not t.args:
        return t
    return T("Dict" if t.kind == "DefaultDict" else t.kind, tuple(canon(a) for a in t.args), t.name)


def sort(t: T):
    if t._s is not None:
        return t._s
    k = t.kind
    if canon(t) is not t:
        t._s = sort(canon(t))
        return t._s
    if k == "Int":
        s = z3.IntSort()
    elif k == "Bool":
        s = z3.BoolSort()
    elif k == "Real":
        s = z3.RealSort()
    elif k == "Str":
        s = z3.DeclareSort("Str")
    elif k == "None":
        s = z3.BoolSort()
    elif k == "U":
        s = z3.DeclareSort("U_" + t.name)
    elif k == "Map":
        s = z3.ArraySort(sort(t.args[0]), sort(t.args[1]))
    else:
        _n[0] += 1
        nm = f"{k}_{_n[0]}"
        d = z3.Datatype(nm)
        if k in ("List", "Nd"):
            d.declare(nm + "_mk", (nm + "_arr", z3.ArraySort(z3.IntSort(), sort(t.args[0]))), (nm + "_len", z3.IntSort()))
        elif k == "Tuple":
            d.declare(nm + "_mk", *[(f"{nm}_{i}", sort(a)) for i, a in enumerate(t.args)])
        elif k in ("Dict", "DefaultDict"):
            K, V = map(sort, t.args)
            d.declare(nm + "_mk", (nm + "_keys", z3.ArraySort(z3.IntSort(), K)), (nm + "_n", z3.IntSort()),
                      (nm + "_dom", z3.ArraySort(K, z3.BoolSort())), (nm + "_val", z3.ArraySort(K, V)),
                      (nm + "_idx", z3.ArraySort(K, z3.IntSort())))
        elif k == "Set":
            K = sort(t.args[0])
            d.declare(nm + "_mk", (nm + "_keys", z3.ArraySort(z3.IntSort(), K)), (nm + "_n", z3.IntSort()),
                      (nm + "_dom", z3.ArraySort(K, z3.BoolSort())), (nm + "_idx", z3.ArraySort(K, z3.IntSort())))
        elif k == "Opt":
            d.declare(nm + "_none")
            d.declare(nm + "_some", (nm + "_v", sort(t.args[0])))
        elif k == "Iter":
            d.declare(nm + "_mk", (nm + "_arr", z3.ArraySort(z3.IntSort(), sort(t.args[0]))), (nm + "_n", z3.IntSort()),
                      (nm + "_pos", z3.IntSort()))
        elif k == "Cell":
            d.declare(nm + "_mk", (nm + "_v", sort(t.args[0])))
        else:
            raise Unsupported(f"type {t}")
        s = d.create()
        for i in range(s.num_constructors()):
            pass
    t._s = s
    return s


# ---- accessors (z3 level) ----
def acc(t, x, i, c=0):
    """i-th field of constructor c; simplifies mk(...) on the fly."""
    s = sort(t)
    con = s.constructor(c)
    if z3.is_app(x) and x.decl().eq(con):
        return x.arg(i)
    return s.accessor(c, i)(x)


def mk(t, *fields, c=0):
    s = sort(t)
    con = s.constructor(c)
    return con(*fields) if fields else con()


def l_arr(t, x): return acc(t, x, 0)
def l_len(t, x): return acc(t, x, 1)
def d_keys(t, x): return acc(t, x, 0)
def d_n(t, x): return acc(t, x, 1)
def d_dom(t, x): return acc(t, x, 2)
def d_val(t, x): return acc(t, x, 3)
def d_idx(t, x): return acc(t, x, 4) if t.kind != "Set" else acc(t, x, 3)
def it_arr(t, x): return acc(t, x, 0)
def it_n(t, x): return acc(t, x, 1)
def it_pos(t, x): return acc(t, x, 2)


def is_none(t, x):
    s = sort(t)
    if z3.is_app(x):
        if x.decl().eq(s.constructor(0)):
            return z3.BoolVal(True)
        if x.decl().eq(s.constructor(1)):
            return z3.BoolVal(False)
    return s.recognizer(0)(x)


def none(t): return sort(t).constructor(0)()
def some(t, v): return sort(t).constructor(1)(v)
def unopt(t, x): return acc(t, x, 0, c=1)


def default_arr(t, k=None):
    """an arbitrary but fixed array used as the unobservable part of an empty container"""
    s = z3.ArraySort(sort(k) if k is not None else z3.IntSort(), sort(t))
    return z3.Const(f"any_{s.sexpr().replace(' ', '_').replace('(', '<').replace(')', '>')}", s)


def empty(t):
    if t.kind == "List":
        return mk(t, default_arr(t.args[0]), z3.IntVal(0))
    if t.isdict:
        K, V = t.args
        return mk(t, default_arr(K), z3.IntVal(0), z3.K(sort(K), z3.BoolVal(False)), default_arr(V, K), default_arr(INT, K))
    if t.kind == "Set":
        K = t.args[0]
        return mk(t, default_arr(K), z3.IntVal(0), z3.K(sort(K), z3.BoolVal(False)), default_arr(INT, K))
    raise Unsupported(f"empty {t}")


_q = [0]


def fresh(name, s):
    _q[0] += 1
    return z3.Const(f"{name}!{_q[0]}", s)


def reset():
    _q[0] = 0


def forall(vs, body, pats=()):
    if z3.is_true(body):
        return body
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def needs_wf(t):
    return t.kind in ("List", "Nd", "Dict", "DefaultDict", "Set", "Iter") or (
        t.kind in ("Tuple", "Opt", "Cell") and any(needs_wf(a) for a in t.args)) or (t.kind == "Map" and needs_wf(t.args[1]))


def wf(t, x):
    """well-formedness facts true of every value of the type (sound: every engine operation preserves them)"""
    out = []
    if t.kind in ("List", "Nd"):
        n, a = l_len(t, x), l_arr(t, x)
        out.append(n >= 0)
        if needs_wf(t.args[0]):
            i = fresh("i", z3.IntSort())
            out.append(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*wf(t.args[0], z3.Select(a, i)))),
                              [z3.Select(a, i)]))
    elif t.isdict or t.kind == "Set":
        K = t.args[0]
        keys, n, dom, idx = d_keys(t, x), d_n(t, x), d_dom(t, x), d_idx(t, x)
        i, k = fresh("i", z3.IntSort()), fresh("k", sort(K))
        out.append(n >= 0)
        out.append(forall([i], z3.Implies(z3.And(0 <= i, i < n),
                                          z3.And(z3.Select(dom, z3.Select(keys, i)), z3.Select(idx, z3.Select(keys, i)) == i)),
                          [z3.Select(keys, i)]))
        body = z3.Implies(z3.Select(dom, k), z3.And(z3.Select(idx, k) >= 0, z3.Select(idx, k) < n,
                                                    z3.Select(keys, z3.Select(idx, k)) == k))
        pats = []
        if not (z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_CONST_ARRAY):
            pats.append(z3.Select(dom, k))
        out.append(forall([k], body, pats))
        if t.isdict and needs_wf(t.args[1]):
            k2 = fresh("k", sort(K))
            v = z3.Select(d_val(t, x), k2)
            out.append(forall([k2], z3.Implies(z3.Select(dom, k2), z3.And(*wf(t.args[1], v))), [v]))
    elif t.kind == "Map":
        if needs_wf(t.args[1]):
            k = fresh("k", sort(t.args[0]))
            out.append(forall([k], z3.And(*wf(t.args[1], z3.Select(x, k))), [z3.Select(x, k)]))
    elif t.kind == "Tuple":
        for i, a in enumerate(t.args):
            if needs_wf(a):
                out += wf(a, acc(t, x, i))
    elif t.kind == "Opt":
        if needs_wf(t.args[0]):
            out.append(z3.Implies(z3.Not(is_none(t, x)), z3.And(*wf(t.args[0], unopt(t, x)))))
    elif t.kind == "Cell":
        if needs_wf(t.args[0]):
            out += wf(t.args[0], acc(t, x, 0))
    elif t.kind == "Iter":
        out += [it_n(t, x) >= 0, it_pos(t, x) >= 0, it_pos(t, x) <= it_n(t, x)]
        if needs_wf(t.args[0]):
            i = fresh("i", z3.IntSort())
            e = z3.Select(it_arr(t, x), i)
            out.append(forall([i], z3.Implies(z3.And(0 <= i, i < it_n(t, x)), z3.And(*wf(t.args[0], e))), [e]))
    return out


def eq(t, a, b):
    """Python == of two values of type t"""
    if t.kind in ("List", "Nd"):
        i = fresh("i", z3.IntSort())
        aa, bb = l_arr(t, a), l_arr(t, b)
        if a.eq(b):
            return z3.BoolVal(True)
        return z3.And(l_len(t, a) == l_len(t, b),
                      forall([i], z3.Implies(z3.And(0 <= i, i < l_len(t, a)), eq(t.args[0], z3.Select(aa, i), z3.Select(bb, i)))))
    if t.isdict:
        k = fresh("k", sort(t.args[0]))
        da, db = d_dom(t, a), d_dom(t, b)
        va, vb = d_val(t, a), d_val(t, b)
        return forall([k], z3.And(z3.Select(da, k) == z3.Select(db, k),
                                  z3.Implies(z3.Select(da, k), eq(t.args[1], z3.Select(va, k), z3.Select(vb, k)))))
    if t.kind == "Set":
        k = fresh("k", sort(t.args[0]))
        return forall([k], z3.Select(d_dom(t, a), k) == z3.Select(d_dom(t, b), k))
    if t.kind == "Tuple":
        return z3.And(*[eq(x, acc(t, a, i), acc(t, b, i)) for i, x in enumerate(t.args)])
    if t.kind == "Opt" and needs_wf(t.args[0]):
        return z3.Or(z3.And(is_none(t, a), is_none(t, b)),
                     z3.And(z3.Not(is_none(t, a)), z3.Not(is_none(t, b)), eq(t.args[0], unopt(t, a), unopt(t, b))))
    return a == b

